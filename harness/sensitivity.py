"""sensitivity.py CHECK [per_pattern]: how much of a recorded trace does the specification look at?

Runs a check with every recorded scenario replaced by corrupted copies, one field of one event changed in each, and
lists per (operation, field) how many of the corrupted traces the specification accepts.  A development tool: an
accepted corruption is an observable the specification does not constrain there (an input of the operation, a value
within tolerance, an operation the statement does not speak about) or a hole.
"""
import collections, copy, importlib.util, os, random, sys
import vlib

def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from leaves(v[i], path + (i,))
    else:
        yield path, v

def corrupt(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([-1, 1]) * (abs(v) // 3 + 500)
    if isinstance(v, str):
        return v + "!" if v else "ValueError"
    return v

def main(check, per):
    rng = random.Random(1)
    tally = collections.Counter()
    real = vlib.Check.validate

    nested = []

    def validate(self, module, scenarios, *a, **k):
        if nested:
            return real(self, module, scenarios, *a, **k)
        nested.append(1)
        small = sorted(scenarios, key=lambda s: len(str(s)))[:max(4, len(scenarios) // 3)]
        spots = collections.defaultdict(list)
        for n, s in enumerate(small):
            for l, e in enumerate(s["events"]):
                for path, v in leaves(e):
                    spots[(e.get("op", e.get("kind", "?")), ".".join("*" if isinstance(p, int) else p for p in path))].append((n, l, path, v))
        bad = []
        for pat, L in spots.items():
            for n, l, path, v in rng.sample(L, min(per, len(L))):
                s = copy.deepcopy(small[n])
                t = s["events"][l]
                for p in path[:-1]:
                    t = t[p]
                t[path[-1]] = corrupt(v, rng)
                s["events"] = s["events"][:l + 1]
                s["id"] = "%s|%s" % pat
                bad.append(s)
        before = len(self.failures)
        for s in [bad[i::8] for i in range(8)]:
            for one in [s[i:i + 40] for i in range(0, len(s), 40)]:
                try:
                    real(self, module, one, *a, _retry=-60, **k)
                except vlib.MachineryError as e:
                    print("   (not evaluated: %s)" % str(e).splitlines()[0][:100])
                    for x in one:
                        tally[(module, x["id"], "?")] += 1
        hit = {(id(f["scenario"])) for f in self.failures[before:]}
        for s in bad:
            tally[(module, s["id"], "rejected" if id(s) in hit else "accepted")] += 1
        del self.failures[before:]
        nested.clear()

    vlib.Check.validate = validate
    sys.argv = ["check"]
    spec = importlib.util.spec_from_file_location("chk", os.path.join(vlib.HARN, "check_%s.py" % check))
    m = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(m)
    except SystemExit:
        pass
    for mod in sorted({k[0] for k in tally}):
        print("==", mod)
        for i in sorted({k[1] for k in tally if k[0] == mod}):
            r, a, u = (tally[(mod, i, x)] for x in ("rejected", "accepted", "?"))
            print("  %-50s rejected %3d accepted %3d%s" % (i, r, a, " ?%d" % u if u else ""))

main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4)
