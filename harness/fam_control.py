"""Controller histories against stand-in device libraries (C15, C16, C17)."""
import random
import numpy as np
import fakes
from q import *
fakes.install()
from pySLM2.util import controller as C

SIZES = {"small": [(4, 5), (5, 4), (3, 7)], "odd": [(7, 3), (5, 9)], "big": [(24, 40), (32, 32), (30, 17)]}


class World:
    def __init__(self, rng):
        self.rng, self.ctl, self.line, self.img = rng, {}, {}, {}
        self.pool, self.lists = {}, {}

    def frames(self, e, imgs):
        """The list of frames of a load.  The caller keeps its frames (the same object again for the same image), or
        reuses a buffer for another image, or makes new ones; any memory layout; now and then the same list object."""
        rng, own = self.rng, self.pool.setdefault(e["cid"], {})
        F, style = [], rng.randrange(4)
        for p, t in enumerate(e["F"]):
            if style == 0:
                a = own.setdefault(("kept", t), layout(imgs[t], rng))
            elif style == 1:
                a = own.setdefault(("buffer", p), layout(imgs[t], rng))
                a[...] = imgs[t]
            elif style == 2:
                a = own.setdefault(("kept", t), layout(imgs[t], rng)) if rng.random() < .5 else layout(np.array(imgs[t]), rng)
            else:
                a = np.array(imgs[t])
            F.append(a)
        if rng.random() < .4:
            L = self.lists.setdefault(e["cid"], [])
            L[:] = F
            return L
        return F

    def new(self, e):
        rng = self.rng
        rows, cols = rng.choice(SIZES[e["size"]])
        tokens, imgs = {}, {}
        nr = np.random.default_rng(rng.randrange(10 ** 6))
        for t in range(1, 13):
            while True:
                a = nr.random((rows, cols)) < .5
                b = a.astype(np.uint8)
                if b.tobytes() not in tokens and b.any() and not b.all():
                    break
            tokens[b.tobytes()], tokens[(1 - b).tobytes()], imgs[t] = t, -t, a
        ln = fakes.Line(rows, cols, tokens)
        fakes.current["line"] = ln
        if e["kind"] == "lux":
            ip, to = rng.choice([("192.168.0.10", None), ("10.0.0.%d" % rng.randrange(255), 2.5)])
            kw = dict(timeout=to) if to is not None or rng.random() < .5 else {}
            inv = dict(invert=e["inv"]) if e["inv"] or rng.random() < .5 else {}
            c = C.LuxbeamController(ip, **inv, **kw)
            e["ctor"] = bool(ln.ctor["ip"] == ip and ln.ctor["timeout"] == to)
            e["hwinv"] = ln.ctor["inverse"]
        else:
            inv = dict(invert=e["inv"]) if e["inv"] or rng.random() < .5 else {}
            v = rng.choice([None, "4.2"])
            c = C.ALPController(**inv, **(dict(version=v) if v else {}))
            e["ctor"] = bool(ln.ctor["version"] == (v or "4.3"))
            e["hwinv"] = False
        self.ctl[e["cid"]], self.line[e["cid"]], self.img[e["cid"]] = c, ln, imgs
        e["isinit"] = bool(c.is_initialized())

    def do(self, e):
        if e["op"] == "new":
            return self.new(e)
        c, ln, imgs = self.ctl[e["cid"]], self.line[e["cid"]], self.img[e["cid"]]
        env = {}
        for x in e["env"]:
            env.setdefault(x["at"], []).extend([(x["src"], 1), (x["src"], 0)])
        e.update(exc="", faulted=False, dirty=False, rows=ln.rows, cols=ln.cols)
        if e["op"] == "ext":
            ln.begin()
            for x in env.get(0, []):
                ln.log.append(dict(fn="env", src=x[0], level=x[1], eff=True))
            e["calls"], e["isinit"] = ln.log, bool(c.is_initialized())
            return
        ln.begin((e["fk"], e["fv"]) if e["fk"] >= 0 else None, env)
        try:
            if e["op"] == "init":
                c.initialize()
            elif e["op"] == "close":
                c.close()
            elif e["op"] in ("single", "multi"):
                F = self.frames(e, imgs)
                given = list(F)
                try:
                    c.load_single(F[0]) if e["op"] == "single" else c.load_multiple(F)
                finally:
                    e["dirty"] = not (len(F) == len(e["F"]) and all(f is g for f, g in zip(F, given)) and all(np.array_equal(f, imgs[t]) and f.dtype == bool for f, t in zip(F, e["F"])))
            elif e["op"] == "fire":
                c.fire_software_trigger()
            elif e["op"] in ("nx", "ny"):
                e["val"] = q(c.Nx if e["op"] == "nx" else c.Ny)
            elif e["op"] == "number":
                a = c.number_image(e["n"])
                e["shape"], e["bool"], e["lit"] = shape(a), bool(np.asarray(a).dtype == bool), int(np.sum(np.asarray(a) != 0))
        except Exception as ex:
            e["exc"] = exc(ex)
        e["calls"], e["faulted"], e["isinit"] = ln.log, ln.faulted, bool(c.is_initialized())


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        w = World(random.Random(job["seed"] * 1000003 + n))
        evs = []
        for e in h:
            e = dict(e)
            w.do(e)
            evs.append(e)
        res.append(dict(id="%s/%s/%d" % (job["tag"], h[0]["kind"], n + job.get("base", 0)), events=evs))
    return res
