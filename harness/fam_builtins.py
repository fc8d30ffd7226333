"""Replays histories of Builtins on the real profiles (C05, C04)."""
import random
import numpy as np
import pySLM2
from pySLM2 import ConstantProfile, HermiteGaussian, LaguerreGaussian, SuperGaussian, Zernike
from pySLM2.window import RectangularWindowRectangle, RectangularWindowCircular
from q import *
from fam_profiles import dec, decc

# exact, exact and not exact; small and large
UNIT = [[1.0, 4096.0], [2.0 ** -20], [1e-6, 1717.3]]


SAME = {}


def phys(p, v, q, u):
    """The same number object for the same number."""
    v = number(p, v, q, u)
    return SAME.setdefault((type(v), v), v)


def number(p, v, q, u):
    if p in ("x0", "y0", "r", "wx", "wy"):
        return v * u
    if p == "w2":
        return float(np.sqrt(v)) * u
    if p == "p2":
        return v / 2
    if p == "re":
        return complex(v / q["den"], q["im"] / q["den"]) if q["cx"] else v / q["den"]
    return v


NAME = {"w2": "w", "p2": "p", "re": "c"}


def build(q, objs, u):
    g = lambda *ks: [phys(k, q[k], q, u) for k in ks]
    op = q["op"]
    if op == "hg": return HermiteGaussian(*g("x0", "y0", "a", "w2"), n=q["n"], m=q["m"])
    if op == "lg": return LaguerreGaussian(*g("x0", "y0", "a", "w2"), l=q["l"], p=q["p"])
    if op == "sg": return SuperGaussian(*g("x0", "y0", "a", "w2", "p2"))
    if op == "zn": return Zernike(*g("a", "r"), n=q["n"], m=q["m"], normalize=q["norm"], extrapolate=q["ext"])
    if op == "rw": return RectangularWindowRectangle(*g("x0", "y0", "wx", "wy"))
    if op == "cw": return RectangularWindowCircular(*g("x0", "y0", "r"))
    if op == "co": return ConstantProfile(phys("re", q["re"], q, u))
    if op == "shift": return objs[q["i"] - 1].shift(q["dx"] * u, q["dy"] * u)
    if op == "times": return objs[q["i"] - 1] * q["k"]
    if op == "plus0": return objs[q["i"] - 1] + objs[q["j"] - 1]
    raise ValueError(op)


PTS = [[(x, y) for y in range(-3, 4) for x in range(-3, 4)],
       [(1, 2)],
       [(0, 0), (2, 0), (0, 2), (3, 4), (-4, 3), (-2, -2), (4, 0), (0, -4), (5, 0), (2, -4), (-1, 5), (-6, 0)]]


def settable(op):
    return {"hg": ["x0", "y0", "a", "w2"], "sg": ["x0", "y0", "a", "w2", "p2"], "zn": ["a"],
            "rw": ["x0", "y0", "wx", "wy"], "cw": ["x0", "y0", "r"], "co": ["re"]}.get(op, [])


def run(job):
    res = []
    prec = job["prec"]
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        objs, qs, evs, u, memo = [], [], [], 1.0, {}
        # every object once more at the end
        nn = sum(e["act"] == "make" for e in h)
        mk = [e["q"]["op"] for e in h if e["act"] == "make"]
        tail = [dict(act="eval", i=i + 1, form=0 if mk[i] != "shift" else 2) for i in range(nn)] + \
               [dict(act="eval", i=i + 1, form=2) for i in range(nn)] + \
               [dict(act="get", i=i + 1) for i in range(nn)]
        for e in h + tail:
            e = dict(e, exc="")
            bad = False
            if e["act"] == "get" and not settable(qs[e["i"] - 1]["op"]):
                continue
            try:
                if e["act"] == "unit":
                    u = rng.choice(UNIT[e["u"]])
                    continue
                if e["act"] == "make":
                    try:
                        objs.append(build(e["q"], objs, u))
                    except Exception:
                        bad = True
                        raise
                    qs.append(e["q"])
                elif e["act"] == "set":
                    q = qs[e["i"] - 1]
                    setattr(objs[e["i"] - 1], NAME.get(e["p"], e["p"]), phys(e["p"], e["v"], q, u))
                elif e["act"] == "eval":
                    e["pts"] = PTS[e["form"]]
                    if e["form"] not in memo:       # the same argument objects every time
                        x = np.array([p[0] * u for p in e["pts"]])
                        y = np.array([p[1] * u for p in e["pts"]])
                        if e["form"] == 0:
                            x, y = x.reshape(7, 7), y.reshape(7, 7)
                        if e["form"] == 1:
                            x, y = float(x[0]), float(y[0])
                        memo[e["form"]] = x, y
                    x, y = memo[e["form"]]
                    for _ in range(rng.choice([0] * 40 + [70])):      # evaluated many times
                        objs[e["i"] - 1](x, y)
                    v = objs[e["i"] - 1](x, y)
                    e["kind"] = str(np.asarray(v).dtype)
                    e["obs"] = [decc(t) for t in np.broadcast_to(v, np.shape(x)).ravel()]
                    e["prec"] = prec
                else:
                    q = qs[e["i"] - 1]
                    o = objs[e["i"] - 1]
                    e["vals"] = {}
                    for p in settable(q["op"]):
                        v = complex(np.asarray(getattr(o, NAME.get(p, p)))).real
                        if p in ("x0", "y0", "r", "wx", "wy"): v = v / u
                        elif p == "w2": v = (v / u) ** 2
                        elif p == "p2": v = 2 * v
                        e["vals"][p] = dec(v)
                    e["nm"] = [int(o.n), int(o.m)] if q["op"] in ("hg", "zn") else []
                    e["norm"] = bool(o.is_normalized()) if q["op"] == "zn" else False
                    if q["op"] == "zn":
                        e["vals"]["r"] = dec(float(o.radius) / u)
                        if q["norm"]:
                            k = q["n"] + 1 if q["m"] == 0 else 2 * q["n"] + 2
                            assert abs(float(o.normalization) - k ** .5) < 1e-5
            except Exception as ex:
                e["exc"] = exc(ex)
            evs.append(e)
            if bad:
                break
        res.append(dict(id="%s/b/%d/%d" % (job["prop"], prec, n + job.get("base", 0)), events=evs))
    if job.get("indices"):
        evs = []
        for nn in range(0, 10):
            for m in range(-12, 13):
                e = dict(act="index", n=nn, m=m, exc="", rejected="")
                try:
                    z = Zernike(1.0, 1.0, n=nn, m=m)
                    if (int(z.n), int(z.m)) != (nn, m):
                        e["exc"] = "wrong index properties"
                except Exception as ex:
                    e["rejected"] = exc(ex)
                evs.append(e)
        res.append(dict(id="%s/index/%d" % (job["prop"], prec), events=evs))
    return res
