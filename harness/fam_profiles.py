"""Replays histories of Profiles on real profile objects (C03, C04)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import ConstantProfile, Zernike
from pySLM2.window import RectangularWindowRectangle, RectangularWindowCircular
from q import *

COS = [(5, 0), (0, 5), (-5, 0), (0, -5), (4, 3), (3, -4), (-4, 3), (-3, -4)]


def num(v, cx=False, rng=None):
    re, im = v[0] / v[2], v[1] / v[2]
    if cx:
        return complex(re, im)
    if v[2] == 1 and rng is not None and rng.random() < .5:
        return int(v[0])
    return re


def build(nd, objs, rng, L):
    op = nd["op"]
    if op == "const":
        return ConstantProfile(num(nd["c"], nd["cx"], rng))
    if op == "rect":
        return RectangularWindowRectangle(*[num(nd[k]) * L for k in ("x0", "y0", "wx", "wy")])
    if op == "circ":
        return RectangularWindowCircular(*[num(nd[k]) * L for k in ("x0", "y0", "r")])
    if op == "zern":
        return Zernike(num(nd["a"]), num(nd["r"]) * L, n=nd["n"], m=nd["m"], normalize=False, extrapolate=True)
    a = objs[nd["i"] - 1]
    b = objs[nd["j"] - 1] if "j" in nd else None
    c = num(nd["c"], nd.get("cx", False), rng) if "c" in nd else None
    if op == "add": return a + b
    if op == "sub": return a - b
    if op == "mul": return a * b
    if op == "div": return a / b
    if op == "powp": return a ** b
    if op == "adds": return a + c
    if op == "radds": return c + a
    if op == "subs": return a - c
    if op == "muls": return a * c
    if op == "rmuls": return c * a
    if op == "divs": return a / c
    if op == "pows": return a ** (nd["n"] if rng.random() < .5 else float(nd["n"]))
    if op == "powc": return a ** complex(nd["n"], 0)
    if op == "neg": return -a
    if op == "cis": return (a * (np.pi / 2)).as_complex_profile()
    if op == "cis2": return (a * (np.pi / 2) + b * complex(0, np.log(2))).as_complex_profile()
    if op == "cis240": return (a * (2 * np.pi / 240)).as_complex_profile()
    if op == "shift": return a.shift(num(nd["dx"]) * L, num(nd["dy"]) * L)
    if op == "rot":
        cs = COS[nd["k"] - 1]
        return a.rotate(float(np.arctan2(cs[1], cs[0])) + 2 * np.pi * nd.get("t", 0))
    if op == "rsx": return a.rescale_x(c)
    if op == "rsy": return a.rescale_y(c)
    raise ValueError(op)


def dec(v):
    v = float(v)
    if not np.isfinite(v) or abs(v) > 1e8:
        return [BIG, 0]
    k = int(round(v))
    return [k, int(round((v - k) * 1e8))]


def decc(v):
    v = complex(v)
    return [dec(v.real), dec(v.imag)]


def points(pts, form, memo, L):
    """Per scenario one coordinate buffer per shape and form: evaluations are repeated on identical argument objects,
    and the same objects are also overwritten with other points in between."""
    x, y = make_points(pts, form, L)
    if not isinstance(x, np.ndarray):
        return memo.setdefault((repr(pts), form), (x, y))
    bx, by = memo.setdefault((x.shape, x.dtype.str), (x.copy(), y.copy()))
    bx[...], by[...] = x, y
    return bx, by


def make_points(pts, form, L):
    x = np.array([p[0] / 2 * L for p in pts])
    y = np.array([p[1] / 2 * L for p in pts])
    if len(pts) == 1 and form % 2 == 0:
        return float(x[0]), float(y[0])
    if len(pts) in (4, 6, 9) and form >= 2:
        sh = {4: (2, 2), 6: (2, 3), 9: (3, 3)}[len(pts)]
        x, y = x.reshape(sh), y.reshape(sh)
    if form == 1:
        return x.tolist(), y.tolist()
    if form == 3:
        return x.astype(np.float32), y.astype(np.float32)
    return x, y


def evaluate(p, e, prec, memo, L):
    x, y = points(e["pts"], e["form"], memo, L)
    x0, y0 = np.array(x), np.array(y)
    v = p(x, y)
    assert np.array_equal(x0, x) and np.array_equal(y0, y)
    e["kind"] = str(np.asarray(v).dtype)
    v = np.broadcast_to(v, np.shape(x))
    if not isinstance(v, np.ndarray):
        v = np.asarray(v)
    e["obs"] = [decc(t) for t in v.ravel()]
    e["prec"] = prec


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        objs, evs, memo = [], [], {}
        # the unit of length of this history (half units of all of them are exact)
        L = rng.choice([1, 1, 2.0 ** -20, 1024.5])
        h = list(h)
        nn = sum(e["act"] == "make" for e in h)
        # everything once more at the end, and two angles that are not quarter turns
        tail = [dict(act="eval", i=i + 1, pts=[[2, 4], [-3, 1], [0, -2], [5, -5]], form=rng.randrange(4)) for i in range(nn)]
        for _ in range(2):
            i = rng.randrange(nn) + 1
            tail += [dict(act="make", nd=dict(op="cis240", i=i)),
                     dict(act="eval", i=nn + 1 + _, pts=[[2, 4], [-2, 2], [0, -2], [4, -6]], form=0)]
        gets = [dict(act="get", i=i + 1) for i, e in enumerate([e for e in h if e["act"] == "make"]) if e["nd"]["op"] in ("const", "rect", "circ", "zern")]
        stop = False
        for e in h + tail + gets:
            e = dict(e)
            e["exc"] = ""
            try:
                if e["act"] == "make":
                    try:
                        objs.append(build(e["nd"], objs, rng, L))
                    except Exception:
                        stop = True
                        raise
                elif e["act"] == "eval":
                    for _ in range(rng.choice([0] * 40 + [70])):      # evaluated many times
                        objs[e["i"] - 1](0.25 * L, -0.5 * L)
                    evaluate(objs[e["i"] - 1], e, job["prec"], memo, L)
                elif e["act"] == "set":
                    nd = [x for x in evs if x["act"] == "make"][e["i"] - 1]["nd"]
                    # a complex constant may be assigned a real number
                    cx = nd.get("cx", False) and not (e["v"][1] == 0 and rng.random() < .7)
                    setattr(objs[e["i"] - 1], e["p"], num(e["v"], cx, rng) * (1 if e["p"] in ("c", "a") else L))
                else:
                    o = objs[e["i"] - 1]
                    nd = [x for x in evs if x["act"] == "make"][e["i"] - 1]["nd"]
                    ps = {"const": ["c"], "zern": ["a"], "rect": ["x0", "y0", "wx", "wy"], "circ": ["x0", "y0", "r"]}[nd["op"]]
                    e["vals"] = {p: decc(np.array(getattr(o, p)) / (1 if p in ("c", "a") else L)) for p in ps}
                    if nd["op"] == "zern":
                        assert int(o.n) == nd["n"]
            except Exception as ex:
                e["exc"] = exc(ex)
            evs.append(e)
            if stop:
                break
        res.append(dict(id="%s/%d/%d" % (job["prop"], job["prec"], n + job.get("base", 0)), events=evs))
    return res
