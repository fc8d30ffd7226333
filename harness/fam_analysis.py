"""Zernike analyses of phase maps (C18)."""
import contextlib, io
import numpy as np
from pySLM2.analysis import ansi_j_to_n_m, remove_trivial_phase, zernike_decomposition
from q import *

SCALE = [1.0, 2.0 ** -10, 1000.0]
DIRT = [None, np.nan, np.inf, 1e6, -1e9]


def pmap(q, ny, nx):
    r, c = np.mgrid[0:ny, 0:nx]
    if q["imp"]:
        return ((r == q["a"] % ny) & (c == q["b"] % nx)).astype(float)
    v = (q["a"] + q["b"] * r + q["c"] * c) % q["m"] - q["off"]
    if q["d"]:
        v = v + (r * c) % q["d"]
    if q["t"]:
        v = v + (r * r * q["t"]) % 5
    return v.astype(float)


def lay(a, k):
    """the same values in another memory layout"""
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros((2 * a.shape[0], 2 * a.shape[1]), a.dtype)
        b[::2, 1::2] = a
        return b[::2, 1::2]
    return a


def one(e, ny, nx, R2):
    p = pmap(e["map"], ny, nx)
    y, x = np.mgrid[0:ny, 0:nx]
    d2 = (2 * x - (nx - 1)) ** 2 + (2 * y - (ny - 1)) ** 2
    isint = e["dtype"].startswith("int")
    sc = 1.0 if isint else SCALE[e["scale"]]
    a = p * sc
    dirt = DIRT[e["dirt"]]
    if dirt is not None:
        a[d2 > R2 * R2] = dirt if not isint else 1000000
        a[d2 == R2 * R2] = 1000000 if isint else 1e6 * sc
    a = lay(a.astype(e["dtype"]), e["contig"])
    if e["contig"] == 3:
        a = a.copy(); a.flags.writeable = False
    keep = a.copy()
    rad = R2 / 2
    if e["rtype"] == "int" and R2 % 2 == 0:
        rad = R2 // 2
    elif e["rtype"] == "np":
        rad = np.float64(rad)
    with contextlib.redirect_stdout(io.StringIO()):
        if e["op"] == "strip":
            kw = dict(remove_defocus=True) if e["defocus"] else {}
            if e["verbose"]:
                kw["verbose"] = True
            out = np.asarray(remove_trivial_phase(a, rad, **kw), dtype=float)
            e["shape"] = shape(out)
            outer = d2 > R2 * R2
            e["outer_same"] = bool(out.shape == a.shape and np.array_equal(out[outer], keep[outer].astype(float), equal_nan=True))
            u = (4096 if R2 <= 12 else 256) * 16
            e["out"] = [[q(v / sc, u) for v in row] for row in out] if out.ndim == 2 else []
        else:
            kw = {}
            for k, v in (("verbose", e["verbose"]), ("reconstruct", e["rec"]), ("extrapolate", e["ext"])):
                if v:
                    kw[k] = True
            res = zernike_decomposition(a, rad, e["k"], **kw)
            cs, rec = res if e["rec"] else (res, None)
            e["c"] = [q(v / sc, 2 ** 18) for v in list(cs)]
            if rec is not None:
                rec = np.asarray(rec, dtype=float)
                e["recshape"] = shape(rec)
                e["r"] = [[q(v / sc, 4096) for v in row] for row in rec] if rec.ndim == 2 else []
    e["dirty"] = not np.array_equal(a, keep, equal_nan=True)


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        evs = []
        for e in h:
            e = dict(e, exc="")
            if e["op"] == "new":
                ny, nx, R2 = e["ny"], e["nx"], e["R2"]
            else:
                try:
                    one(e, ny, nx, R2)
                except Exception as x:
                    e["exc"] = exc(x)
            evs.append(e)
        res.append(dict(id="%s/%d/%d" % (job["prop"], job["prec"], job["base"] + n), events=evs))
    if job.get("ansi"):
        tab = []
        try:
            for j in list(range(0, 1200)) + [k * (k + 1) // 2 + d for k in (60, 99, 100, 500, 3000) for d in (-1, 0, 1, k)]:
                n, m = ansi_j_to_n_m(j)
                tab.append([j, q(n), q(m)] if q(n) == n and q(m) == m and isinstance(n, (int, np.integer)) else [j, BIG % 99991, 0])
            ev = dict(op="ansi", exc="", tab=tab)
        except Exception as x:
            ev = dict(op="ansi", exc=exc(x), tab=[])
        res.append(dict(id="%s/%d/ansi" % (job["prop"], job["prec"]), events=[dict(op="new", ny=1, nx=1, R2=1, exc=""), ev]))
    return res
