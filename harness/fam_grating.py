"""Grating commands on devices of every size (C08)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from q import *
from fam_device import mp, Sup, OPT


def device(g, rng):
    w, f, ps = OPT[rng.randrange(3)]
    p, th = float(g["M"] / np.hypot(g["ga"], g["gb"])), float(np.arctan2(g["gb"], g["ga"]))
    if rng.random() < .3:
        th += 2 * np.pi * rng.choice([-1, 1])
    if g["model"] == "generic":
        return pySLM2.DMD(w, f, p, th, g["Nx"], g["Ny"], ps, g["neg"])
    return getattr(pySLM2, g["model"])(w, f, p, th, negative_order=g["neg"])


def suspects(st):
    """Pairs of mirrors of a state (rows are lines): for translations and the three reflections the cyclic lag with the
    strongest correlation, and how many pairs at this lag are both on."""
    res = st - st.mean(axis=1, keepdims=True)
    F = np.fft.fft2(res)
    out = []
    for fl, fa in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        # partner of (k, a) is (fl (k + s), fa (a + t))
        other = st[(fl * np.arange(st.shape[0])) % st.shape[0]][:, (fa * np.arange(st.shape[1])) % st.shape[1]]
        c = np.abs(np.fft.ifft2(np.conj(F) * np.fft.fft2(other - other.mean(axis=1, keepdims=True))))
        if fl == fa == 1:
            c[0, 0] = 0
        s, t = np.unravel_index(np.argmax(c), c.shape)
        on = int((st * np.roll(other, (-s, -t), axis=(0, 1))).sum())
        out.append(dict(flip=fl < 0, lag=int(fl * s), on=on))
    return out


def samples(rng, ny, nx):
    if ny * nx <= 200:
        return [(i, j) for i in range(ny) for j in range(nx)]
    return [(0, 0), (0, nx - 1), (ny - 1, 0), (ny - 1, nx - 1), (ny // 2, nx // 2)] + \
           [(rng.randrange(ny), rng.randrange(nx)) for _ in range(120)]


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        evs, buf, kept = [], Buffers(), Kept()
        for e in h:
            e = dict(e, exc="", prec=job["prec"])
            g = e["g"]
            ny, nx = g["Ny"], g["Nx"]
            sup = Sup(rng, buf)
            try:
                d = kept.get(g, lambda: device(g, rng))
                if e["op"] == "samples":
                    sc = lambda m: m["b"] == 0 and m["c"] == 0
                    a = mp(e["amp"], ny, nx)
                    steep = e["method"] == "steep"
                    args = [sup.arr(np.sin(2 * np.pi * a / 240) if steep else a / 16.0, sc(e["amp"])),
                            sup.arr(2 * np.pi * mp(e["pin"], ny, nx) / 240, sc(e["pin"])),
                            sup.arr(2 * np.pi * mp(e["pout"], ny, nx) / 240, sc(e["pout"]))]
                    kw = dict(method="random", r=1000) if steep else dict(method=e["method"])
                    d.set_dmd_grating_state(*args, **kw)
                    st = d.dmd_state
                    e["shape"] = shape(st)
                    e["binary"] = bool(st.dtype == bool)
                    e["pts"] = [[i, j, q(float(st[i, j]), 16384)] for i, j in samples(rng, ny, nx)] if list(st.shape) == [ny, nx] else []
                else:
                    kw = {} if e["dflt"] else dict(method="random", r=e["r10"] / 10)
                    amp = np.sin(2 * np.pi * e["v"] / 240)
                    tf.random.set_seed(job["seed"] * 1009 + n * 31 + len(evs))   # reproducible thresholds
                    pin, pout = 2 * np.pi * e["pin"] / 240, 2 * np.pi * e["pout"] / 240
                    def go(d):
                        if e["via"] == "grating":
                            d.set_dmd_grating_state(float(amp), pin, pout, **kw)
                        elif e["via"] == "patch":
                            d.circular_patch(ny / 2, nx / 2, float(amp), pin, pout, 3 * (nx + ny), **kw)
                        else:
                            t = np.zeros((ny, nx), complex)
                            t[ny // 2, nx // 2] = np.exp(1j * pout)
                            d.calculate_dmd_state(np.full((ny, nx), np.exp(1j * pin)), t, **kw)
                        return d.dmd_state
                    st = go(d)
                    e["binary"] = bool(st.dtype == bool)
                    st = st.astype(int) if e["axis"] == "row" else st.astype(int).T
                    M = g["M"]
                    # the same command again, on the same or another device: mirrors on both times
                    st2 = go(d if rng.random() < .5 else device(g, rng)).astype(int)
                    e["again"] = (st * (st2 if e["axis"] == "row" else st2.T)).sum(axis=1).tolist()
                    e["pairs"] = suspects(st)
                    e["on"] = st.sum(axis=1).tolist()
                    e["along"] = (st[:, 1:] * st[:, :-1]).sum(axis=1).tolist()
                    ac = (st[M:] * st[:-M]).sum(axis=1).tolist()
                    e["across"] = ac + [0] * M
            except Exception as ex:
                e["exc"] = exc(ex)
                e.setdefault("pts", [])
            evs.append(e)
        res.append(dict(id="C08/%d/%d" % (job["prec"], n + job.get("base", 0)), events=evs))
    return res
