"""IFTA calculations (C10)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import DMD
from q import *
from fam_device import mp, OPT, Sup

SC = [1.0, 1e-3, 40.0]


def window(q_, ny, nx):
    if q_["k"] == "map":
        return mp(q_["map"], ny, nx) / 4.0
    a = np.zeros((ny, nx))
    a[q_["r0"]:q_["r1"] + 1, q_["c0"]:q_["c1"] + 1] = q_["v"] / 4.0
    return a


def default(e, d, g, rng):
    ny, nx = g["Ny"], g["Nx"]
    nr = np.random.default_rng(rng.randrange(10 ** 6))
    E = nr.normal(size=(ny, nx)) + 1j * nr.normal(size=(ny, nx))
    win = (nr.random((ny, nx)) < .4) * 1.0
    a, p1, p2 = nr.random((ny, nx)), 6.28 * nr.random((ny, nx)), 6.28 * nr.random((ny, nx))

    def go(**kw):
        kw.update(method="ifta", signal_window=win)
        d.set_dmd_state_off()
        if e["via"] == "calc":
            d.calculate_dmd_state(E, a * np.exp(1j * p1), **kw)
        elif e["via"] == "grating":
            d.set_dmd_grating_state(a, p1, p2, input_profile=E, **kw)
        else:
            d.circular_patch(ny / 2, nx / 2, a, p1, p2, 100, input_profile=E, **kw)
        return d.dmd_state.copy()
    full = dict(N=200, s=1.0)
    part = {k: v for k, v in full.items() if e["which"] not in (k, "both")}
    x, y, z = go(**part), go(**full), go(N=190, s=1.0)
    e["same"] = bool(np.array_equal(x, y))
    e["sensitive"] = bool(not np.array_equal(y, z))


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        evs, buf, kept = [], Buffers(), Kept()
        for e in h:
            e = dict(e, exc="", dirty=False)
            g = e["g"]
            ny, nx = g["Ny"], g["Nx"]
            w, f, ps = kept.get(("opt", g), lambda: OPT[rng.randrange(3)])
            S = Sup(rng, buf)
            try:
                d = kept.get(g, lambda: DMD(w, f, float(g["M"] / np.hypot(g["ga"], g["gb"])), float(np.arctan2(g["gb"], g["ga"])),
                                            nx, ny, ps, negative_order=g["neg"]))
                if e["op"] == "default":
                    default(e, d, g, rng)
                    evs.append(e)
                    continue
                kw = dict(method="ifta", signal_window=S.arr(np.zeros((ny, nx)) if e["op"] == "dim" else window(e["win"], ny, nx), False))
                kw["N"] = e["N"]
                if e["s4"] != 4 or rng.random() < .5:
                    kw["s"] = e["s4"] / 4
                sc = SC[rng.randrange(3)]
                if e["op"] == "dim":
                    r, c = np.mgrid[0:ny, 0:nx]
                    E = 8.0 ** -mp(e["fade"], ny, nx) * 1j ** (mp(e["qt"], ny, nx) % 4)
                    if e["hole"]:
                        E[(r + 2 * c) % e["hole"] == 0] = 0
                elif e["via"] == "calc":
                    E = np.array([0, 1, 2, 3])[mp(e["mod"], ny, nx) % 4] * 1j ** (mp(e["qt"], ny, nx) % 4) * sc
                    t = np.zeros((ny, nx), complex)
                    t[e["R"], e["C"]] = SC[rng.randrange(3)]
                    d.calculate_dmd_state(S.arr(E, False), S.arr(t, False), **kw)
                elif e["op"] == "ifta":
                    E = (mp(e["E"]["re"], ny, nx) - e["E"]["off"]) + 1j * (mp(e["E"]["im"], ny, nx) - e["E"]["off"])
                    if e["E"]["hole"]:
                        r, c = np.mgrid[0:ny, 0:nx]
                        E[(r + 2 * c + e["E"]["hs"]) % e["E"]["hole"] == 0] = 0
                if e["via"] != "calc":
                    kw["input_profile"] = S.arr(E * sc, False)
                    args = [S.arr(mp(e["amp"], ny, nx) / 16.0, False), S.arr(2 * np.pi * mp(e["pin"], ny, nx) / 240, False),
                            S.arr(2 * np.pi * mp(e["pout"], ny, nx) / 240, False)]
                    if e["via"] == "grating":
                        d.set_dmd_grating_state(*args, **kw)
                    else:
                        (d.set_dmd_state_on if e["bg"] == "on" else d.set_dmd_state_off)()
                        d.circular_patch(e["i2"] / 2, e["j2"] / 2, *args, e["d2"] / 2, **kw)
                s = d.dmd_state
                e["binary"] = bool(s.dtype == bool)
                e["st"] = (s != 0).tolist()
                e["dirty"] = S.dirty()
            except Exception as ex:
                e["exc"] = exc(ex)
            evs.append(e)
        res.append(dict(id="C10/%d/%d" % (job["prec"], n + job.get("base", 0)), events=evs))
    return res
