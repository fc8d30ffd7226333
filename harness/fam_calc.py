"""DMD calculations (C09)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import DMD, LCOS_SLM, SLMSimulation, DMDSimulation
from q import *
from fam_device import mp, OPT, field, Sup

SCALES = {1: 1.0, 2: 1e-3, 3: 250.0, 4: 0.37}


def mat(m, ny, nx):
    if m["k"] == "sparse":
        a = np.zeros((ny, nx), complex)
        for p in m["px"]:
            a[p["r"], p["c"]] = p["re"] + 1j * p["im"]
        return a
    a = (mp(m["re"], ny, nx) - m["off"]) + 1j * (mp(m["im"], ny, nx) - m["off"])
    if m.get("boost", 1) != 1:
        r, c = np.mgrid[0:ny, 0:nx]
        a[(r + c) % 3 != 0] *= m["boost"]
    if m["hole"]:
        r, c = np.mgrid[0:ny, 0:nx]
        a[(r + 2 * c) % m["hole"] == 0] = 0
    return a


def sup(S, a, rng):
    """hand the array over as complex or, when it is real, sometimes as real"""
    if np.all(np.asarray(a).imag == 0) and rng.random() < .5:
        a = a.real
    return S.arr(a, False)


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        evs, buf, kept = [], Buffers(), Kept()
        for e in h:
            e = dict(e, exc="")
            g = e["g"]
            ny, nx = g["Ny"], g["Nx"]
            w, f, ps = kept.get(("opt", g), lambda: OPT[rng.randrange(3)])
            S = Sup(rng, buf)
            try:
                d = kept.get(g, lambda: DMD(w, f, float(g["M"] / np.hypot(g["ga"], g["gb"])), float(np.arctan2(g["gb"], g["ga"])),
                                            nx, ny, ps, negative_order=g["neg"]))
                se, st = SCALES[e["se"]], SCALES[e["st"]]
                E, t = mat(e["E"], ny, nx) * se, mat(e["t"], ny, nx) * st
                kw = {}
                if e["w"]["k"] != "none":
                    kw["window"] = sup(S, mat(e["w"], ny, nx), rng)
                unit = ps ** 2 / (w * f) * nx * ny
                if e["op"] == "calc":
                    if e["method"] == "steep":
                        kw.update(method="random", r=1000.0)
                    else:
                        kw["method"] = e["method"]
                    a, b = sup(S, E, rng), sup(S, t, rng)
                    eta = d.calculate_dmd_state(a, b, **kw) if rng.random() < .5 else \
                        d.calculate_dmd_state(input_profile=a, target_profile=b, **kw)
                    e["m"] = q(unit / float(eta) / (st / se), 1000) if float(eta) else BIG
                    s = d.dmd_state
                    e["binary"] = bool(s.dtype == bool)
                    e["st"] = (s.astype(int) * 16384).tolist() if e["binary"] else [[q(v, 16384) for v in row] for row in s]
                    e["dirty"] = S.dirty()
                else:
                    e["img"], e["etas"] = [], []
                    eta0 = None
                    for j in range(3):
                        eta = float(d.calculate_dmd_state(S.arr(E, False), S.arr(t * np.exp(2j * np.pi * j / 3), False), method="ideal"))
                        eta0 = eta0 or eta
                        e["etas"].append(q(eta / eta0, 100000))
                        # padding by whole multiples of the device keeps the target on grid points
                        s = DMDSimulation(d, padding_x=e["ps"][1] * nx, padding_y=e["ps"][0] * ny)
                        s.propagate_to_image(S.arr(E, False))
                        e["img"].append(field(s.image_plane_field * 4 / eta / st, 1024))
                    o = d.first_order_origin
                    e["org"] = [q(float(o[0]) * nx * ps / (w * f), 1000), q(float(o[1]) * ny * ps / (w * f), 1000)]
            except Exception as ex:
                e["exc"] = exc(ex)
            evs.append(e)
        res.append(dict(id="C09/%d/%d" % (job["prec"], n + job.get("base", 0)), events=evs))
    return res
