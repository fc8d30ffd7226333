"""Single propagations on devices of every size (C11)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import DMD, LCOS_SLM, SLMSimulation, DMDSimulation
from q import *
from fam_device import mp, OPT, field, amps

U = 64


def device(e, rng):
    w, f, ps = OPT[rng.randrange(3)]
    nx, ny = e["Nx"], e["Ny"]
    neg = rng.random() < .5
    if e["model"] == "PLUTO_2":
        return pySLM2.PLUTO_2(w, f)
    if e["model"] != "generic":
        return getattr(pySLM2, e["model"])(w, f, 4.0, .3, negative_order=neg)
    if e["form"] == "phase":
        return LCOS_SLM(w, f, nx, ny, ps)
    return DMD(w, f, 3.0, .1, nx, ny, ps, negative_order=neg)


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        evs, buf, kept = [], Buffers(), Kept()
        for e in h:
            e = dict(e, exc="", res=[])
            ny, nx = e["Ny"], e["Nx"]
            try:
                dk = (e["model"], nx, ny, e["form"] == "phase")
                d = kept.get(dk, lambda: device(e, rng))
                buf.fresh()
                w, ps = float(d.wavelength * d.focal_length), float(d.pixel_size)
                st = mp(e["st"], ny, nx)
                if e["form"] == "bool": d.dmd_state = layout((st % 2).astype(bool), rng)
                elif e["form"] in ("gray", "signed"): d.dmd_state = layout(((st - 16 * (e["form"] == "signed")) / 16.0).astype(rng.choice(["float32", "float64"])), rng)
                else: d.slm_state = 2 * np.pi * (st - rng.choice([0, 240, -240])) / 240
                i = e["in"]
                if i["k"] == "dense":
                    a = (mp(i["re"], ny, nx) - i["off"]) + 1j * (mp(i["im"], ny, nx) - i["off"])
                elif i["k"] == "sparse":
                    a = np.zeros((ny, nx), complex)
                    for p in i["px"]:
                        a[p["r"], p["c"]] = p["re"] + 1j * p["im"]
                else:
                    a = i["am"] * np.exp(2j * np.pi * mp(i["ph"], ny, nx) / 240)
                if np.all(a.imag == 0) and rng.random() < .5:
                    a = a.real
                make = lambda v: layout(np.array(v), rng)
                a = buf.take(a, make) if rng.random() < .4 else make(a)
                for py, px in e["pads"]:
                    cls = DMDSimulation if isinstance(d, DMD) and rng.random() < .5 else SLMSimulation
                    s = kept.get((dk, px, py, cls.__name__, rng.random() < .3),
                                 lambda: cls(d, px, py) if rng.random() < .5 else cls(d, padding_y=py, padding_x=px))
                    s.propagate_to_image(a)
                    o = dict(pin=q(float(s.get_input_power()) / ps ** 2, U), pout=q(float(s.get_output_power()) / ps ** 2, U),
                             pimg=q(float(s.get_image_plane_power()) / ps ** 2, U))
                    k = w / ps ** 2
                    I, O, F = s.input_field, s.output_field, s.image_plane_field * k
                    if i["k"] == "dense":
                        o.update(inp=field(I, U), out=field(O, U), img=field(F, U), ainp=amps(s.input_intensity, U),
                                 aout=amps(s.output_intensity, U), aimg=amps(s.image_plane_intensity * k * k, U))
                    elif i["k"] == "sparse":
                        nz = lambda a: [[int(r), int(c)] + qc(a[r, c], U) for r, c in zip(*np.nonzero(a))][:40]
                        o.update(shapes=[shape(I), shape(O), shape(F)], inz=nz(I), onz=nz(O), pts=[])
                        if list(F.shape) == [ny + 2 * py, nx + 2 * px]:
                            A = s.image_plane_intensity
                            NY, NX = F.shape
                            pts = [(0, 0), (NY // 2, NX // 2), (NY - 1, NX - 1), (0, NX - 1), (NY - 1, 0)] + \
                                  [(rng.randrange(NY), rng.randrange(NX)) for _ in range(30)]
                            o["pts"] = [[r, c] + qc(F[r, c], U) + [q(np.sqrt(A[r, c]) * k, U)] for r, c in pts]
                    e["res"].append(o)
            except Exception as ex:
                e["exc"] = exc(ex)
            evs.append(e)
        res.append(dict(id="C11/%d/%d" % (job["prec"], n + job.get("base", 0)), events=evs))
    return res
