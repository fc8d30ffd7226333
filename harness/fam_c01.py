import numpy as np, random
import pySLM2
from q import *

PITCH = [1.0, 0.5, 2.0, 10.8e-6, 7.56e-6, 3.0]
OPT = [(1.0, 1.0), (369e-9, 25e-3), (2.0, 0.5), (532e-9, 200e-3), (0.25, 3.0), (1e-6, 0.1)]


def samples(rng, ny, nx, full):
    if ny * nx <= full:
        return [(i, j) for i in range(ny) for j in range(nx)]
    pts = [(0, 0), (0, nx - 1), (ny - 1, 0), (ny - 1, nx - 1), (ny // 2, nx // 2)]
    return pts + [(rng.randrange(ny), rng.randrange(nx)) for _ in range(30)]


def run(job):
    rng = random.Random(job["seed"] * 7919 + job["prec"])
    sc = 1000 if job["prec"] == 32 else 100000
    res = []
    hists = job["hists"]
    if job.get("models"):
        for name in ("DLP9500", "DLP7000", "DLP9000", "PLUTO_2"):
            pads = [(0, 0), (rng.randrange(1, 700), rng.randrange(1, 700)), (rng.randrange(1, 40), 0)]
            h = [dict(op="device", model=name, k=rng.randrange(6))]
            for a, b in pads:
                h.append(dict(op="sim", of=1, px=a, py=b))
            h += [dict(op="read", obj=1, scribble=True), dict(op="read", obj=2, scribble=True), dict(op="read", obj=3, scribble=False),
                  dict(op="read", obj=1, scribble=False), dict(op="read", obj=4, scribble=False), dict(op="read", obj=2, scribble=False)]
            hists = hists + [h]
    for n, h in enumerate(hists):
        objs, evs = [], []
        for e in h:
            e = dict(e)
            e["exc"] = ""
            try:
                if e["op"] == "device":
                    w, f = OPT[e["k"]]
                    if e["model"] == "generic":
                        ps = PITCH[(e["k"] * 5 + len(objs)) % 6]
                        if (len(objs) + n) % 2:
                            d = pySLM2.DMD(w, f, 4, 0.3, e["Nx"], e["Ny"], ps)
                        else:
                            d = pySLM2.LCOS_SLM(w, f, e["Nx"], e["Ny"], ps)
                    else:
                        cls = getattr(pySLM2, e["model"])
                        d = cls(w, f) if e["model"] == "PLUTO_2" else cls(w, f, 4, 0.3)
                        ps = d.pixel_size
                        e["Nx"], e["Ny"], e["pitch"] = int(d.Nx), int(d.Ny), q(d.pixel_size, 1e12)
                    objs.append((d, ps, w * f, d, w, f))
                elif e["op"] == "sim":
                    d, ps, wf, _, w, f = objs[e["of"] - 1]
                    cls = pySLM2.DMDSimulation if isinstance(d, pySLM2.DMD) and rng.random() < .7 else pySLM2.SLMSimulation
                    objs.append((cls(d, padding_x=e["px"], padding_y=e["py"]), ps, wf, d, w, f))
                else:
                    o, ps, wf, d, w, f = objs[e["obj"] - 1]
                    sim = o is not d
                    names = [("fourier_plane_padded_grid", "fourier"), ("image_plane_padded_grid", "image")] if sim else \
                            [("fourier_plane_grid", "fourier"), ("image_plane_grid", "image")]
                    e["size"] = [int(o.Ny), int(o.Nx)]
                    NX, NY = (o.Nx, o.Ny)
                    gs = []
                    for nm, plane in names:
                        gx, gy = getattr(o, nm)
                        ok = np.ndim(gx) == 2 and np.shape(gx) == np.shape(gy)
                        ux = ps if plane == "fourier" else wf / (NX * ps)
                        uy = ps if plane == "fourier" else wf / (NY * ps)
                        pts = [[i, j, q(gx[i, j] / ux, sc), q(gy[i, j] / uy, sc)]
                               for i, j in samples(rng, *np.shape(gx), 150)] if ok else []
                        gs.append(dict(which=nm, plane=plane, sc=sc, shx=shape(gx), shy=shape(gy), pts=pts))
                        if e["scribble"]:
                            gx *= -3.0
                            gy += 1.0
                    e["grids"] = gs
                    e["ones"] = [q(o.scaling_factor / wf, 1e6)]
                    if sim:
                        e["ones"] += [q(o.fourier_plane_pixel_area / ps ** 2, 1e6),
                                      q(o.image_plane_pixel_area * NX * NY * ps ** 2 / wf ** 2, 1e6)]
                    else:
                        e["ones"] += [q(o.pixel_size / ps, 1e6), q(o.wavelength / w, 1e6), q(o.focal_length / f, 1e6)]
            except Exception as ex:
                e["exc"] = exc(ex)
                e.setdefault("Nx", 0), e.setdefault("Ny", 0), e.setdefault("pitch", 0)
                if e["op"] != "read":
                    evs.append(e)
                    break
            evs.append(e)
        res.append(dict(id="C01/%d/%d" % (job["prec"], n), events=evs))
    return res
