"""LCOS hologram calculations (C13)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import LCOS_SLM, SLMSimulation
from pySLM2.window import RectangularWindowRectangle
from q import *
from fam_device import mp, OPT, Sup
from fam_ifta import window

SC = [1.0, 1e-3, 40.0]
UU = 1 << 20


def seed(n):
    tf.random.set_seed(n)
    np.random.seed(n)
    random.seed(n)


def phasors(d):
    return [[qc(v, UU) for v in row] for row in np.exp(1j * np.asarray(d.slm_state))]


def phase_only(d):
    return bool(np.max(np.abs(np.abs(np.exp(1j * np.asarray(d.slm_state))) - 1)) < 1e-4)


def beam(qd, ny, nx):
    E = (mp(qd["re"], ny, nx) - qd["off"]) + 1j * (mp(qd["im"], ny, nx) - qd["off"])
    if qd["hole"]:
        r, c = np.mgrid[0:ny, 0:nx]
        E[(r + 2 * c + qd["hs"]) % qd["hole"] == 0] = 0
    return E


def calc(d, sd, E, A, **kw):
    seed(sd)
    d.calculate_hologram(E, A, **kw)
    return np.array(d.slm_state)


def kwargs(e, ny, nx, S):
    kw = {}
    if not (e["method"] == "gs" and e["dflt"]):
        kw["method"] = e["method"]
    if e["method"] == "mraf":
        w = window(e["win"], ny, nx) if e["win"]["k"] == "box" else mp(e["win"]["map"], ny, nx) / 4.0
        kw["signal_window"] = S.arr(w, False)
        if not (e["m5"] == 2 and e["dflt"]):
            kw["mixing_factor"] = e["m5"] / 5
    return kw


def do(e, d, ny, nx, rng, S, opt):
    w, f, ps = opt
    op = e["op"]
    sd = rng.randrange(1, 10 ** 6)
    sc = SC[rng.randrange(3)]
    if op in ("step", "descend"):
        E = beam(e["E"], ny, nx)
        A = mp(e["A"], ny, nx) / 16.0
    if op == "step":
        kw = kwargs(e, ny, nx, S)
        Ea, Aa = S.arr(E * sc, False), S.arr(A * sc, False)
        a = calc(d, sd, Ea, Aa, N=0, **kw)
        e["repro"] = bool(np.array_equal(a, calc(d, sd, Ea, Aa, N=0, **kw)))
        calc(d, sd, Ea, Aa, N=e["k"], **kw)
        e["u0"] = phasors(d)
        calc(d, sd, Ea, Aa, N=e["k"] + 1, **kw)
        e["u1"] = phasors(d)
        e["dirty"] = S.dirty()
    elif op == "descend":
        s = SLMSimulation(d)
        e["amps"], st = [], []
        for N in [0] + e["Ns"]:
            st.append(calc(d, sd, E * sc, A * sc, N=N))
            s.propagate_to_image(E)
            amp = np.abs(s.image_plane_field) * (w * f / ps ** 2 / (nx * ny))
            e["amps"].append([[q(v, 4096) for v in row] for row in amp])
        e["repro"] = bool(np.array_equal(st[0], st[1]))
        e["amps"] = e["amps"][1:]
    elif op == "spot":
        E = mp(e["mod"], ny, nx) * np.exp(2j * np.pi * mp(e["ph"], ny, nx) / 240)
        dX, dY = w * f / (nx * ps), w * f / (ny * ps)
        pixel = lambda: RectangularWindowRectangle((e["C"] - nx // 2) * dX, (ny // 2 - e["R"]) * dY, dX, dY)
        if e["form"] == "array":
            t = np.zeros((ny, nx))
            t[e["R"], e["C"]] = sc
            t = S.arr(t, False)
        else:
            t = pixel() * sc
        kw = dict(N=e["N"])
        if e["method"] != "gs":
            kw.update(method="mraf", mixing_factor=1.0 if e["method"] == "tight" else e["m5"] / 5)
            wn = np.ones((ny, nx))
            if e["method"] == "tight":
                wn = np.zeros((ny, nx))
                wn[e["R"], e["C"]] = 1
            kw["signal_window"] = pixel() if e["method"] == "tight" and rng.random() < .5 else S.arr(wn, False)
        d.calculate_hologram(S.arr(E, False), t, **kw)
        s = SLMSimulation(d)
        s.propagate_to_image(E)
        e["amp"] = q(abs(s.image_plane_field[e["R"], e["C"]]) * w * f / ps ** 2, 256)
        e["dirty"] = S.dirty()
    elif op == "reset":
        d.reset_slm_state()
        E = np.random.default_rng(sd).normal(size=(ny, nx)) + 1j
        s = SLMSimulation(d)
        s.propagate_to_image(E)
        e["mirror"] = bool(np.max(np.abs(s.output_field - E)) < 1e-5 * np.max(np.abs(E)))
    elif op in ("bad", "nowin"):
        d.calculate_hologram(1.0, np.ones((ny, nx)), N=1)
        before = np.array(d.slm_state)
        try:
            d.calculate_hologram(1.0, np.ones((ny, nx)), method="GS " if op == "bad" else "mraf", N=2)
            e["raised"] = False
        except Exception:
            e["raised"] = True
        e["kept"] = bool(np.array_equal(before, d.slm_state))
    elif op == "rand":
        kw = dict(N=0)
        if e["method"] == "mraf":
            kw.update(method="mraf", signal_window=np.ones((ny, nx)))
        got = []
        for i in range(max(1, 4000 // (nx * ny))):
            d.calculate_hologram(1.0, np.ones((ny, nx)), **kw)
            got.append(np.array(d.slm_state).real)
        p = np.array(got)
        e["range"] = bool(np.all(p >= 0) and np.all(p <= 2 * np.pi * (1 + 1e-6)))
        b = np.minimum((p / (2 * np.pi) * 8).astype(int), 7) % 8
        e["n"] = int(p.size)
        e["bins"] = [int(np.sum(b == k)) for k in range(8)]
        # mirrors whose neighbour (right, below, same mirror next time) falls in the same bin: the worst of the three
        same = [np.mean(x == y) if x.size else 0 for x, y in ((b[:, :, 1:], b[:, :, :-1]), (b[:, 1:], b[:, :-1]), (b[1:], b[:-1]))]
        e["joint"] = int(max(same) * p.size)
        e["fresh"] = bool(len(got) < 2 or not np.array_equal(got[0], got[1]))
        if len(got) < 2:
            d.calculate_hologram(1.0, np.ones((ny, nx)), **kw)
            e["fresh"] = bool(not np.array_equal(got[0], np.array(d.slm_state).real))
    elif op == "default":
        nr = np.random.default_rng(sd)
        E, A = nr.normal(size=(ny, nx)) + 1j * nr.normal(size=(ny, nx)), nr.random((ny, nx)) / np.sqrt(nx * ny)
        full = dict(N=200)
        if e["method"] == "mraf":
            full.update(method="mraf", signal_window=(nr.random((ny, nx)) < .6) * 1.0, mixing_factor=0.4)
        part = dict(full)
        if e["which"] in ("N", "both"):
            part.pop("N")
        if e["which"] in ("m", "both"):
            part.pop("mixing_factor", 0)
        if e["which"] == "method" and e["method"] == "gs":
            full["method"] = "gs"
        a, b, c = calc(d, sd, E, A, **part), calc(d, sd, E, A, **full), calc(d, sd, E, A, **full)
        e["repro"] = bool(np.array_equal(b, c))
        e["same"] = bool(np.array_equal(a, b))
        e["sensitive"] = bool(not np.array_equal(b, calc(d, sd, E, A, **dict(full, N=190))))
    s = np.asarray(d.slm_state)
    e["shape"] = shape(s)
    e["real"] = phase_only(d)


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        evs, buf = [h[0]], Buffers()
        ny, nx = h[0]["Ny"], h[0]["Nx"]
        opt = OPT[rng.randrange(3)]
        d = LCOS_SLM(opt[0], opt[1], nx, ny, opt[2])
        for e in h[1:]:
            e = dict(e, exc="")
            try:
                do(e, d, ny, nx, rng, Sup(rng, buf), opt)
            except Exception as ex:
                e["exc"] = exc(ex)
            evs.append(e)
        res.append(dict(id="C13/%d/%d" % (job["prec"], n + job.get("base", 0)), events=evs))
    return res
