"""Replays histories of Device on real devices and simulations (C06, C07, C12)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import DMD, LCOS_SLM, SLMSimulation, DMDSimulation
from q import *

OPT = [(1.0, 1.0, 1.0), (369e-9, 25e-3, 10e-6), (2.0, 0.5, 0.5)]


def mp(q, ny, nx):
    r, c = np.mgrid[0:ny, 0:nx]
    return (q["a"] + q["b"] * r + q["c"] * c) % q["m"]


class Sup:
    """Builds argument values and checks later that they were not modified."""
    def __init__(self, rng, buf=None):
        self.rng, self.kept, self.buf = rng, [], buf
        if buf:
            buf.fresh()

    def arr(self, a, scalar, allow_tensor=True):
        k = self.rng.randrange(4)
        if scalar and k < 2:
            return float(a.flat[0])
        if k == 3 and allow_tensor:
            return tf.constant(a, dtype=pySLM2.BACKEND.dtype_complex if np.iscomplexobj(a) else pySLM2.BACKEND.dtype)
        if k == 2 and not np.iscomplexobj(a):
            a = a.astype(np.float32)
        make = lambda v: layout(np.array(v), self.rng)
        a = self.buf.take(np.asarray(a), make) if self.buf and self.rng.random() < .5 else make(a)
        self.kept.append((a, a.copy()))
        return a

    def dirty(self):
        return any(not np.array_equal(a, b) for a, b in self.kept)


def grating_args(e, ny, nx, sup):
    m = e["method"]
    sc = lambda q: q["b"] == 0 and q["c"] == 0
    out = {}
    if "amp" in e:
        a = mp(e["amp"], ny, nx)
        out["amp"] = sup.arr(np.sin(2 * np.pi * a / 240) if m == "steep" else a / 16.0, sc(e["amp"]))
    for k, nm in (("pin", "phase_in"), ("pout", "phase_out")):
        if k in e:
            out[nm] = sup.arr(2 * np.pi * mp(e[k], ny, nx) / 240, sc(e[k]))
    return out


def field(a, scale):
    return [[qc(v, scale) for v in row] for row in np.asarray(a)]


def amps(a, scale):
    return [[q(np.sqrt(v) if v >= 0 else np.nan, scale) for v in row] for row in np.asarray(a)]


def state(o):
    if isinstance(o, DMD):
        s = o.dmd_state
        if s.dtype == bool:
            return (s.astype(int) * 16384).tolist()
        return [[q(v, 16384) for v in row] for row in s]
    s = o.slm_state
    return [[q(np.real(v) * 240 / (2 * np.pi)) if abs(np.imag(v)) < 1e-9 else BIG for v in row] for row in s]


def reject(d, what, sup):
    ny, nx = d.Ny, d.Nx
    try:
        if what == "grating_method": d.set_dmd_grating_state(1, 0, 0, method="nonsense")
        elif what == "patch_method": d.circular_patch(1, 1, 1, 0, 0, 3, method="Ideal")
        elif what == "calc_method": d.calculate_dmd_state(np.ones((ny, nx)), np.ones((ny, nx)), method="")
        elif what == "ifta_grating": d.set_dmd_grating_state(1, 0, 0, method="ifta")
        elif what == "ifta_patch": d.circular_patch(0, 0, 1, 0, 0, 2, method="ifta", signal_window=1.0)
        elif what == "ifta_calc": d.calculate_dmd_state(np.ones((ny, nx)), np.ones((ny, nx)), method="ifta")
        elif what == "missing_target": d.calculate_dmd_state(np.ones((ny, nx)))
        elif what == "missing_amp": d.circular_patch(0, 0)
        return ""
    except Exception as e:
        return exc(e)


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 1000003 + n)
        devs, sims, evs, opts, buf = [], [], [], [], Buffers()
        tail = []
        nd = sum(e["op"] == "newdev" for e in h)
        ns = sum(e["op"] == "newsim" for e in h)
        kinds = [e["q"]["kind"] for e in h if e["op"] == "newdev"]
        tail = [dict(op="pack", d=i + 1) for i in range(nd) if kinds[i] == "dmd"] + \
               [dict(op="read", k=i + 1, scribble=False) for i in range(ns)]
        for e in h + tail:
            e = dict(e, exc="", dirty=False)
            sup = Sup(rng, buf)
            try:
                op = e["op"]
                if op == "newdev":
                    g = e["q"]
                    w, f, ps = OPT[rng.randrange(3)]
                    if g["kind"] == "dmd":
                        p = g["M"] / np.hypot(g["ga"], g["gb"])
                        d = DMD(w, f, float(p), float(np.arctan2(g["gb"], g["ga"])), g["Nx"], g["Ny"], ps, negative_order=g["neg"])
                        o = d.first_order_origin
                        e["origin"] = [q(float(o[0]) * ps / (w * f) * g["M"], 1000), q(float(o[1]) * ps / (w * f) * g["M"], 1000)]
                    else:
                        d = LCOS_SLM(w, f, g["Nx"], g["Ny"], ps)
                        e["origin"] = [0, 0]
                    devs.append(d)
                    opts.append((w, f, ps, g))
                elif op == "newsim":
                    cls = DMDSimulation if e["cls"] == "dmd" else SLMSimulation
                    sims.append((cls(devs[e["d"] - 1], padding_x=e["px"], padding_y=e["py"]), e["d"] - 1))
                elif op == "badsim":
                    d = devs[e["d"] - 1]
                    lc = LCOS_SLM(1.0, 1.0, 2, 2, 1.0)
                    w = e["what"]
                    cls = DMDSimulation if isinstance(d, DMD) and rng.random() < .5 else SLMSimulation
                    e["rejected"] = ""
                    try:
                        [lambda: cls(d, padding_x=1.0), lambda: cls(d, padding_y=2.5), lambda: cls(d, padding_x="1"),
                         lambda: cls(d, padding_y=None), lambda: SLMSimulation(None), lambda: SLMSimulation(np.ones((2, 2))),
                         lambda: DMDSimulation(lc), lambda: DMDSimulation("dmd", 1, 1),
                         lambda: cls(d, 1, np.float64(2)), lambda: cls(d, [1], 1)][w]()
                    except Exception as ex:
                        e["rejected"] = exc(ex)
                elif op in ("prop", "clear", "block", "read"):
                    s, di = sims[e["k"] - 1]
                    w, f, ps, g = opts[di]
                    ny, nx = g["Ny"], g["Nx"]
                    if op == "prop":
                        a = (mp(e["re"], ny, nx) - e["off"]) + 1j * (mp(e["im"], ny, nx) - e["off"])
                        a = sup.arr(a, False)
                        s.propagate_to_image(a)
                        e["dirty"] = sup.dirty()
                        if isinstance(a, np.ndarray) and rng.random() < .5:
                            a[...] = 9    # the caller reuses its array afterwards
                            sup.kept = []
                    elif op == "clear":
                        s.clear()
                    elif op == "block":
                        e["rejected"] = ""
                        pw2 = lambda v: v & (v - 1) == 0
                        rt = [int(round(v ** .5)) for v in e["cut"]]
                        NX, NY = nx + 2 * s.padding_x, ny + 2 * s.padding_y
                        # everything is a short binary fraction: comparisons are exact
                        e["sharp"] = bool(opts[di][:3] in (OPT[0], OPT[2]) and rt[0] ** 2 == e["cut"][0] and rt[1] ** 2 == e["cut"][1]
                                          and pw2(rt[1]) and pw2(NX) and pw2(NY) and rt[0] > 0)
                        try:
                            if e["dflt"]:
                                s.block_zeroth_order()
                            else:
                                s.block_zeroth_order(float(np.sqrt(e["cut"][0] / e["cut"][1])) * w * f / ps)
                        except Exception as ex:
                            e["rejected"] = exc(ex)
                    else:
                        arrs = [s.input_field, s.output_field, s.image_plane_field,
                                s.input_intensity, s.output_intensity, s.image_plane_intensity]
                        e["none"] = sum(a is None for a in arrs)
                        e["powers"] = []
                        for fn, u in ((s.get_input_power, 1), (s.get_output_power, 1), (s.get_image_plane_power, 1)):
                            try:
                                v = fn()
                                if v is not None:
                                    e["powers"].append(q(float(v) / ps ** 2, 256))
                            except Exception:
                                if e["none"] == 0:
                                    raise
                        if e["none"] == 0:
                            k = w * f / ps ** 2
                            e["inp"], e["out"], e["img"] = field(arrs[0], 128), field(arrs[1], 128), field(arrs[2] * k, 128)
                            e["ainp"], e["aout"], e["aimg"] = amps(arrs[3], 128), amps(arrs[4], 128), amps(arrs[5] * k * k, 128)
                        if e["scribble"]:
                            for a in arrs:
                                if a is not None:
                                    a[...] = 5
                else:
                    d = devs[e["d"] - 1]
                    w, f, ps, g = opts[e["d"] - 1]
                    ny, nx = g["Ny"], g["Nx"]
                    kw = {}
                    if e.get("method") == "steep":
                        kw = dict(method="random", r=1000.0)
                    elif "method" in e:
                        kw = dict(method=e["method"])
                    if op == "on": d.set_dmd_state_on()
                    elif op == "off": d.set_dmd_state_off()
                    elif op == "reset": d.reset_slm_state()
                    elif op == "grating":
                        a = grating_args(e, ny, nx, sup)
                        if rng.random() < .5:
                            d.set_dmd_grating_state(a["amp"], a["phase_in"], a["phase_out"], **kw)
                        else:
                            d.set_dmd_grating_state(**a, **kw)
                    elif op == "patch":
                        a = grating_args(e, ny, nx, sup)
                        num = lambda v: v // 2 if v % 2 == 0 and rng.random() < .5 else v / 2
                        d.circular_patch(num(e["i2"]), num(e["j2"]), d=num(e["d2"]), **a, **kw)
                    elif op == "calc":
                        t = np.zeros((ny, nx), dtype=complex)
                        t[e["R"], e["C"]] = 1.0
                        i = np.exp(2j * np.pi * mp(e["pin"], ny, nx) / 240)
                        eta = d.calculate_dmd_state(sup.arr(i, False), sup.arr(t, False), **kw)
                        e["eta"] = q(float(eta) * w * f / ps ** 2 / (nx * ny), 100000)
                    elif op == "assign":
                        a = mp(e["map"], ny, nx)
                        if e["form"] == "bool": d.dmd_state = layout((a % 2).astype(bool), rng)
                        elif e["form"] == "int": d.dmd_state = layout((2 * (a % 3)).astype(rng.choice(["uint8", "int32", "int64"])), rng)
                        elif e["form"] == "gray": d.dmd_state = layout(a / 16.0, rng)
                        else: d.slm_state = layout(2 * np.pi * a / 240 + (0j if rng.random() < .5 else 0.0), rng)
                    elif op == "poke":
                        if g["kind"] == "lcos": d.slm_state[e["r"], e["c"]] = 2 * np.pi * e["v"] / 240
                        else: d.dmd_state[e["r"], e["c"]] = e["v"]
                    elif op == "reject":
                        e["rejected"] = reject(d, e["what"], sup)
                    elif op == "pack":
                        e["packed"], e["perr"] = [], ""
                        try:
                            b = d.pack_dmd_state()
                            e["packed"] = [int(x) for x in b]
                        except Exception as ex:
                            e["perr"] = exc(ex)
                e.setdefault("sharp", False)
                e["dirty"] = bool(e["dirty"] or sup.dirty())
            except Exception as ex:
                e["exc"] = exc(ex)
            e["states"] = [state(d) for d in devs]
            e["bins"] = [bool(isinstance(d, DMD) and d.dmd_state.dtype == bool) for d in devs]
            evs.append(e)
            if e["exc"]:
                break
        res.append(dict(id="%s/%d/%d" % (job["prop"], job["prec"], n + job.get("base", 0)), events=evs))
    return res
