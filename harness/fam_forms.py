"""One field in many forms (C02)."""
import random
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import *
from pySLM2.window import RectangularWindowRectangle, RectangularWindowCircular
from q import *
from fam_device import mp
import fam_hologram as fh

MODELS = dict(DLP7000=(lambda: DLP7000(1.0, 1.0, 4, 0.0)), PLUTO_2=(lambda: PLUTO_2(1.0, 1.0)))


class Dev:
    """geometry of one device: pitch and image spacing"""
    def __init__(self, e):
        self.e, self.dev = e, {}
        if e["model"] != "generic":
            d = MODELS[e["model"]]()
            self.nx, self.ny, self.ps, self.w, self.f = d.Nx, d.Ny, d.pixel_size, 1.0, 1.0
            self.proto = type(d)
        else:
            self.nx, self.ny = e["nx"], e["ny"]
            self.ps = [1.0, 0.125, 16.0][e["opt"]]
            self.w = [1.0, 2.0 ** -20, 0.5][e["opt"]]
            self.f = float(self.nx * self.ny) * [1, 4, 0.25][e["opt"]]
        self.ux, self.uy = self.w * self.f / (self.nx * self.ps), self.w * self.f / (self.ny * self.ps)

    def units(self, fo):
        return (self.ps / 2, self.ps / 2) if fo else (self.ux, self.uy)

    def dmd(self):
        if self.e["model"] != "generic":
            return MODELS[self.e["model"]]() if self.e["model"] == "DLP7000" else DMD(1.0, 1.0, 4, 0.0, self.nx, self.ny, self.ps)
        return DMD(self.w, self.f, [4, 5, 3.5, 8][self.e["ga"]], [0.0, 0.7, -1.1, 2.0][self.e["ga"]], self.nx, self.ny, self.ps, negative_order=self.e["neg"])

    def lcos(self):
        return MODELS["PLUTO_2"]() if self.e["model"] == "PLUTO_2" else LCOS_SLM(self.w, self.f, self.nx, self.ny, self.ps)

    def same(self, k):
        """one device of each kind kept for all uses"""
        if k not in self.dev:
            self.dev[k] = self.dmd() if k == "dmd" else self.lcos()
        return self.dev[k]

    def slm(self, k):
        return self.dmd() if k % 2 else self.lcos()


def grid(D, fo):
    r, c = np.mgrid[0:D.ny, 0:D.nx]
    return (2 * c - D.nx, D.ny - 2 * r) if fo else (c - D.nx // 2, D.ny // 2 - r)


def values(q, D, fo):
    """the field as a plain array"""
    X, Y = grid(D, fo)
    if q["k"] == "map":
        v = (mp(q["re"], D.ny, D.nx) - q["off"]).astype(float)
        return v + 1j * (mp(q["im"], D.ny, D.nx) - 2) if q["cx"] else v
    if q["k"] == "const":
        return np.full((D.ny, D.nx), q["a"] + 1j * q["b"] if q["cx"] else float(q["a"]))
    if q["k"] == "affine":
        v = q["a"] + q["b"] * X + q["c"] * Y
        return v + 1j * (q["c"] * X - q["b"] * Y + 1) if q["cx"] else v.astype(float)
    if q["k"] == "rect":
        return np.where((2 * abs(X - q["x0"]) < q["wx"]) & (2 * abs(Y - q["y0"]) < q["wy"]), float(q["a"]), 0.0)
    return np.where(2 * ((X - q["x0"]) ** 2 + (Y - q["y0"]) ** 2) < q["r2"], float(q["a"]), 0.0)


def tilt(u, m, k):
    """k times the coordinate in units of u"""
    return Zernike(float(k), 4 * u, 1, m, normalize=False, extrapolate=True) * 4


def profile(q, D, fo, live):
    """the field as a profile, and the action that gives a live parameter its value"""
    ux, uy = D.units(fo)
    if q["k"] == "const":
        v = complex(q["a"], q["b"]) if q["cx"] else float(q["a"])
        if live:
            p = ConstantProfile(v + 3)
            return p, lambda: setattr(p, "c", v)
        return ConstantProfile(v), None
    if q["k"] == "affine":
        c0 = ConstantProfile(float(q["a"]) + (5 if live else 0))
        p = c0 + tilt(ux, 1, q["b"]) + tilt(uy, -1, q["c"])
        if q["cx"]:
            p = p + (tilt(ux, 1, q["c"]) + tilt(uy, -1, -q["b"]) + 1) * 1j
        return p, (lambda: setattr(c0, "c", float(q["a"]))) if live else None
    if q["k"] == "rect":
        w = RectangularWindowRectangle((q["x0"] + (2 if live else 0)) * ux, q["y0"] * uy, q["wx"] * ux, q["wy"] * uy)
        act = lambda: setattr(w, "x0", q["x0"] * ux)
    else:
        w = RectangularWindowCircular(q["x0"] * ux, q["y0"] * uy, np.sqrt((q["r2"] + (8 if live else 0)) / 2) * ux)
        act = lambda: setattr(w, "r", np.sqrt(q["r2"] / 2) * ux)
    return (w * float(q["a"]) if q["a"] != 1 else w), act if live else None


def lay(a, k):
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if k == 3:
        b = np.zeros((2 * a.shape[0], 3 * a.shape[1]), a.dtype)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    if k == 4:
        a = a.copy(); a.flags.writeable = False
    return a


class Sup2:
    """supplies fields in the requested forms, and remembers what must not change"""
    def __init__(self, D, prec=0):
        self.D, self.kept, self.prec = D, [], prec
        D.buf.fresh()

    def carries(self, p):
        return self.prec == 64 and (p["t"] in ("float64", "complex128") or p["f"] == "num" or (p["f"] == "prof" and p["q"]["k"] == "const"))

    def put(self, p, fo, scale=1.0, dev=None):
        q, D = p["q"], self.D
        fine = p["fine"] * 2.0 ** -30 if self.carries(p) else 0.0
        if p["f"] == "prof":
            o, act = profile(q, D, fo, p["live"])
            o = o * scale if scale != 1.0 else o
            o = o + fine if fine else o
            if act:
                # sampled before, then changed
                (dev or D.slm(0)).profile_to_tensor(o, at_fourier_plane=fo, complex=True)
                act()
            x = np.array([0.3, -1.2]) * D.units(fo)[0]
            self.kept.append((lambda: np.array(o(x, 2 * x)), np.array(o(x, 2 * x))))
            return o
        if p["f"] == "num":
            v = (complex(q["a"], q["b"]) if q["cx"] else (q["a"] if p["lay"] % 2 else float(q["a"])))
            v = v * scale if scale != 1.0 else v
            return v + fine if fine else v
        a = values(q, D, fo) + fine
        if scale != 1.0:
            a = a * scale
            t = p["t"] if p["t"][:5] in ("float", "compl") else "float64"
        else:
            t = p["t"]
        if "complex" not in t:
            a = a.real
        a = a.astype(t)
        if p["f"] == "ten":
            o = tf.constant(a)
            self.kept.append((lambda: o.numpy(), a.copy()))
            return o
        a = D.buf.take(a, lambda v: lay(v, p["lay"])) if D.rng.random() < .4 else lay(a, p["lay"])
        self.kept.append((lambda: a, a.copy()))
        return a

    def ref(self, p, fo, scale=1.0, cx=True):
        a = values(p["q"], self.D, fo) * scale
        return a.astype(complex) if cx else np.array(a, dtype=float)

    def dirty(self):
        return any(not np.array_equal(f(), b) for f, b in self.kept)


def points(D, rng):
    if D.nx * D.ny <= 100:
        return [(r, c) for r in range(D.ny) for c in range(D.nx)]
    return [(r, c) for r in (0, 1, D.ny // 2, D.ny - 1) for c in (0, D.nx // 2, D.nx - 1)] + [(rng.randrange(D.ny), rng.randrange(D.nx)) for _ in range(20)]


def fine(v):
    v = complex(v)
    return q((v.real - round(v.real)) * 2 ** 30, 1)


def flat(a, s):
    return [v for x in np.asarray(a).reshape(-1) for v in qc(x, s)]


def do(e, D, rng):
    S, op = Sup2(D, D.prec if e["op"] == "convert" else 0), e["op"]
    kind = "lcos" if op == "holo" else "dmd"
    e["repro"], e["eta"], e["obs"], e["ref"], e["dirty"] = True, 1000000, [], [], False
    if op == "convert":
        d = D.same("lcos" if rng.randrange(2) else "dmd")
        a = S.put(e["p"], e["fo"], dev=d)
        t = d.profile_to_tensor(a, **({} if e["fo"] and not e["cx"] and rng.random() < .5 else dict(at_fourier_plane=e["fo"], complex=e["cx"])))
        e["dt"] = tf.as_dtype(t.dtype).name
        t = np.asarray(t)
        e["shape"] = shape(t)
        e["pts"] = [[r, c] + qc(t[r, c], 1024) + [fine(t[r, c]) if S.carries(e["p"]) else 0] for r, c in points(D, rng)] if t.shape == (D.ny, D.nx) else []
    elif op == "sim":
        dev = D.same(e["dev"])
        def one(a, d=None):
            d = d or (D.dmd() if e["dev"] == "dmd" else D.lcos())
            d.set_dmd_state_on() if e["dev"] == "dmd" else d.reset_slm_state()
            sim = SLMSimulation(d, e["px"], e["py"])
            sim.propagate_to_image(a)
            return sim
        a = S.put(e["p"], True, dev=dev)
        sim = one(a, dev)
        f = np.asarray(sim.input_field)
        py, px = e["py"], e["px"]
        e["frame"] = bool(f.shape == (D.ny + 2 * py, D.nx + 2 * px))
        m = np.ones(f.shape, bool)
        m[py:py + D.ny, px:px + D.nx] = False
        e["frame"] = e["frame"] and bool(np.all(f[m] == 0))
        f = f[py:py + D.ny, px:px + D.nx]
        e["pts"] = [[r, c] + qc(f[r, c], 1024) for r, c in points(D, rng)]
        if D.nx * D.ny <= 100:
            k = 1024 / (np.sqrt(D.nx * D.ny) * D.ps ** 2 / (D.w * D.f))
            e["obs"] = flat(sim.image_plane_field, k)
            e["ref"] = flat(one(S.ref(e["p"], True)).image_plane_field, k)
    elif op == "grate":
        kw = dict(amp=S.put(e["p"], True, 1 / 16, dev=D.same(kind)), phase_in=S.put(e["pin"], True, 0.25, dev=D.same(kind)), phase_out=S.put(e["pout"], True, 0.25, dev=D.same(kind)), method="ideal")
        kr = dict(amp=S.ref(e["p"], True, 1 / 16, False), phase_in=S.ref(e["pin"], True, 0.25, False), phase_out=S.ref(e["pout"], True, 0.25, False), method="ideal")
        out = []
        for k in (kw, kr):
            d = D.same("dmd") if k is kw else D.dmd()
            d.set_dmd_state_off()
            if e["via"] == "patch":
                d.circular_patch(D.ny / 2, D.nx / 2, k["amp"], k["phase_in"], k["phase_out"], 0.7 * max(D.nx, D.ny), method="ideal")
            else:
                d.set_dmd_grating_state(**k)
            out.append([q(v, 4096) for v in np.asarray(d.dmd_state, dtype=float).reshape(-1)])
        e["obs"], e["ref"] = out
    elif op == "calc":
        kw = dict(input_profile=S.put(e["E"], True, dev=D.same(kind)), target_profile=S.put(e["T"], False, dev=D.same(kind)))
        kr = dict(input_profile=S.ref(e["E"], True), target_profile=S.ref(e["T"], False))
        if e["usew"]:
            kw["window"], kr["window"] = S.put(e["W"], True, 1 / 16, dev=D.same(kind)), S.ref(e["W"], True, 1 / 16)
        if e["method"] == "ifta":
            kw["signal_window"], kr["signal_window"] = S.put(e["S"], False, dev=D.same(kind)), S.ref(e["S"], False)
        # nothing to show: the target, or what the window leaves of its spectrum, is zero (see DESIGN.md)
        spec = np.fft.fft2(np.fft.ifftshift(kr["target_profile"])) * np.fft.ifftshift(np.abs(kr["window"]) if e["usew"] else np.ones((D.ny, D.nx)))
        if np.abs(spec).max() < 1e-9:
            e["repro"] = False
            return
        out, eta = [], []
        for k in (kw, kr):
            d = D.same("dmd") if k is kw else D.dmd()
            d.set_dmd_state_off()
            eta.append(float(d.calculate_dmd_state(method=e["method"], **(dict(N=2) if e["method"] == "ifta" else {}), **k)))
            out.append(np.asarray(d.dmd_state, dtype=float).reshape(-1))
        e["obs"], e["ref"] = [[q(v, 4096) for v in o] for o in out]
        e["eta"] = 1000000 if eta[0] == eta[1] else q(eta[0] / eta[1] if eta[1] else BIG, 1e6)
    elif op == "ifta":
        kw = dict(input_profile=S.put(e["E"], True, dev=D.same(kind)), signal_window=S.put(e["S"], False, dev=D.same(kind)), amp=S.put(e["p"], True, 1 / 16, dev=D.same(kind)))
        kr = dict(input_profile=S.ref(e["E"], True), signal_window=S.ref(e["S"], False), amp=S.ref(e["p"], True, 1 / 16, False))
        out = []
        for k in (kw, kr):
            d = D.same("dmd") if k is kw else D.dmd()
            d.set_dmd_state_off()
            if e["via"] == "patch":
                d.circular_patch(D.ny / 2, D.nx / 2, k.pop("amp"), 0.3, 0.0, 0.7 * max(D.nx, D.ny), method="ifta", N=2, **k)
            else:
                d.set_dmd_grating_state(method="ifta", N=2, **k)
            out.append([q(v, 4096) for v in np.asarray(d.dmd_state, dtype=float).reshape(-1)])
        e["obs"], e["ref"] = out
    elif op == "holo":
        def one(E, T, W, d=None):
            d = d or D.lcos()
            kw = dict(signal_window=W) if e["method"] == "mraf" else {}
            return fh.calc(d, 5, E, T, method=e["method"], N=2, **kw)
        args = [S.put(e["E"], True, dev=D.same(kind)), S.put(e["T"], False, 1 / 16, dev=D.same(kind)), S.put(e["S"], False, dev=D.same(kind))]
        ref = [S.ref(e["E"], True), S.ref(e["T"], False, 1 / 16, False), S.ref(e["S"], False)]
        a, b, b2 = one(*args, d=D.same("lcos")), one(*ref), one(*ref)
        e["repro"] = bool(np.array_equal(b, b2))
        # phases are compared where there is any light to speak of
        ok = np.isfinite(b) & np.isfinite(a)
        e["obs"], e["ref"] = flat(np.exp(1j * a), 4096), flat(np.exp(1j * b), 4096)
    e["dirty"] = S.dirty()


def run(job):
    res = []
    for n, h in enumerate(job["hists"]):
        rng = random.Random(job["seed"] * 7919 + job["base"] + n)
        evs, D = [], None
        for e in h:
            e = dict(e, exc="")
            if e["op"] == "new":
                D = Dev(e)
                e["nx"], e["ny"], e["prec"] = D.nx, D.ny, job["prec"]
                D.prec, D.rng, D.buf = job["prec"], rng, Buffers()
            else:
                try:
                    do(e, D, rng)
                except Exception as x:
                    e["exc"], e["msg"] = exc(x), str(x)[-200:]
            evs.append(e)
        res.append(dict(id="%s/%d/%d" % (job["prop"], job["prec"], job["base"] + n), events=evs))
    return res
