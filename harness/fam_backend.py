"""Backend histories (C14): a whole process on the global backend, and fresh instances."""
import sys
import numpy as np, tensorflow as tf
import pySLM2
from pySLM2 import *
from pySLM2.window import RectangularWindowRectangle, RectangularWindowCircular
from pySLM2.profile import FunctionProfile
from q import *
import fam_hologram as fh

EPS = 2.0 ** -40
BAD = [tf.float16, tf.int32, tf.complex64, None, "abc", tf.bfloat16, 3.5]
VAL = {32: tf.float32, 64: tf.float64}
CNT = None      # calls of NumPy transforms, filled by drv


def parts(v, s):
    out = []
    v = complex(v)
    for x in (v.real, v.imag):
        x = x / s
        if not np.isfinite(x) or abs(x) > 2 ** 17:
            out += [BIG, BIG, BIG]
            continue
        hi = int(round(x))
        out += [q(x * 4096), hi, q((x - hi) * 2.0 ** 40)]
    return out


def name(v):
    return str(getattr(v, "dtype", type(v).__name__)).replace("<dtype: '", "").replace("'>", "")


class Num:
    def __init__(self, e):
        self.s = 2.0 ** e["s"]
        self.v = (e["a"] + e["b"] * EPS)


def pts(e):
    """centre and the point given to a profile, in different argument forms"""
    return (lambda x: x, lambda x: np.array([x]), lambda x: np.array([[x, x]]), lambda x: tf.constant(x, pySLM2.BACKEND.dtype))[e["v"] % 4]


def first(v):
    return np.asarray(v).reshape(-1)[0]


def inp(e):
    r, c = np.mgrid[0:e["ny"], 0:e["nx"]]
    re = ((e["a"] * (r + 1) + 3 * c) % 7) - 3 + (e["b"] + 5 * r - 3 * c) * EPS
    im = ((2 * r + e["a"] * c) % 5) - 2 + (2 * e["b"] - r + 7 * c) * EPS
    return re + 1j * im


def TILT(R, m=1):
    return Zernike(R if R == 2.0 else 2.0, R, 1, m, normalize=False, extrapolate=True)


def calc(e):
    k, s = e["kind"], 2.0 ** e["s"]
    v = e["a"] + e["b"] * EPS
    P = pts(e)
    if k == "const":
        r = ConstantProfile(v * s)(P(0.3), P(0.7))
    elif k == "cconst":
        r = ConstantProfile((v + 1j * (e["b"] % 5 - e["a"] * EPS)) * s)(P(0.3), P(0.7))
    elif k == "peak":
        x0, y0 = 0.75, -1.5
        p = [lambda: HermiteGaussian(x0, y0, v * s, 2.0), lambda: LaguerreGaussian(x0, y0, v * s, 2.0, l=0, p=0), lambda: SuperGaussian(x0, y0, v * s, 2.0, 2)][e["v"] % 3]()
        r = p(P(x0), P(y0))
    elif k == "zconst":
        r = Zernike(v * s, 2.0, 0, 0)(P(0.5), P(0.25))
    elif k == "tilt":
        # m x / R with R = 2, at x = 2 (a + b eps): outside unless extrapolated
        r = Zernike(float(e["m"]), 2.0, 1, 1, normalize=False, extrapolate=True)(P(2 * v), P(0.5))
        s = 1.0
    elif k == "param":
        x = [lambda: HermiteGaussian(0, 0, v * s, 2.0).a, lambda: SuperGaussian(v * s, 0, 1, 2.0, 2).x0, lambda: RectangularWindowRectangle(v * s, 0, 1, 1).x0,
             lambda: HermiteGaussian(0, v * s, 1, 2.0).y0, lambda: RectangularWindowCircular(0, v * s, 1).y0][e["v"] % 5]()
        return [x], [parts(np.asarray(x), s)]
    elif k == "affine":
        c3 = 3 + (e["b"] // 2) * EPS
        p = ConstantProfile(v * s) * c3 + ConstantProfile((e["a"] + 7 * EPS) * s) * 2 if e["v"] % 2 else ConstantProfile(c3) * (v * s) + 2 * ConstantProfile((e["a"] + 7 * EPS) * s)
        r = p(P(0.3), P(0.7))
    elif k == "shift":
        r = Zernike(2.0, 2.0, 1, 1, normalize=False, extrapolate=True).shift(3 + 11 * EPS, 0.0)(P(v), P(0.5)); s = 1.0
    elif k == "rotate":
        r = TILT(2.0).rotate(np.pi / 2 + e["b"] * EPS)(P(float(e["a"])), P(3.0)); s = 1.0
    elif k == "stretch":
        m = 1 + e["b"] * EPS
        r = TILT(2.0).rescale_x(m)(P(float(e["a"])), P(3.0)) if e["v"] % 2 else TILT(2.0, -1).rescale_y(m)(P(3.0), P(float(e["a"]))); s = 1.0
    elif k == "radius":
        r = TILT(2.0 * (1 + e["b"] * EPS))(P(float(e["a"])), P(3.0)); s = 1.0
    elif k == "width":
        w = 1.5 * (1 + e["b"] * EPS)
        p, t = [lambda: (HermiteGaussian(0.25, -2.0, e["a"] * s, w), 1.0), lambda: (LaguerreGaussian(0.25, -2.0, e["a"] * s, w, l=1, p=0), np.sqrt(2.0)),
                lambda: (SuperGaussian(0.25, -2.0, e["a"] * s, w, 1), 1.0)][e["v"] % 3]()
        r = p(P(1.75), P(-2.0)); s = s * t * np.exp(-1.0)
    elif k == "edge":
        i = e["v"] // 4
        r = (RectangularWindowCircular(0, 0, 1.0)(P(1 + EPS), P(0.0)) if i == 0 else RectangularWindowCircular(0, 0, 1.0 - EPS)(P(1.0), P(0.0)) if i == 1
             else RectangularWindowRectangle(0, 0, 1.0, 1.0)(P(0.5 - EPS), P(0.0))); s = 1.0
    elif k == "edge2":
        r = RectangularWindowRectangle(0, 0, 1.0 + 2 * EPS, 2.0)(P(0.5), P(0.0)) if e["v"] % 2 else RectangularWindowRectangle(0, 0, 2.0, 1.0 + 2 * EPS)(P(0.0), P(0.5)); s = 1.0
    elif k == "tensor":
        d = SLM(1.0, 1.0, 3, 2, 1.0)
        r = d.profile_to_tensor(np.full((2, 3), v * s) if e["v"] % 2 else v * s)
    elif k == "c0":
        got = zernike_decomposition(np.full((6, 7), v * s), 2.5, 1)[0]
        return [got], [parts(got, s)]
    elif k in ("grid", "igrid"):
        nx, ny = e["nx"], e["ny"]
        sim = None
        if k == "grid":
            d = SLM(1.0, 1.0, nx, ny, s * (1 + e["b"] * EPS)); t = s / 2
            gx, gy = d.fourier_plane_grid if e["v"] % 2 else SLMSimulation(d).fourier_plane_padded_grid
        else:
            d = SLM(s * (1 + e["b"] * EPS), float(nx), nx, ny, 1.0); t = s
            gx, gy = d.image_plane_grid if e["v"] % 2 else SLMSimulation(d).image_plane_padded_grid
        gx, gy = np.asarray(gx), np.asarray(gy)
        return [gx, gy], [parts(z, t) for z in gx[0, :]] + [parts(z, t) for z in gy[:, 0]]
    elif k in ("out", "image", "inten", "power"):
        ny, nx = e["ny"], e["nx"]
        if e["dmd"] == 2:
            d = LCOS_SLM(1.0, 1.0, nx, ny, s)
            rr, cc = np.mgrid[0:ny, 0:nx]
            d.slm_state = np.pi / 2 * ((e["q"][0] + e["q"][1] * rr + e["q"][2] * cc) % 4)
        else:
            d = DMD(1.0, 1.0, 4, 0.0, nx, ny, s)
            d.set_dmd_state_on() if e["dmd"] else d.set_dmd_state_off()
        sim = SLMSimulation(d, e["px"], e["py"])
        sim.propagate_to_image(inp(e))
        if k == "out":
            o = np.asarray(sim.output_field)
            py, px = e["py"], e["px"]
            return [o], [parts(z, 1) for z in o[py:py + ny, px:px + nx].reshape(-1)]
        if k == "image":
            o = np.asarray(sim.image_plane_field); t = s * s
            return [o], [parts(z, t) for z in o.reshape(-1)]
        if k == "inten":
            o = np.asarray(sim.image_plane_intensity); t = s ** 4
            return [o], [parts(z, t) for z in o.reshape(-1)]
        w = [sim.get_input_power(), sim.get_output_power(), sim.get_image_plane_power()]
        return w, [parts(np.asarray(z), s * s) for z in w]
    elif k in ("grating", "calc", "eta"):
        ny, nx = e["ny"], e["nx"]
        z = [e["b"] * EPS if k == "grating" and e["a"] % 5 == i else 0.0 for i in range(5)]
        z[2] += np.pi / 2 if z[2] else 0; z[4] += np.pi / 2 if z[4] else 0
        d = DMD(1.0, 1.0, 4 * (1 + z[1]), z[2], nx, ny, s)
        if k == "grating":
            d.set_dmd_grating_state(amp=0.5 + e["b"] * EPS, phase_in=z[4], phase_out=np.pi / 2 * e["p"] + z[3], method="ideal")
        else:
            t = np.zeros((ny, nx)); t[ny // 2, nx // 2] = 1 + (e["b"] * EPS if k == "eta" else 0)
            E = np.ones((ny, nx))
            if k == "calc":
                E += 1 + 16 * (e["b"] // 16) * EPS; E[0, 0] = 1
            eta = d.calculate_dmd_state(E, t, method="ideal")
            if k == "eta":
                return [eta], [parts(np.asarray(eta), s * s * nx * ny)]
        st = np.asarray(d.dmd_state)
        return [st], [parts(z, 0.25) for z in st.reshape(-1)]
    elif k == "origin":
        z = [e["b"] * EPS if e["p"] % 3 == i else 0.0 for i in range(3)]
        z[1] += np.pi / 2 if z[1] else 0
        d = DMD(s * (1 + z[0]), float(e["m"]), 4 * (1 + z[2]), z[1], 4, 2, 0.25, negative_order=e["neg"])
        o = d.first_order_origin
        return list(o), [parts(np.asarray(z), s) for z in o]
    elif k == "fix":
        ny, nx = e["ny"], e["nx"]
        d = LCOS_SLM(1.0, 1.0, nx, ny, 1.0)
        r, c = np.mgrid[0:ny, 0:nx]
        E = 1.0 + ((r + 2 * c + e["p"]) % 3) + 0.1 * r - 0.3j * ((c + r) % 2)
        a = fh.calc(d, 7 + e["v"], E, 1.0, method="gs", N=0)
        b = fh.calc(d, 7 + e["v"], E, 1.0, method="gs", N=0)
        e["repro"] = bool(np.array_equal(a, b))
        E0, S0 = np.asarray(E), np.asarray(a)
        P = np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(E0 * np.exp(1j * S0))))
        # the target amplitude is |P|, so a step must reproduce the phase
        kw = dict(method="gs", N=3) if e["v"] % 2 else dict(method="mraf", N=2, mixing_factor=1.0, signal_window=1.0)
        b = fh.calc(d, 7 + e["v"], E, np.abs(P), **kw)
        dd = float(np.max(np.abs(np.angle(np.exp(1j * (np.asarray(b) - S0))))))
        e["err40"], e["err12"] = q(dd, 2.0 ** 40), q(dd, 4096)
        x = np.asarray(b).reshape(-1).real.astype(np.float64)
        e["wide"] = bool(np.any(x != x.astype(np.float32).astype(np.float64)))
        return [np.asarray(b)], []
    return [r], [parts(first(r), s)]


FFTS = ("image", "inten", "calc", "eta", "fix")


def make(k):
    return (lambda: HermiteGaussian(0, 0, 1, 1.0), lambda: RectangularWindowCircular(0, 0, 1), lambda: DMD(1.0, 1.0, 4, 0.0, 4, 2, 1.0),
            lambda: LCOS_SLM(1.0, 1.0, 4, 2, 1.0), lambda: SLMSimulation(LCOS_SLM(1.0, 1.0, 4, 2, 1.0), 1, 1), lambda: HermiteGaussian(0, 0, 1, 1.0).shift(1, 2),
            lambda: ConstantProfile(2.0))[k % 7]()


def step(B, e, n):
    op = e["op"]
    e["exc"] = ""
    try:
        if op == "set":
            B.dtype = VAL[e["v"]] if e["v"] else BAD[n % len(BAD)]
        elif op == "read":
            e["val"] = name(tf.as_dtype({"dtype": lambda: B.dtype, "complex": lambda: B.dtype_complex, "int": lambda: B.dtype_int}[e["what"]]())) if 0 else \
                tf.as_dtype({"dtype": lambda: B.dtype, "complex": lambda: B.dtype_complex, "int": lambda: B.dtype_int}[e["what"]]()).name
        elif op == "eng":
            B.fft_backend = e["v"] if n % 2 else (B.FFT_BACKEND_NUMPY if e["v"] else B.FFT_BACKEND_TENSORFLOW)
        elif op == "readeng":
            e["val"] = int(B.fft_backend)
        elif op == "import":
            import pySLM2.util.sample
        elif op == "make":
            make(e["v"])
        elif op == "calc":
            c0 = CNT[0]
            e["fft"], e["dt"], e["obs"] = -1, [], []
            vals, e["obs"] = calc(e)
            e["dt"] = [name(v) for v in vals]
            if e["kind"] in FFTS:
                e["fft"] = CNT[0] - c0 - (1 if e["kind"] == "fix" else 0)
    except Exception as x:
        e["exc"] = exc(x)
        e["msg"] = str(x)[-300:]
    return e


def run(job):
    global CNT
    CNT = job["_cnt"]
    res = [dict(id="%s/%s" % (job["prop"], job["base"]), events=[step(pySLM2.BACKEND, dict(e), n) for n, e in enumerate(job["hist"])])]
    for n, h in enumerate(job.get("inst", [])):
        B = type(pySLM2.BACKEND)()
        res.append(dict(id="%s/inst/%d" % (job["prop"], n), events=[step(B, dict(e), n + i) for i, e in enumerate(h)]))
    return res
