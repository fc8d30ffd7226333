"""Stand-ins for the Luxbeam and ALP4 libraries: they record every device call (normalised), can fail at a
chosen call and let the environment act between calls.  What the calls mean is decided by the specification
(spec/Luxbeam.tla, spec/Alp.tla), not here."""
import sys, types
import numpy as np


class DeviceError(Exception):
    pass


class Line:
    """One device connection: log of the current operation, fault plan, pending environment actions."""
    def __init__(self, rows, cols, tokens):
        self.rows, self.cols, self.tokens = rows, cols, tokens
        self.begin()

    def begin(self, fault=None, env=()):
        self.log, self.fault, self.env, self.n, self.faulted = [], fault, dict(env), 0, False

    def call(self, fn, **kw):
        """Record a call; returns whether to report an error after it."""
        for e in self.env.pop(self.n, ()):
            self.log.append(dict(fn="env", src=e[0], level=e[1], eff=True))
        k = self.n
        self.n += 1
        hit = self.fault is not None and self.fault[0] == k
        self.log.append(dict(kw, fn=fn, eff=not (hit and self.fault[1] == "lost")))
        if hit:
            self.faulted = True
            raise DeviceError("fault at call %d" % k)

    def token(self, img):
        img = np.asarray(img)
        b = (img != 0).astype(np.uint8).ravel()
        return self.tokens.get(b.tobytes(), 0) if b.size == self.rows * self.cols else 0


current = {"line": None}      # the line the next constructed library object is attached to


# ---------------------------------------------------------------- Luxbeam
def lux_module():
    m = types.ModuleType("Luxbeam")
    m.TRIG_MODE_NEGATIVE_EDGE, m.TRIG_MODE_POSITIVE_EDGE, m.TRIG_MODE_NEGATIVE_LEVEL, m.TRIG_MODE_POSITIVE_LEVEL = 0, 1, 2, 3
    m.TRIG_SOURCE_SOFTWARE, m.TRIG_SOURCE_ELECTRICAL, m.TRIG_SOURCE_OPTICAL = 1, 2, 4
    m.SEQ_CMD_RUN, m.SEQ_CMD_RESET = 1, 2
    m.ENABLE, m.DISABLE = 1, 0

    class Operand:
        def __init__(self, v, k=0):
            self.v, self.k = v, k

        def __add__(self, o):
            return Operand(self.v, self.k + int(o))
        __radd__ = __add__

        def __sub__(self, o):
            return Operand(self.v, self.k - int(o))

    def operand(x):
        return (x.v, x.k) if isinstance(x, Operand) else (-1, int(x))

    class LuxbeamSequencer:
        def __init__(self, *a, **k):
            self.code, self.nv = [], 0

        def _add(self, i, v=-1, k=0, t=0, rv=-1, rk=0):
            self.code.append(dict(i=i, v=v, k=k, t=t, rv=rv, rk=rk))
            return self.code[-1]

        def assign_var_reg(self, regno=0):
            return Operand(100 + int(regno))

        def assign_var(self, value=0, **kw):
            v = self.nv
            self.nv += 1
            a, b = operand(value)
            self._add("set", v=v, rv=a, rk=b)
            return Operand(v)

        def jump_loop_iter(self):
            top = len(self.code) + 1
            yield 0
            self._add("jmp", t=top)

        def range_loop_iter(self, start, stop=None, step=1):
            if stop is None:
                start, stop = 0, start
            v = self.nv
            self.nv += 1
            a, b = operand(start)
            self._add("set", v=v, rv=a, rk=b)
            top = len(self.code) + 1
            a, b = operand(stop)
            j = self._add("jge", v=v, rv=a, rk=b)
            yield 0, Operand(v)
            self._add("set", v=v, rv=v, rk=int(step))
            self._add("jmp", t=top)
            j["t"] = len(self.code) + 1

        def load_global(self, inum, wait=0):
            a, b = operand(inum)
            self._add("load", rv=a, rk=b)

        def reset_global(self, wait=0):
            self._add("show")

        def trig(self, mode, source, wait=0):
            self._add("trig", v=int(mode), k=int(source))

        def dumps(self):
            return Program(self.code)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: self._add("nop")

    class Program(str):
        def __new__(cls, code):
            s = str.__new__(cls, "luxbeam program")
            s.code = [dict(c) for c in code]
            return s

    class Luxbeam:
        def __init__(self, ip=None, inverse=False, timeout=None):
            self.line = current["line"]
            self.line.ctor = dict(ip=ip, inverse=bool(inverse), timeout=timeout)

        def set_sequencer_state(self, seq_cmd, enable):
            self.line.call("state", cmd="run" if seq_cmd == m.SEQ_CMD_RUN else "reset" if seq_cmd == m.SEQ_CMD_RESET else "other",
                           on=bool(enable))

        def load_sequence(self, sequence):
            self.line.call("seq", prog=getattr(sequence, "code", []))

        def set_sequencer_reg(self, reg_no, reg_val):
            self.line.call("reg", no=int(reg_no), val=int(reg_val))

        def load_image(self, inum, image, *a, **k):
            self.line.call("img", inum=int(inum), tok=self.line.token(image))

        def set_software_sync(self, level):
            self.line.call("sync", level=1 if level else 0)

        @property
        def cols(self):
            self.line.call("query")
            return self.line.cols

        @property
        def rows(self):
            self.line.call("query")
            return self.line.rows

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: self.line.call("other")

    m.LuxbeamSequencer, m.Luxbeam = LuxbeamSequencer, Luxbeam
    return m


# -------------------------------------------------------------------- ALP
ALPC = dict(ALP_DEFAULT=0, ALP_ENABLE=1, ALP_PROJ_MODE=2300, ALP_MASTER=2301, ALP_SLAVE=2302, ALP_PROJ_STEP=2329,
            ALP_PROJ_INVERSION=2306, ALP_PROJ_UPSIDE_DOWN=2307, ALP_TRIGGER_EDGE=2005, ALP_EDGE_FALLING=2008, ALP_EDGE_RISING=2009,
            ALP_LEVEL_HIGH=2006, ALP_LEVEL_LOW=2007, ALP_BIN_MODE=2104, ALP_BIN_NORMAL=2105, ALP_BIN_UNINTERRUPTED=2106,
            ALP_BITNUM=2103, ALP_MIN_PICTURE_TIME=2212, ALP_MAX_PICTURE_TIME=2213, ALP_PICTURE_TIME=2203, ALP_ILLUMINATE_TIME=2204,
            ALP_MIN_ILLUMINATE_TIME=2214, ALP_DEV_DISPLAY_WIDTH=2057, ALP_DEV_DISPLAY_HEIGHT=2058, ALP_AVAIL_MEMORY=2003,
            ALP_DATA_FORMAT=2110, ALP_SEQ_REPEAT=2100, ALP_FIRSTFRAME=2101, ALP_LASTFRAME=2102)
MINTIME = 44


def alp_module():
    m = types.ModuleType("ALP4")
    for k, v in ALPC.items():
        setattr(m, k, v)
    name = {v: k for k, v in ALPC.items() if v > 1}
    nm = lambda v: name.get(v, {0: "0", 1: "1"}.get(v, "other"))

    class ALP4:
        def __init__(self, version="4.3", libDir=None):
            self.line = current["line"]
            self.line.ctor = dict(version=version)
            self._lastDDRseq, self.Seqs, self._next = None, {}, 1

        def _id(self, s):
            s = self._lastDDRseq if s is None else s
            return -1 if s is None else int(getattr(s, "value", s))

        def Initialize(self, DeviceNum=None):
            self.line.call("init")
            self._lastDDRseq, self.Seqs = None, {}
            self.nSizeX, self.nSizeY = self.line.cols, self.line.rows

        def Free(self):
            self.line.call("free")
            self._lastDDRseq, self.Seqs = None, {}

        def Halt(self):
            self.line.call("halt")

        def Wait(self, *a, **k):
            self.line.call("query")

        def DevInquire(self, inquireType):
            self.line.call("query")
            return {2057: self.line.cols, 2058: self.line.rows}.get(int(inquireType), 0)

        def DevControl(self, controlType, value):
            self.line.call("dev", typ=nm(controlType), val=nm(value))

        def ProjControl(self, controlType, value):
            self.line.call("proj", typ=nm(controlType), val=nm(value))

        def SeqAlloc(self, nbImg=1, bitDepth=1):
            i = self._next
            self.line.call("alloc", id=i, nb=int(nbImg), depth=int(bitDepth))
            self._next += 1
            self._lastDDRseq = i
            self.Seqs[i] = (int(nbImg), int(bitDepth))
            return i

        def SeqControl(self, controlType, value, SequenceId=None):
            self.line.call("seqctl", id=self._id(SequenceId), typ=nm(controlType), val=nm(value))

        def SeqInquire(self, inquireType, SequenceId=None):
            self.line.call("query")
            return {2212: MINTIME, 2213: 10000000, 2203: 33334}.get(int(inquireType), 1)

        def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat="Python"):
            i = self._id(SequenceId)
            d = np.asarray(imgData)
            full = bool(np.all((d == 0) | (d == 255)))
            d = d.astype(np.uint8).ravel() >= 128
            sz = self.line.rows * self.line.cols
            nb = self.Seqs.get(i, (0, 0))[0]
            n = nb - int(PicOffset) if PicLoad == 0 else int(PicLoad)
            self.line.call("put", id=i, off=int(PicOffset), full=full, complete=bool(d.size == n * sz),
                           toks=[self.line.token(d[k * sz:(k + 1) * sz]) for k in range(d.size // sz)])

        def SetTiming(self, SequenceId=None, illuminationTime=None, pictureTime=None, synchDelay=None, synchPulseWidth=None,
                      triggerInDelay=None):
            self.line.call("timing", id=self._id(SequenceId),
                           pt="default" if pictureTime is None else "min" if pictureTime == MINTIME else "long")

        def Run(self, SequenceId=None, loop=True):
            self.line.call("run", id=self._id(SequenceId), loop=bool(loop))

        def FreeSeq(self, SequenceId=None):
            i = self._id(SequenceId)
            self.line.call("freeseq", id=i)
            self.Seqs.pop(i, None)

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: self.line.call("other")

    m.ALP4 = ALP4
    return m


def install():
    sys.modules["Luxbeam"] = lux_module()
    sys.modules["ALP4"] = alp_module()
