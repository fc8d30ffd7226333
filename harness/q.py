"""Quantisation of observed values to integers (TLC has 32-bit integers)."""
import numpy as np
BIG = 1000000007


def q(v, scale=1, big=BIG):
    """round(v*scale); values that are not finite or too large become distinctive sentinels."""
    try:
        v = complex(v)
    except Exception:
        return big
    v = v.real * scale
    if not np.isfinite(v):
        return big
    v = int(round(v))
    return max(-big + 7, min(big - 7, v))


def qc(v, scale=1):
    try:
        v = complex(v)
    except Exception:
        return [BIG, BIG]
    return [q(v.real, scale), q(v.imag, scale)]


def shape(a):
    return [int(x) for x in np.shape(a)]


def exc(e):
    return type(e).__name__


class Buffers:
    """Arrays the caller fills again and again: one object, new values (once per event)."""
    def __init__(self):
        self.pool, self.used = {}, set()

    def fresh(self):
        self.used = set()

    def take(self, a, make):
        k = (a.shape, a.dtype.str)
        b = self.pool.get(k)
        if k in self.used:
            return make(a)
        self.used.add(k)
        if b is None:
            b = self.pool[k] = make(a)
            if not b.flags.writeable:
                del self.pool[k]
            return b
        b[...] = a
        return b


class Kept:
    """Objects made once per description and used again by later events of the history."""
    def __init__(self):
        self.d = {}

    def get(self, key, make):
        key = repr(key)
        if key not in self.d:
            self.d[key] = make()
        return self.d[key]


def layout(a, rng):
    """A copy of the values in some memory layout."""
    k = rng.randrange(6)
    if k == 1: return np.array(a, order="F")
    if k == 2: return np.array(a.T, order="C").T
    if k == 3: return np.array(a[::-1, ::-1], order="C")[::-1, ::-1]
    if k == 4:
        b = np.zeros((2 * a.shape[0], 3 * a.shape[1]), a.dtype)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    return np.array(a, order="C")
