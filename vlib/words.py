"""Alphabets of boundary words."""
import itertools

import numpy as np


def sgn(v, n):
    m = 1 << n
    return ((v + (m >> 1)) % m) - (m >> 1)


def words(n, level=1):
    """Signed n-bit words at which carries, signs and shifts change behaviour."""
    s = {0, 1, -1, 2, -2, 3, -3, (1 << (n - 1)) - 1, -(1 << (n - 1)), -(1 << (n - 1)) + 1}
    m = (1 << n) - 1
    for pat in (0x55, 0xAA, 0x33, 0xCC, 0x0F, 0xF0, 0x01, 0x80, 0x7F, 0xFE):
        v = int.from_bytes(bytes([pat]) * (n // 8 or 1), "big") & m
        s.add(sgn(v, n))
    for k in (16, 32, 64):
        if k < n:
            a = ((1 << k) - 1)
            v = 0
            for i in range(0, n, 2 * k):
                v |= a << i
            s.add(sgn(v & m, n))
            s.add(sgn(~v & m, n))
    step = 1 if level >= 1 else max(1, n // 8)
    for i in range(0, n, step):
        for d in ((-1, 0, 1) if level >= 1 else (0, -1)):
            for q in (1, -1) if level >= 1 else (1,):
                s.add(sgn(q * (1 << i) + d, n))
    if level >= 2:
        for i in range(n):
            for j in range(i):
                s.add(sgn((1 << i) - (1 << j), n))
                s.add(sgn((1 << i) + (1 << j), n))
    return sorted(s)


def arr(vals):
    vals = list(vals)
    if all(-(2**63) <= v < 2**63 for v in vals):
        return np.array(vals, dtype=np.int64)
    return np.array(vals, dtype=object)


def pairs(a, b=None):
    b = a if b is None else b
    xs = np.repeat(np.array(a, dtype=object), len(b))
    ys = np.tile(np.array(b, dtype=object), len(a))
    return xs, ys


def product(*doms):
    """Columns of the cartesian product, as int64 arrays."""
    grids = np.meshgrid(*[np.asarray(d, dtype=np.int64) for d in doms], indexing="ij")
    return [g.reshape(-1) for g in grids]
