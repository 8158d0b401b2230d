"""Helpers for ABY3 checks: entering ring words, opening sharings while checking their invariants."""
import numpy as np
import tensorflow as tf

from . import rt
from .worker import Violation
from tf_encrypted.protocol.aby3 import ABY3
from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor, ABY3PublicTensor, ShareType
from tf_encrypted.tensor import factories

A, B = ShareType.ARITHMETIC, ShareType.BOOLEAN
BOOL = factories[tf.bool]


def nbits_of(factory):
    if factory is BOOL or factory.native_type == tf.bool:
        return 1
    return factory.nbits


def ints(t):
    """Ring elements of a backing tensor as signed integers."""
    v = t.value.numpy() if hasattr(t.value, "numpy") else np.asarray(t.value)
    n = nbits_of(t.factory)
    if n == 1:
        return v.astype(np.int64)
    if n == 128:
        lo = v[..., 0].astype(np.uint64).astype(object)
        hi = v[..., 1].astype(object)
        return np.asarray(hi * (1 << 64) + lo, dtype=object)
    return v.astype(np.int64)


def wrap(v, n):
    """Signed representative modulo 2^n (bits for n=1)."""
    v = np.asarray(v)
    if n == 1:
        return v & 1
    if v.dtype == object or n > 63:
        if n == 64 and v.dtype != object:
            return v
        m, h = 1 << n, 1 << (n - 1)
        return np.asarray((v.astype(object) + h) % m - h, dtype=object)
    m, h = 1 << n, 1 << (n - 1)
    return (v + h) % m - h


def shares_of(prot, x, what="", devices=True):
    """The three distinct shares; checks replication and placement."""
    sh = x.unwrapped
    vals = [[ints(sh[i][j]) for j in range(2)] for i in range(3)]
    for i in range(3):
        a, b = vals[i][1], vals[(i + 1) % 3][0]
        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation("%s: the two copies of share %d differ (server %d and server %d)" % (what, (i + 1) % 3, i, (i + 1) % 3))
        if devices:
            for j in range(2):
                d = sh[i][j].device
                if d is not None and d != prot.servers[i].device_name:
                    raise Violation("%s: share %d of server %d is on %s" % (what, j, i, d))
    return [vals[i][0] for i in range(3)]


def open_private(prot, x, what="", devices=True, reveal=True):
    s = shares_of(prot, x, what, devices)
    n = nbits_of(x.backing_dtype)
    with np.errstate(over="ignore"):
        if x.share_type == A:
            v = wrap(np.asarray(s[0] + s[1] + s[2]), n)
        else:
            v = wrap(s[0] ^ s[1] ^ s[2], n)
    if reveal:
        r = prot.reveal(x)
        p = [ints(t) for t in r.unwrapped]
        for i in range(3):
            if p[i].shape != v.shape or not np.array_equal(wrap(p[i], n), v):
                raise Violation("%s: reveal at server %d differs from the value shared" % (what, i))
    return v


def open_any(prot, x, what="", devices=True, reveal=True):
    if isinstance(x, ABY3PrivateTensor):
        return open_private(prot, x, what, devices, reveal)
    p = [ints(t) for t in x.unwrapped]
    for i in (1, 2):
        if not np.array_equal(p[0], p[i]):
            raise Violation("%s: servers hold different copies of a public value" % what)
    return wrap(p[0], nbits_of(x.backing_dtype))


def opened(prot, x, **kw):
    """Decoded (fixed-point) value."""
    v = open_any(prot, x, **kw)
    if x.is_scaled:
        return v.astype(np.float64) / prot.fixedpoint_config.scaling_factor
    return v


def as_np(v):
    v = np.asarray(v)
    if v.dtype == object and all(-(2**63) <= int(t) < 2**63 for t in v.reshape(-1)):
        v = v.astype(np.int64)
    return v


def private(prot, v, share=A, factory=None, scaled=False):
    x = prot.define_private_variable(as_np(v), apply_scaling=scaled, share_type=share, factory=factory)
    return x


def public(prot, v, factory=None, scaled=False):
    v = as_np(v)
    return prot.define_public_variable(v, apply_scaling=scaled, factory=factory)


def const(prot, v, factory=None, scaled=False):
    return prot.define_constant(as_np(v), apply_scaling=scaled, factory=factory)
