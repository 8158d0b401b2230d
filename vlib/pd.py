"""Helpers for Pond and SecureNN checks."""
import numpy as np
import tensorflow as tf

from . import rt
from .worker import Violation
import tf_encrypted as tfe
from tf_encrypted.protocol.pond import Pond
from tf_encrypted.protocol.pond.pond import PondMaskedTensor, PondPrivateTensor, PondPublicTensor
from tf_encrypted.protocol.securenn import SecureNN
from tf_encrypted.tensor import int100factory
from tf_encrypted.tensor.fixed import fixed64, fixed64_ni, fixed100, fixed100_ni


def is_crt(t):
    return hasattr(t, "backing") and isinstance(getattr(t, "backing"), (list, tuple))


_moduli = []


def crt_moduli():
    if not _moduli:
        m = int100factory.tensor(np.array([-1]))
        _moduli.extend(int(b.numpy()[0]) + 1 for b in m.backing)
    return _moduli


def crt_value(t):
    """Exact integer of a CRT tensor, signed around zero."""
    M = int100factory.modulus
    ms = crt_moduli()
    v = 0
    for b, m in zip(t.backing, ms):
        ni = M // m
        lam = ni * pow(ni, -1, m) % M
        v = v + b.numpy().astype(object) * lam
    v = v % M
    return np.where(v > M // 2, v - M, v)


def mod_of(factory):
    return factory.modulus


def ints(t):
    if is_crt(t):
        return crt_value(t)
    return t.value.numpy().astype(np.int64)


def wrapm(v, m):
    """Signed representative modulo m."""
    v = np.asarray(v).astype(object)
    v = v % m
    return np.where(v > (m - 1) // 2, v - m, v)


def pond(config=None, debug=True, mode="det", cls=Pond, shared=False, **kw):
    rt.use_config(debug=debug, shared=shared)
    rt.set_mode(mode)
    p = cls(fixedpoint_config=config, **kw)
    tfe.set_protocol(p)
    return p


def open_private(prot, x, what="", reveal=True, devices=True):
    s0, s1 = x.unwrapped
    if devices:
        for s, srv in ((s0, prot.server_0), (s1, prot.server_1)):
            if s.device is not None and s.device != srv.device_name:
                raise Violation("%s: a share of %s is on %s" % (what, srv.name, s.device))
    m = s0.factory.modulus
    v = wrapm(ints(s0).astype(object) + ints(s1).astype(object), m)
    if reveal:
        r = prot.reveal(x)
        for i, t in enumerate(r.unwrapped):
            if not np.array_equal(wrapm(ints(t), m), v):
                raise Violation("%s: reveal at server %d differs from the value shared" % (what, i))
    return v


def open_masked(prot, x, what="", **kw):
    """Checks the masked representation is consistent: alpha = x - a and a = a0 + a1."""
    v = open_private(prot, x.unmasked, what, **kw)
    m = x.backing_dtype.modulus
    a, a0, a1 = ints(x.a), ints(x.a0), ints(x.a1)
    if not np.array_equal(wrapm(a0.astype(object) + a1, m), wrapm(a, m)):
        raise Violation("%s: mask shares do not add up to the mask" % what)
    for al in (x.alpha_on_0, x.alpha_on_1):
        if not np.array_equal(wrapm(ints(al).astype(object) + a, m), v):
            raise Violation("%s: masked value plus mask is not the value" % what)
    return v


def open_any(prot, x, what="", **kw):
    if isinstance(x, PondMaskedTensor):
        return open_masked(prot, x, what, **kw)
    if isinstance(x, PondPrivateTensor):
        return open_private(prot, x, what, **kw)
    vs = [ints(t) for t in x.unwrapped]
    m = x.unwrapped[0].factory.modulus
    if not np.array_equal(wrapm(vs[0], m), wrapm(vs[1], m)):
        raise Violation("%s: servers hold different copies of a public value" % what)
    return wrapm(vs[0], m)


def opened(prot, x, what="", **kw):
    v = open_any(prot, x, what, **kw)
    if x.is_scaled:
        return v.astype(np.float64) / prot.fixedpoint_config.scaling_factor
    return v


def private(prot, v, scaled=False, factory=None):
    return prot.define_private_variable(np.asarray(v), apply_scaling=scaled, factory=factory)


def public(prot, v, scaled=False, factory=None):
    return prot.define_public_variable(np.asarray(v), apply_scaling=scaled, factory=factory)
