"""C10: Pond arithmetic on shares equals plaintext arithmetic."""
import itertools

import numpy as np

from vlib import pd, plain, rt, smallring, words
from vlib.words import arr
import tensorflow as tf
from tf_encrypted.protocol.pond.pond import PondPrivateTensor, PondPublicTensor

CFG = {"64": "low", "100": "high", "64ni": pd.fixed64_ni, "100ni": pd.fixed100_ni}
KINDS = "pmuc"


def K(p, kind, v, scaled=False):
    v = np.asarray(v)
    if kind == "p":
        return pd.private(p, v, scaled)
    if kind == "m":
        return p.mask(pd.private(p, v, scaled))
    if kind == "u":
        return pd.public(p, v, scaled)
    return p.define_constant(v, apply_scaling=scaled)


def swaps(which):
    """The choice of who gets the seed, as a schedule: always one server, always the other, alternating."""
    it = itertools.cycle({"0": [0.25], "1": [0.75], "alt": [0.25, 0.75], "tla": [0.75, 0.75, 0.25]}[which])
    return lambda: next(it)


def ring_of(p):
    return p.tensor_factory.modulus


# -- exhaustive tapes on a small ring ---------------------------------------------------------------
def tape_progs():
    t = {}
    for a, b in itertools.product("pmu", repeat=2):
        if a + b == "uu":
            continue
        t["add-" + a + b] = (2, lambda p, x, y, a=a, b=b: K(p, a, x) + K(p, b, y), lambda x, y: x + y)
        t["sub-" + a + b] = (2, lambda p, x, y, a=a, b=b: K(p, a, x) - K(p, b, y), lambda x, y: x - y)
        t["mul-" + a + b] = (2, lambda p, x, y, a=a, b=b: K(p, a, x) * K(p, b, y), lambda x, y: x * y)
    for a in "pm":
        t["neg-" + a] = (1, lambda p, x, a=a: K(p, a, x).negative(), lambda x: -x)
        t["square-" + a] = (1, lambda p, x, a=a: p.square(K(p, a, x)), lambda x: x * x)
    t["mul-self"] = (1, lambda p, x: (lambda z: z * z)(K(p, "p", x)), lambda x: x * x)
    t["mul-mask-twice"] = (2, _twice, lambda x, y: x * x * y + x * y)
    t["matmul-pp"] = (2, lambda p, x, y: p.matmul(K(p, "p", x[:, None]), K(p, "p", y[0:1, None])), lambda x, y: (x * y[0])[:, None])
    t["sum"] = (2, lambda p, x, y: p.reduce_sum(K(p, "p", np.stack([x, y])), axis=0), lambda x, y: x + y)
    return t


def _twice(p, x, y):
    a, b = K(p, "p", x), K(p, "p", y)
    c = a * b
    return c * a + c


def _tape(ck, k, sw, name):
    nin, prog, want = tape_progs()[name]
    cfg = smallring.config(k, frac=0, integral=0)
    dom = np.arange(1 << k) - (1 << (k - 1))

    def setup():
        p = pd.pond(cfg, mode="script")
        rt.TAPE.pyrandom = swaps(sw)
        return p

    if name == "matmul-pp":
        # one right operand per run
        for v in dom:
            def prog1(p, x, v=v):
                return p.matmul(K(p, "p", x[:, None]), K(p, "p", np.full((1, 1), v)))
            ck.tape(setup, prog1, [dom], lambda x, v=v: words_wrap(x * v, k)[:, None], lambda p, z: pd.open_any(p, z), max_rows=200000, what=name)
        return
    ck.tape(setup, prog, [dom] * nin, lambda *s: words_wrap(want(*s), k), lambda p, z: pd.open_any(p, z), max_rows=300000, what=name)


def words_wrap(v, k):
    m = 1 << k
    return ((v + (m >> 1)) % m) - (m >> 1)


# -- full-width rings -----------------------------------------------------------------------------
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}


def _wide(ck, cfg, op, a, b, sw):
    p = pd.pond(CFG[cfg])
    rt.TAPE.pyrandom = swaps(sw)
    W = words.words(64, 0 if ck.quick else 1)
    x, y = words.pairs(W)
    X, Y = K(p, a, arr(x)), K(p, b, arr(y))
    z = BIN[op](X, Y)
    ck.eq(pd.open_any(p, z), pd.wrapm(BIN[op](x, y), ring_of(p)), "%s %s%s" % (op, a, b), [x, y])
    ck.true(z.is_scaled is False or not z.is_scaled, "scaling flag")


def _wide1(ck, cfg, a):
    p = pd.pond(CFG[cfg])
    W = words.words(64, 1)
    X = arr(W)
    o = np.array(W, dtype=object)
    m = ring_of(p)
    ck.eq(pd.open_any(p, K(p, a, X).negative()), pd.wrapm(-o, m), "negative", [X])
    ck.eq(pd.open_any(p, p.square(K(p, a, X))), pd.wrapm(o * o, m), "square", [X])
    ck.eq(pd.open_any(p, p.identity(K(p, a, X)) if a != "m" else K(p, a, X).unmasked), pd.wrapm(o, m), "identity", [X])


def _numbers(ck, cfg):
    """Python numbers on either side."""
    p = pd.pond(CFG[cfg])
    ulp = 1.0 / p.fixedpoint_config.scaling_factor
    v = np.array([[3, -7], [100, 0]])
    for a in KINDS:
        for n in (0, 1, -5, 12):
            ck.eq(pd.opened(p, K(p, a, v) + n), v + n, "tensor + %s" % n)
            ck.eq(pd.opened(p, n + K(p, a, v)), n + v, "%s + tensor" % n)
            ck.eq(pd.opened(p, K(p, a, v) - n), v - n, "tensor - %s" % n)
            ck.eq(pd.opened(p, n - K(p, a, v)), n - v, "%s - tensor" % n)
            ck.eq(pd.opened(p, K(p, a, v) * n), v * n, "tensor * %s" % n)
            ck.eq(pd.opened(p, n * K(p, a, v)), n * v, "%s * tensor" % n)
        w = v / 4.0
        for n in (0, 1, 2.5, -0.25, 3):
            t = (abs(n) + 2) * ulp
            ck.close(pd.opened(p, K(p, a, w, True) + n), w + n, 2.01 * ulp, "scaled + %s" % n)
            ck.close(pd.opened(p, n - K(p, a, w, True)), n - w, 2.01 * ulp, "%s - scaled" % n)
            ck.close(pd.opened(p, K(p, a, w, True) * n), w * n, (np.abs(w) + abs(n) + 2) * ulp, "scaled * %s" % n)
            ck.close(pd.opened(p, n * K(p, a, w, True)), w * n, (np.abs(w) + abs(n) + 2) * ulp, "%s * scaled" % n)
        for n in (2, 4.0, -0.5, 3, 10):
            ck.close(pd.opened(p, K(p, a, w, True) / n), w / n, (np.abs(w) + 1.0 / abs(n) + 2) * ulp, "scaled / %s" % n)


# -- scaled values --------------------------------------------------------------------------------
def grid(p, small=False):
    """Fixed-point values: around powers of the base, over the whole single-precision range."""
    c = p.fixedpoint_config
    s, B = c.scaling_factor, c.bound_single_precision
    ints = {0}
    for e in range(0, 40):
        for d in (-1, 0, 1):
            v = c.scaling_base ** e + d
            if abs(v) < (B if not small else int(B ** 0.5)):
                ints |= {v, -v}
    return np.array(sorted(ints)), s, B


def exact(p, v):
    """The encoding of v, which the oracle works with."""
    return p._encode(np.asarray(v, dtype=np.float64), True)


def _scaled_mul(ck, cfg, a, b, sw):
    p = pd.pond(CFG[cfg])
    rt.TAPE.pyrandom = swaps(sw)
    g, s, B = grid(p)
    D = p.fixedpoint_config.bound_double_precision
    x, y = words.pairs([int(v) for v in g])
    keep = np.abs(x * y) < D
    x, y = x[keep], y[keep]
    xf, yf = x.astype(np.float64) / s, y.astype(np.float64) / s
    # the encoding may lose the last unit: take what is encoded as the operand
    xi, yi = _enc(p, xf), _enc(p, yf)
    z = K(p, a, xf, True) * K(p, b, yf, True)
    ck.true(z.is_scaled, "scaling flag")
    got = pd.open_any(p, z)
    pr = xi * yi
    lo = np.array([v // s for v in pr], dtype=object)
    ck.within(got, lo - 1, lo + 1, "scaled mul %s%s" % (a, b), [xf, yf])


def _enc(p, f):
    return pd.open_any(p, p.define_constant(f, apply_scaling=True))


def _scaled_square(ck, cfg, a):
    p = pd.pond(CFG[cfg])
    g, s, B = grid(p)
    D = p.fixedpoint_config.bound_double_precision
    x = np.array([int(v) for v in g if int(v) ** 2 < D], dtype=object)
    xf = x.astype(np.float64) / s
    xi = _enc(p, xf)
    lo = np.array([int(v) * int(v) // s for v in xi], dtype=object)
    ck.within(pd.open_any(p, p.square(K(p, a, xf, True))), lo - 1, lo + 1, "scaled square", [xf])
    ck.close(pd.opened(p, p.reveal(K(p, a, xf, True)) if a in "pm" else K(p, a, xf, True)), xf, 1.01 / s, "scaled reveal", [xf])


def _scaled_add(ck, cfg, a, b):
    p = pd.pond(CFG[cfg])
    g, s, B = grid(p)
    x, y = words.pairs([int(v) for v in g])
    xf, yf = x.astype(np.float64) / s, y.astype(np.float64) / s
    xi, yi = _enc(p, xf), _enc(p, yf)
    ck.eq(pd.open_any(p, K(p, a, xf, True) + K(p, b, yf, True)), xi + yi, "scaled add", [xf, yf])
    ck.eq(pd.open_any(p, K(p, a, xf, True) - K(p, b, yf, True)), xi - yi, "scaled sub", [xf, yf])


def _mixed(ck, cfg, a, b):
    """One scaled factor: exact, and scaled."""
    p = pd.pond(CFG[cfg])
    g, s, B = grid(p, True)
    x, y = words.pairs([int(v) for v in g], [0, 1, -1, 5, -12])
    xf = x.astype(np.float64) / s
    xi = _enc(p, xf)
    for (l, r) in ((K(p, a, xf, True), K(p, b, arr(y))), (K(p, b, arr(y)), K(p, a, xf, True))):
        z = l * r
        ck.true(z.is_scaled, "scaling flag")
        ck.eq(pd.open_any(p, z), xi * y, "scaled times unscaled", [xf, y])


# -- truncation, on all shares of a small ring and on boundary shares of the real ones -------------------
def _trunc_small(ck, base, frac, integral, gap, ni):
    cfg = smallring.config(8, frac=frac, base=base, integral=integral, gap=gap, ni=ni)
    s = base ** frac
    D = cfg.bound_double_precision
    vals = np.arange(-D, D) if not ni else np.arange(-32, 32)
    p = pd.pond(cfg, mode="script")
    f = p.tensor_factory
    sh = np.arange(-128, 128)
    nr = 1
    if not ni:
        # the server's mask is a draw: every value of it
        bits = int(np.ceil(np.log2(D))) + 1 + gap
        nr = 1 << bits
    if not ck.quick or ni:
        pass
    elif len(vals) * 256 * nr > 1500000:
        sh = np.array([-128, -127, -1, 0, 1, 3, 64, 127])
    v, s0, r = words.product(vals, sh, np.arange(nr))
    s1 = v - s0
    p = pd.pond(cfg, mode="script")
    rt.TAPE.batch = len(v)
    rt.TAPE.default = lambda c: r
    with tf.device(p.server_0.device_name):
        x0 = f.tensor(s0)
    with tf.device(p.server_1.device_name):
        x1 = f.tensor(words_wrap(s1, 8))
    x = PondPrivateTensor(p, x0, x1, True)
    got = pd.open_any(p, p.truncate(x))
    lo = np.floor_divide(v, s)
    w1 = words_wrap(s1, 8)
    care = np.ones(len(v), bool)
    if ni:
        # without interaction the result is only promised when the shares do not wrap around
        care = (s0 + w1 == v) & (w1 != -128)
    ck.within(got, np.where(care, lo - 1, 1), np.where(care, lo + 1, 0), "truncate", [v, s0, r])
    ck.count(0, states=len(v), transitions=len(v) * (1 if ni else 2), traces=len(v))


def _trunc_wide(ck, cfg):
    p = pd.pond(CFG[cfg])
    c = p.fixedpoint_config
    s, D = c.scaling_factor, c.bound_double_precision
    g = {0}
    for e in range(0, 60):
        for d in (-1, 0, 1):
            v = c.scaling_base ** e + d
            if v < D:
                g |= {v, -v}
    g |= {D - 1, -D, -D + 1}
    g = sorted(v for v in g if -2**62 < v < 2**62)
    # every value under many sharings
    for rep in range(4 if ck.quick else 32):
        rt.TAPE.pyrandom = swaps("01"[rep % 2])
        x = pd.private(p, np.array(g))
        t = PondPrivateTensor(p, *x.unwrapped, True)
        lo = np.array([v // s for v in g], dtype=object)
        ck.within(pd.open_any(p, p.truncate(t)), lo - 1, lo + 1, "truncate %s" % cfg, [g])
        ck.within(pd.open_any(p, p.truncate(PondPublicTensor(p, *pd.public(p, np.array(g)).unwrapped, True))), lo, lo + 1, "public truncate", [g])


# -- products of matrices and convolutions -------------------------------------------------------------
def ramp(shape, k=37, m=31):
    n = int(np.prod(shape))
    return ((np.arange(n) * k) % m - m // 2).reshape(shape)


def _matmul(ck, cfg, a, b):
    p = pd.pond(CFG[cfg])
    s = p.fixedpoint_config.scaling_factor
    for n, k, m in itertools.product((1, 2, 3), (1, 2, 5), (1, 4)):
        x, y = ramp((n, k)), ramp((k, m), 29, 23)
        ck.eq(pd.opened(p, p.matmul(K(p, a, x), K(p, b, y))), (x @ y), "matmul")
        xf, yf = x / 8.0, y / 4.0
        t = (k * (8) + 2) / s
        ck.close(pd.opened(p, p.matmul(K(p, a, xf, True), K(p, b, yf, True))), xf @ yf, t, "scaled matmul")
        ck.close(pd.opened(p, p.matmul(K(p, a, xf, True), K(p, b, y))), xf @ y, k * 25.0 / s, "scaled by unscaled matmul")
    W = np.array(words.words(64, 0))
    n = len(W) // 5
    x, y = W[: 5 * n].reshape(n, 5), W[: 5 * n][::-1].reshape(5, n)
    ck.eq(pd.open_any(p, p.matmul(K(p, a, x), K(p, b, y))), pd.wrapm(x.astype(object).dot(y.astype(object)), ring_of(p)), "wide matmul")


def geos(ck):
    out = []
    for h, w in ((3, 3), (4, 5), (5, 4), (6, 6)):
        for k in ((1, 1), (2, 2), (3, 2), (1, 3)):
            for st in ((1, 1), (2, 2), (1, 2)):
                for pad in ("VALID", "SAME"):
                    out.append(((h, w), k, st, pad))
    return out


def _conv(ck, cfg, a, b, geo):
    p = pd.pond(CFG[cfg])
    s = p.fixedpoint_config.scaling_factor
    for (h, w), k, st, pad in geo:
        for n, ci, co in ((1, 1, 1), (2, 2, 3)):
            x, f = ramp((n, ci, h, w)), ramp(k + (ci, co), 29, 23)
            what = "conv2d %s %s %s %s %s" % ((n, ci, h, w), k, co, st, pad)
            ck.eq(pd.opened(p, p.conv2d(K(p, a, x), K(p, b, f), st, pad)), plain.conv2d(x, f, st, pad), what)
            if co == 3:
                xf, ff = x / 8.0, f / 4.0
                ck.close(pd.opened(p, p.conv2d(K(p, a, xf, True), K(p, b, ff, True), list(st), pad)), plain.conv2d(xf, ff, st, pad),
                         (k[0] * k[1] * ci * 8 + 2) / s, "scaled " + what)


def _pool(ck, cfg, a, geo):
    p = pd.pond(CFG[cfg])
    s = p.fixedpoint_config.scaling_factor
    for (h, w), k, st, pad in geo:
        x = ramp((2, 3, h, w)) / 4.0
        got = pd.opened(p, p.avgpool2d(K(p, a, x, True), k, st, pad))
        want = plain.patches(x, k, st, pad).sum(axis=(3, 4)).transpose(0, 3, 1, 2) / (k[0] * k[1])
        ck.close(got, want, (np.abs(want).max() * k[0] * k[1] + k[0] * k[1] + 6) / s, "avgpool2d %s %s %s %s" % ((h, w), k, st, pad))


# -- public functions and polynomials ----------------------------------------------------------------
def _public(ck, cfg):
    p = pd.pond(CFG[cfg])
    s = p.fixedpoint_config.scaling_factor
    g, _, B = grid(p)
    v = np.array([x for x in g if x], dtype=np.float64) / s
    vi = _enc(p, v).astype(np.float64) / s
    ok = np.abs(vi) * B > 2 * s
    v, vi = v[ok], vi[ok]
    for k in "uc":
        ck.close(pd.opened(p, p.reciprocal(K(p, k, v, True))), 1.0 / vi, 1.01 / s + 1e-12 * np.abs(1.0 / vi), "reciprocal", [v])
        w, wi = v[vi > 0], vi[vi > 0]
        ck.close(pd.opened(p, p.sqrt(K(p, k, w, True))), np.sqrt(wi), 1.01 / s, "sqrt", [w])
    i = np.array([0, 1, 5, -3, 7, 2**40, -2**40])
    x, y = words.pairs([int(t) for t in i])
    z = p.equal(pd.public(p, arr(x)), pd.public(p, arr(y)))
    ck.eq(pd.open_any(p, z), (x == y).astype(int).astype(object), "equal", [x, y])
    num = np.array([1.0, -2.5, 7.0, 0.5])
    den = np.array([2.0, 0.5, -4.0, 3.0])
    for k in KINDS:
        ck.close(pd.opened(p, p.div(K(p, k, num, True), K(p, "u", den, True))), num / den, (np.abs(num) + np.abs(1 / den) + 2) / s, "division by a public value")


POLY = {
    "sigmoid": [0.5, 0.2159198015, 0, -0.0082176259, 0, 0.0001825597, 0, -0.0000018848, 0, 0.0000000072],
    "relu": [0.44015372000819103, 0.5, 0.11217537671414643, 0, -0.0013660836712429923, 0, 9.009136367360004e-06, 0, -2.1097433984e-08],
    "tanh": [0.0, 0.852721056, 0, -0.12494112, 0, 0.010654528, 0, -0.000423424],
    "log": [-3.35674972, 12.79333646, -26.18955259, 30.24596692, -17.30367641, 3.82474222],
}
TRUE = {"sigmoid": lambda x: 1 / (1 + np.exp(-x)), "relu": lambda x: np.maximum(x, 0), "tanh": np.tanh, "log": np.log}
RANGE = {"sigmoid": (-4, 4, 0.04), "relu": (-4, 4, 0.6), "tanh": (-2, 2, 0.06), "log": (0.5, 1.4, 0.04)}


def _poly(ck, cfg, f, kinds):
    """The approximations stay near the function they approximate on the range they are made for."""
    p = pd.pond(CFG[cfg])
    s = p.fixedpoint_config.scaling_factor
    lo, hi, tol = RANGE[f]
    x = np.linspace(lo, hi, 41)
    for k in kinds:
        got = pd.opened(p, getattr(p, f)(K(p, k, x, True)))
        ck.close(got, TRUE[f](x), tol + 600.0 / s, "%s near the function" % f, [x])


# -- shapes -----------------------------------------------------------------------------------------
def shape_ops():
    """(label, protocol call, numpy) on a tensor of shape (2, 3, 4)."""
    o = []
    for perm in [None] + list(itertools.permutations(range(3))):
        o.append(("transpose %s" % (perm,), lambda p, x, q=perm: p.transpose(x, None if q is None else list(q)), lambda v, q=perm: v.transpose(q)))
    for sh in ([24], [4, 6], [2, 12], [-1, 8], [1, 2, 3, 4], [3, 2, 2, 2]):
        o.append(("reshape %s" % sh, lambda p, x, q=sh: p.reshape(x, q), lambda v, q=sh: v.reshape(q)))
    for ax in (0, 1, 2, 3, -1, -2):
        o.append(("expand_dims %d" % ax, lambda p, x, q=ax: p.expand_dims(x, axis=q), lambda v, q=ax: np.expand_dims(v, q)))
        o.append(("squeeze %d" % ax, lambda p, x, q=ax: p.squeeze(p.expand_dims(x, axis=q), axis=[q]), lambda v, q=ax: v))
    o.append(("squeeze one of two", lambda p, x: p.squeeze(p.expand_dims(p.expand_dims(x, axis=0), axis=0), axis=[1]), lambda v: v[None]))
    o.append(("squeeze all", lambda p, x: p.squeeze(p.expand_dims(p.expand_dims(x, axis=0), axis=2)), lambda v: v))
    for sl in [(slice(0, 1),), (slice(None), 1), (1, 2, 3), (slice(None, None, -1),), (Ellipsis, slice(1, 3)), (0,), (-1, slice(None), slice(0, 4, 2)),
               (slice(None), slice(2, 0, -1), -2), (slice(None), None, 1)]:
        o.append(("index %s" % (sl,), lambda p, x, q=sl: x[q] if len(q) > 1 else x[q[0]], lambda v, q=sl: v[q]))
    for b, e, st in [([0, 0, 0], [1, 2, 3], [1, 1, 1]), ([0, 1, 0], [2, 3, 4], [1, 1, 2]), ([1, 0, 3], [2, 3, 0], [1, 2, -1]), ([0, 0, 1], [2, 1, 2], [1, 1, 1])]:
        o.append(("strided_slice %s %s %s" % (b, e, st), lambda p, x, q=(b, e, st): p.strided_slice(x, *q),
                  lambda v, q=(b, e, st): v[tuple(slice(*t) for t in zip(*q))]))
    for ax in (0, 1, 2):
        n = (2, 3, 4)[ax]
        for ix in ([0], [n - 1, 0], [1, 1, 0]):
            o.append(("gather %d %s" % (ax, ix), lambda p, x, q=(ix, ax): p.gather(x, q[0], axis=q[1]), lambda v, q=(ix, ax): np.take(v, q[0], axis=q[1])))
        o.append(("split %d" % ax, lambda p, x, q=ax, n=n: p.split(x, n, axis=q)[n - 1], lambda v, q=ax, n=n: np.split(v, n, axis=q)[n - 1]))
        o.append(("split uneven %d" % ax, lambda p, x, q=ax, n=n: p.split(x, [1, n - 1], axis=q)[1], lambda v, q=ax, n=n: np.split(v, [1], axis=q)[1]))
        o.append(("concat %d" % ax, lambda p, x, q=ax: p.concat([x, p.gather(x, [0], axis=q)], axis=q), lambda v, q=ax: np.concatenate([v, np.take(v, [0], axis=q)], axis=q)))
        o.append(("negative %d" % ax, lambda p, x, q=ax: x.negative(), lambda v: -v))
        for kd in (False, True):
            o.append(("reduce_sum %d %s" % (ax, kd), lambda p, x, q=(ax, kd): p.reduce_sum(x, axis=q[0], keepdims=q[1]), lambda v, q=(ax, kd): v.sum(axis=q[0], keepdims=q[1])))
        for ex in (False, True):
            for rv in (False, True):
                def cs(v, q=(ax, ex, rv)):
                    w = np.flip(v, q[0]) if q[2] else v
                    c = np.cumsum(w, axis=q[0])
                    c = c - w if q[1] else c
                    return np.flip(c, q[0]) if q[2] else c
                o.append(("cumsum %d %s %s" % (ax, ex, rv), lambda p, x, q=(ax, ex, rv): p.cumsum(x, axis=q[0], exclusive=q[1], reverse=q[2]), cs))
    o.append(("reduce_sum all", lambda p, x: p.reduce_sum(x), lambda v: v.sum()))
    for ax in (0, 1, 2, 3):
        o.append(("stack %d" % ax, lambda p, x, q=ax: p.stack([x, x.negative()], axis=q), lambda v, q=ax: np.stack([v, -v], axis=q)))
        o.append(("stack same %d" % ax, lambda p, x, q=ax: p.stack([x, x], axis=q), lambda v, q=ax: np.stack([v, v], axis=q)))
    for pad in ([(0, 0), (1, 2), (0, 0)], [(1, 0), (0, 0), (0, 1)], [(1, 1), (2, 2), (3, 3)]):
        o.append(("pad %s" % pad, lambda p, x, q=pad: p.pad(x, q) if not isinstance(x, pd.PondMaskedTensor) else p.pad(x.unmasked, q), lambda v, q=pad: np.pad(v, q)))
    o.append(("add_n", lambda p, x: p.add_n([x, x, x.negative(), x]), lambda v: 2 * v))
    return o


def _shapes(ck, cfg, kind, scaled, debug):
    """All operations on one tensor in one session, forwards and backwards."""
    p = pd.pond(CFG[cfg], debug=debug)
    v = ramp((2, 3, 4))
    w = v / 4.0 if scaled else v
    s = p.fixedpoint_config.scaling_factor
    base = _enc(p, w).astype(object) if scaled else w.astype(object)
    x = K(p, kind, w, scaled)
    ops = shape_ops()
    for lab, f, g in ops + ops[::-1]:
        y = f(p, x)
        ck.eq(pd.open_any(p, y, lab), np.asarray(g(base), dtype=object), lab)
        ck.true(bool(y.is_scaled) == scaled, "%s: scaling flag" % lab)
        ck.true(list(y.shape) == list(np.asarray(g(base)).shape), "%s: reported shape" % lab)
    ck.count(0, states=2 * len(ops), transitions=2 * len(ops), traces=1)


def _batches(ck, cfg, kind):
    p = pd.pond(CFG[cfg])
    for n, h, w in ((1, 4, 4), (2, 4, 6)):
        v = ramp((n, h, w, 2))
        for block, pads in (([2, 2], [[0, 0], [0, 0]]), ([2, 3], [[1, 1], [0, 0 if w == 6 else 2]]), ([1, 2], [[0, 0], [2, 0]])):
            if (h + sum(pads[0])) % block[0] or (w + sum(pads[1])) % block[1]:
                continue
            y = p.space_to_batch(K(p, kind, v), block, pads)
            want = tf.space_to_batch(v, block, pads).numpy()
            ck.eq(pd.open_any(p, y), want.astype(object), "space_to_batch")
            z = p.batch_to_space(K(p, kind, want), block, pads)
            ck.eq(pd.open_any(p, z), v.astype(object), "batch_to_space")


def _zeros(ck, cfg):
    p = pd.pond(CFG[cfg])
    for sh in ([1], [2, 3]):
        for sc in (True, False):
            c = p.define_constant(np.zeros(sh), apply_scaling=sc)
            ck.eq(pd.open_any(p, c), np.zeros(sh, dtype=object), "zeros")


def _broadcast(ck, cfg):
    p = pd.pond(CFG[cfg])
    for a, b in itertools.product("pmu", repeat=2):
        for sx, sy in (((2, 3), (3,)), ((3,), (2, 3)), ((2, 1), (1, 3)), ((2, 3), ()), ((), (2, 3)), ((2, 3, 4), (3, 1))):
            x, y = ramp(sx), ramp(sy, 29, 23) + 3
            for op, f in BIN.items():
                if op != "mul" and "u" in a + b and np.broadcast(x, y).shape != (sy if a == "u" else sx):
                    continue  # a public value that widens a private one is refused
                ck.eq(pd.open_any(p, f(K(p, a, x), K(p, b, y))), np.asarray(f(x, y), dtype=object), "%s %s%s %s %s" % (op, a, b, sx, sy))


def run(ck):
    for name in tape_progs():
        for sw in ("0", "1") if ck.quick else ("0", "1", "alt", "tla"):
            ck.case("tape/k2/%s/%s" % (sw, name), _tape, ck, 2, sw, name, kind="tape")
        if name.startswith(("add", "sub", "neg", "square-", "sum")) or not ck.quick:
            ck.case("tape/k3/alt/%s" % name, _tape, ck, 3, "alt", name, kind="tape")
    for cfg in ("64", "100"):
        for op in BIN:
            for i, (a, b) in enumerate(itertools.product(KINDS, repeat=2)):
                ck.case("wide/%s/%s/%s%s" % (cfg, op, a, b), _wide, ck, cfg, op, a, b, ("0", "1", "alt")[i % 3], kind="wide")
        for a in KINDS:
            ck.case("wide1/%s/%s" % (cfg, a), _wide1, ck, cfg, a, kind="wide")
    for cfg in CFG:
        ck.case("numbers/%s" % cfg, _numbers, ck, cfg)
        for i, (a, b) in enumerate(itertools.product(KINDS, repeat=2)):
            ck.case("scaled-mul/%s/%s%s" % (cfg, a, b), _scaled_mul, ck, cfg, a, b, ("0", "1", "alt")[i % 3], kind="scaled")
            ck.case("scaled-add/%s/%s%s" % (cfg, a, b), _scaled_add, ck, cfg, a, b, kind="scaled")
            ck.case("mixed/%s/%s%s" % (cfg, a, b), _mixed, ck, cfg, a, b, kind="scaled")
            ck.case("matmul/%s/%s%s" % (cfg, a, b), _matmul, ck, cfg, a, b, kind="matmul")
        for a in KINDS:
            ck.case("scaled-square/%s/%s" % (cfg, a), _scaled_square, ck, cfg, a, kind="scaled")
        ck.case("trunc-wide/%s" % cfg, _trunc_wide, ck, cfg, kind="truncate")
        ck.case("public/%s" % cfg, _public, ck, cfg)
        for f in POLY:
            ck.case("poly/%s/%s" % (cfg, f), _poly, ck, cfg, f, "pu" if ck.quick else "pmu", kind="poly")
        for a in "pmu":
            for sc in (False, True):
                for dbg in (True, False):
                    if ck.quick and cfg.endswith("ni") and dbg:
                        continue
                    ck.case("shapes/%s/%s/%d/%d" % (cfg, a, sc, dbg), _shapes, ck, cfg, a, sc, dbg, kind="shapes")
            ck.case("batches/%s/%s" % (cfg, a), _batches, ck, cfg, a, kind="shapes")
        ck.case("zeros/%s" % cfg, _zeros, ck, cfg, kind="shapes")
        if not (ck.quick and cfg.endswith("ni")):
            ck.case("broadcast/%s" % cfg, _broadcast, ck, cfg, kind="shapes")
            g = geos(ck)
            n = 12 if ck.quick else 6
            for a, b in list(itertools.product("pm", repeat=2)) + [("u", "u")]:
                for i in range(0, len(g), n):
                    if ck.quick and a + b not in ("pp", "mp") and (i // n) % 2:
                        continue
                    if ck.quick and cfg == "100" and (i // n + "pmu".index(a)) % 3:
                        continue
                    ck.case("conv/%s/%s%s/%d" % (cfg, a, b, i), _conv, ck, cfg, a, b, g[i:i + n], kind="conv")
            for a in "pmu":
                for i in range(0, len(g), 24):
                    ck.case("pool/%s/%s/%d" % (cfg, a, i), _pool, ck, cfg, a, g[i:i + 24], kind="pool")
    for args in ((3, 1, 1, 0, False), (3, 1, 0, 1, False), (3, 1, 0, 0, False), (2, 1, 1, 0, True), (2, 2, 1, 0, True), (2, 3, 1, 0, True)):
        ck.case("trunc-small/%d/%d/%d/%d/%d" % args, _trunc_small, ck, *args, kind="truncate")
