"""C12: SecureNN comparisons, selection, ReLU and maxima agree with the plaintext."""
import itertools

import numpy as np

from vlib import explore, pd, plain, rt, smallring, words
from vlib.words import arr
from checks.c10 import K, CFG
import tensorflow as tf
from tf_encrypted.tensor.native import native_factory
from tf_encrypted.protocol.securenn.odd_tensor import oddint64_factory, oddint32_factory

FLIP = {"0": 0.25, "1": 0.75}
PRIME = {3: 5, 4: 7, 5: 7}


def small(k, flip):
    cfg = smallring.config(k, frac=0, integral=0)

    def setup():
        p = pd.pond(cfg, cls=pd.SecureNN, mode="script", odd_factory=smallring.odd(k), prime_factory=native_factory(tf.int64, PRIME[k]))
        rt.TAPE.pyrandom = lambda: FLIP[flip]
        return p

    return setup


def dom(k):
    """All words but the ends of the ring: lifting shares to the odd ring may add or take one."""
    return np.arange(-(1 << (k - 1)) + 2, (1 << (k - 1)) - 1)


def lost(p, d):
    """Zero shared as the smallest word twice: the one sharing in 2^nbits that the lift to the odd ring gets wrong."""
    if not isinstance(d, pd.PondPrivateTensor):
        d = getattr(d, "unmasked", None)
        if d is None:
            return False
    m = p.tensor_factory.modulus // 2
    a, b = [pd.ints(t) for t in d.unwrapped]
    return (a == -m) & (b == -m)


def judged(ck, p, o, want, name, v):
    z, d = o if isinstance(o, tuple) else (o, None)
    got = _open(p, z)
    if d is not None:
        got = np.where(lost(p, d), want, got)
    ck.eq(got, want, name, v)


def _open(p, z):
    return pd.open_any(p, z)


# -- the most significant bit, complete in everything that its value can depend on -------------------
def _msb_complete(ck, k, flip, part, nparts):
    setup = small(k, flip)

    def prog(p, x):
        d = pd.private(p, x)
        return p.msb(d), d

    cols = explore.discover(setup, prog, 1)
    odd = (1 << k) - 1
    # the share of the input, the masks of the odd ring, the random bit and the rotation are enumerated completely;
    # the draws of the other rings (shares and multiplication triples) follow patterns
    chosen = [0] + [i for i, (_, s) in enumerate(cols) if s in (odd, 2, k)]
    ck.true(sum(s == odd for _, s in cols) >= 2, "two masks from the odd ring")
    sp = explore.Space([explore._dom(cols[i][1]) for i in chosen])
    vals = sp.rows(0, sp.n)
    pats = 4 if k <= 3 else 1
    n = 0
    for q in range(pats):
        m = np.zeros((sp.n, len(cols)), dtype=np.int64)
        for j in range(len(cols)):
            m[:, j] = (0, -1, (j * 7 + part) % 5 - 2, (j * j + 3 * part) % 7 - 3)[(q + part) % 4]
        for i, v in zip(chosen, vals):
            m[:, i] = v
        m = m[part::nparts]
        sec, mm = explore.cross([dom(k)], m)
        n += explore.run_matrix(setup, prog, sec, mm, cols, lambda p, o, s, v: judged(ck, p, o, (s[0] < 0).astype(int), "msb", v))
    ck.count(0, states=n, transitions=n * len(cols), traces=n)
    ck.tapes[ck.label] = dict(rows=n, columns=len(cols), complete=False, complete_in=[cols[i][1] for i in chosen])


# -- every operation, all tapes deviating from a base tape in few places -----------------------------
def wrapk(v, k):
    m = 1 << k
    return ((v + (m >> 1)) % m) - (m >> 1)


def S(p, kind, v):
    return K(p, kind, v)


def one(op, kind):
    def prog(p, x):
        d = K(p, kind, x)
        return getattr(p, op)(d), d

    return prog


def two(op, a, b):
    def prog(p, x, y):
        X, Y = K(p, a, x), K(p, b, y)
        flip = op in ("less", "greater_equal")
        return getattr(p, op)(X, Y), (X - Y if flip else Y - X)

    return prog


PROGS = {
    "msb": (1, one("msb", "p"), lambda x: x < 0),
    "msb-m": (1, one("msb", "m"), lambda x: x < 0),
    "negative": (1, one("is_negative", "p"), lambda x: x < 0),
    "nonneg": (1, one("non_negative", "p"), lambda x: x >= 0),
    "relu": (1, one("relu", "p"), lambda x: np.maximum(x, 0)),
    "select": (3, lambda p, b, x, y: p.select(K(p, "p", b), K(p, "p", x), K(p, "p", y)), lambda b, x, y: np.where(b == 1, y, x)),
    "and": (2, lambda p, a, b: p.bitwise_and(K(p, "p", a), K(p, "p", b)), lambda a, b: a & b),
    "or": (2, lambda p, a, b: p.bitwise_or(K(p, "p", a), K(p, "p", b)), lambda a, b: a | b),
    "xor": (2, lambda p, a, b: p.bitwise_xor(K(p, "p", a), K(p, "p", b)), lambda a, b: a ^ b),
    "not": (1, lambda p, a: p.bitwise_not(K(p, "p", a)), lambda a: 1 - a),
    "less": (2, two("less", "p", "p"), lambda x, y: x < y),
    "less-pu": (2, two("less", "p", "u"), lambda x, y: x < y),
    "greater": (2, two("greater", "p", "p"), lambda x, y: x > y),
    "greater-mp": (2, two("greater", "m", "p"), lambda x, y: x > y),
    "less_equal": (2, two("less_equal", "p", "p"), lambda x, y: x <= y),
    "greater_equal": (2, two("greater_equal", "p", "p"), lambda x, y: x >= y),
    "maximum": (2, two("maximum", "p", "p"), np.maximum),
    "maximum-mu": (2, two("maximum", "m", "u"), np.maximum),
}
BITS = {"and": (0, 1), "or": (0, 1), "xor": (0, 1), "not": (0,), "select": (0,)}


def _dev(ck, k, flip, name, deep):
    nin, prog, want = PROGS[name]
    setup = small(k, flip)
    if nin == 1 or name in ("and", "or", "xor"):
        doms = [dom(k)] * nin
    else:
        q = (1 << (k - 2)) - 1
        doms = [np.arange(-q, q + 1)] * nin
    doms = [np.array([0, 1]) if i in BITS.get(name, ()) else d for i, d in enumerate(doms)]
    cols = explore.discover(setup, prog, nin, init=[d[0] for d in doms])
    nsec = int(np.prod([len(d) for d in doms]))
    d = 2 if len(cols) <= (40 if deep else 26) else 1
    m = explore.deviations(cols, d, bases=(0, -1, 1) if d == 1 or deep else (0, -1))
    cap = (3000000 if deep else 700000) // nsec
    if len(m) > cap:
        d, m = 1, explore.deviations(cols, 1)
    sec, mm = explore.cross(doms, m)
    n = explore.run_matrix(setup, prog, sec, mm, cols,
                           lambda p, o, s, v: judged(ck, p, o, wrapk(np.asarray(want(*s)).astype(np.int64), k), name, v))
    ck.count(0, states=n, transitions=n * len(cols), traces=n)
    ck.tapes[ck.label] = dict(rows=n, columns=len(cols), complete=False, deviations=d)


# -- production ring ---------------------------------------------------------------------------------
def near(*cs):
    return sorted({int(v) for c in cs for v in range(c - 3, c + 4) if -(2**63) <= v < 2**63})


def _wide(ck, flip, part, nparts):
    """Boundary words against boundary masks, in particular masks that bring the opened value next to the ends of the ring."""
    B = 1 << 63

    def setup():
        p = pd.pond(None, cls=pd.SecureNN, mode="script")
        rt.TAPE.pyrandom = lambda: FLIP[flip]
        return p

    def prog(p, x):
        d = pd.private(p, x)
        return p.msb(d), d

    cols = explore.discover(setup, prog, 1)
    big = [i for i, (_, s) in enumerate(cols) if 1 << 62 < s < (1 << 64)]  # the odd ring
    two = [i for i, (_, s) in enumerate(cols) if s == 2]
    rot = [i for i, (_, s) in enumerate(cols) if s == 64]
    ck.true(len(big) >= 2 and len(two) >= 1, "masks and random bit among the draws")
    xs = near(0, 1 << 31, -(1 << 31), B - 4, -B, 1 << 62, -(1 << 62), 1 << 10, 0x5555555555555555, -0x5555555555555556)
    xs = [x for x in xs if -B + 2 <= x <= B - 2]
    rows = []
    for i, x in enumerate(xs):
        masks = set(near(0, -B, B - 4, 1 << 62, -(1 << 62), 1 << 32, 0x5555555555555555))
        for c in near(0, -B, B - 4, x):
            v = (c - x + B) % (1 << 64) - B
            masks.update((v, min(v + 1, B - 1), max(v - 1, -B)))
        for j, r in enumerate(sorted(masks)):
            for r1 in (0, 1, -2, -B + 1)[: 2 if ck.quick else 4]:
                for b in (0, 1):
                    rows.append((x, r, r1, b, (i + j) % 64, (0, 1, -1, -B + 2, B - 1, 12345678901)[(i + j + b) % 6]))
    a = np.array(rows, dtype=np.int64)[part::nparts]
    m = np.zeros((len(a), len(cols)), dtype=np.int64)
    for j in range(len(cols)):
        m[:, j] = (np.arange(len(a)) * (2 * j + 1) + j) % 11 - 5
    m[:, 0] = a[:, 5]
    m[:, big[0]], m[:, big[1]] = a[:, 1], a[:, 2]
    for i in two:
        m[:, i] = a[:, 3]
    for i in rot:
        m[:, i] = a[:, 4]
    n = explore.run_matrix(setup, prog, [a[:, 0]], m, cols, lambda p, o, s, v: judged(ck, p, o, (s[0] < 0).astype(int), "msb", v), chunk=20000)
    ck.count(0, states=n, transitions=n * len(cols), traces=n)


def _odd(ck, bits):
    """The library's odd tensors against integers modulo 2^bits - 1: binds the small odd rings to the code."""
    f = {32: oddint32_factory, 64: oddint64_factory}[bits]
    k, M, H = bits, (1 << bits) - 1, 1 << (bits - 1)
    t = tf.int32 if bits == 32 else tf.int64
    rt.use_config()
    ck.eq(f.modulus, M, "modulus")
    W = [w for w in words.words(bits, 1)]
    x, y = words.pairs(W)
    x, y = np.array(x, dtype=object), np.array(y, dtype=object)

    def pos(w):
        return np.where(w < 0, w + (M + 1), w) % M

    def word(v):
        return np.where(v >= H, v - (M + 1), v)

    def T(v):
        return f.tensor(tf.constant(v.astype(np.int64), dtype=t))

    X, Y = T(x), T(y)
    g = lambda z: z.value.numpy().astype(object)
    ck.eq(g(X), word(pos(x)), "representative", [x])
    ck.eq(g(X + Y), word((pos(x) + pos(y)) % M), "add", [x, y])
    ck.eq(g(X - Y), word((pos(x) - pos(y)) % M), "sub", [x, y])
    w = np.array(W, dtype=object)
    b = T(w).bits(native_factory(t, 107)).value.numpy()
    pw = word(pos(w)) % (1 << bits)
    ck.eq(b, np.array([[(int(v) >> i) & 1 for i in range(bits)] for v in pw]), "bits", [w])
    ck.eq(T(w).cast(f).value.numpy().astype(object), word(pos(w)), "cast to itself")
    ck.eq(T(w).identity().value.numpy().astype(object), word(pos(w)), "identity")
    ck.eq(T(w.reshape(-1, 1))[:, 0].value.numpy().astype(object), word(pos(w)), "slice")
    ck.count(0, states=len(x), transitions=4 * len(x), traces=len(x))


# -- fixed-point operations ---------------------------------------------------------------------------
CFGS = {"64": "low", "64ni": pd.fixed64_ni}


def snn(cfg, debug=True):
    return pd.pond(CFGS[cfg], debug=debug, cls=pd.SecureNN)


def E(p, kind, v, scaled=True):
    """A tensor of the given words, taken for fixed-point numbers or for integers."""
    if kind == "m":
        return p.mask(E(p, "p", v, scaled))
    x = K(p, kind, v)
    x.is_scaled = scaled
    return x


def grid(p):
    """Words."""
    c = p.fixedpoint_config
    s = int(c.scaling_factor)
    m = s * int(c.scaling_base ** c.precision_integral) // 4
    v = [0, 1, 2, 3, s // 2, s - 1, s, s + 1, 3 * s + s // 4, 7 * s, m // 2, m - s, m - 1, m]
    return np.array([-t for t in v[:0:-1]] + v)


def enc(p, v):
    return np.asarray(v)


def of_number(p, v):
    return int(v * p.fixedpoint_config.scaling_factor)


CMP = {"less": np.less, "less_equal": np.less_equal, "greater": np.greater, "greater_equal": np.greater_equal}


def _cmp(ck, cfg, a, b, debug):
    p = snn(cfg, debug)
    v = grid(p)
    x, y = [t.ravel() for t in np.meshgrid(v, v, indexing="ij")]
    ex, ey = enc(p, x), enc(p, y)
    for name, f in CMP.items():
        z = getattr(p, name)(E(p, a, x, True), E(p, b, y, True))
        ck.true(not z.is_scaled, "%s gives unscaled bits" % name)
        ck.eq(_open(p, z), f(ex, ey).astype(int), name, [x, y])
    z = p.maximum(E(p, a, x, True), E(p, b, y, True))
    ck.eq(_open(p, z), np.maximum(ex, ey), "maximum", [x, y])
    i, j = np.arange(-5, 6), np.arange(5, -6, -1)
    for name, f in CMP.items():
        ck.eq(_open(p, getattr(p, name)(K(p, a, i), K(p, b, j))), f(i, j).astype(int), name + " of integers", [i, j])
    ck.eq(_open(p, p.maximum(K(p, a, i), K(p, b, j))), np.maximum(i, j), "maximum of integers", [i, j])
    # broadcasting
    fi, fj = i[:, None], j[None, :3]
    if a in "uc" and b in "pm":  # a public operand cannot widen a private one
        fj = fj + 0 * fi
    if b in "uc" and a in "pm":
        fi = fi + 0 * fj
    ck.eq(_open(p, p.less(K(p, a, fi), K(p, b, fj))), (fi < fj).astype(int), "less with broadcasting")


def _unary(ck, cfg, a, debug):
    p = snn(cfg, debug)
    v = grid(p)
    e = v
    for n, f in (("msb", e < 0), ("is_negative", e < 0), ("non_negative", e >= 0)):
        z = getattr(p, n)(E(p, a, v, True))
        ck.true(not z.is_scaled, "%s gives unscaled bits" % n)
        ck.eq(_open(p, z), f.astype(int), n, [v])
    z = p.relu(E(p, a, v, True))
    ck.true(z.is_scaled, "relu keeps the scaling")
    ck.eq(_open(p, z), np.maximum(e, 0), "relu", [v])
    i = np.array([-3, -1, 0, 1, 4])
    ck.eq(_open(p, p.relu(K(p, a, i))), np.maximum(i, 0), "relu of integers", [i])
    for shape in ((4, 3, 5), (60,), (2, 30), (12, 1, 5)):
        t = np.resize(v, 60).reshape(shape)
        for size in (None, 1, 4, 7, 12, 15, 59, 60, 61):
            r, d = p.relu_with_cmp(E(p, a, t, True), max_size=size)
            ck.eq(_open(p, r), np.maximum(enc(p, t), 0), "relu of %s in parts of %s" % (shape, size))
            ck.eq(_open(p, d), (enc(p, t) >= 0).astype(int), "derivative of %s in parts of %s" % (shape, size))
    for num in (0, 1, 2.5, -3):
        en = of_number(p, num)
        x = E(p, a, v, True)
        ck.eq(_open(p, p.less(x, num)), (e < en).astype(int), "less than %s" % num)
        ck.eq(_open(p, p.greater(x, num)), (e > en).astype(int), "greater than %s" % num)
        ck.eq(_open(p, p.greater_equal(x, num)), (e >= en).astype(int), "at least %s" % num)
        ck.eq(_open(p, p.less_equal(x, num)), (e <= en).astype(int), "at most %s" % num)


def _bits(ck, cfg, a, b, debug):
    p = snn(cfg, debug)
    x, y = np.array([0, 0, 1, 1]), np.array([0, 1, 0, 1])
    for n, f in (("and", x & y), ("or", x | y), ("xor", x ^ y)):
        ck.eq(_open(p, getattr(p, "bitwise_" + n)(K(p, a, x), K(p, b, y))), f, n)
    ck.eq(_open(p, p.bitwise_not(K(p, a, x))), 1 - x, "not")
    g = grid(p)
    u, w = g, g[::-1].copy()
    for bits in (0, 1):
        c = np.full(len(g), bits)
        c[::3] ^= 1
        for s in (True, False):
            u1, w1 = (u, w) if s else (np.arange(len(g)) - 9, 7 - np.arange(len(g)))
            z = p.select(K(p, "p" if a != "u" or b != "u" else "u", c), E(p, a, u1, s), E(p, b, w1, s))
            eu, ew = (enc(p, u1), enc(p, w1)) if s else (u1, w1)
            ck.eq(_open(p, z), np.where(c == 1, ew, eu), "select")
    z = p.select(K(p, a, 1), E(p, b, u, True), E(p, b, w, True))
    ck.eq(_open(p, z), enc(p, w), "select everything")


def _public(ck, cfg):
    p = snn(cfg)
    W = arr(words.words(64, 1))
    u = K(p, "u", W)
    for s in range(2):
        ck.eq(p.bits(u).unwrapped[s].value.numpy(), np.array([[(int(v) >> i) & 1 for i in range(64)] for v in W]), "bits")
    ck.eq(_open(p, p.lsb(u)), np.array([int(v) & 1 for v in W]), "lsb of public words")
    ck.eq(_open(p, p.equal_zero(u)), np.array([int(v == 0) for v in W]), "equal_zero")
    z = p.equal_zero(u, p.prime_factory)
    ck.eq(_open(p, z), np.array([int(v == 0) for v in W]), "equal_zero in another ring")
    ck.eq(_open(p, p.bits(u, p.prime_factory)), np.array([[(int(v) >> i) & 1 for i in range(64)] for v in W]), "bits in another ring")


def vectors(n, vals=(-1, 0, 1)):
    return np.array(list(itertools.product(vals, repeat=n)))


def points(ck, idx, e, axis, what):
    """The index points at a maximum (which one, on ties, is not specified)."""
    i = np.asarray(idx).astype(np.int64)
    ck.eq(idx, i, what + " is a whole number")
    ck.within(i, np.zeros_like(i), np.full_like(i, e.shape[axis] - 1), what)
    ck.eq(np.take_along_axis(e, np.expand_dims(i, axis), axis), e.max(axis=axis, keepdims=True), what)


def _max(ck, cfg, a, n, debug):
    """All vectors over a three-letter alphabet (all orders and ties), along every axis."""
    p = snn(cfg, debug)
    m = vectors(n) if n < 6 else vectors(n)[:: 1 if not ck.quick else 3]
    sc = np.array([-25, 1, 2])
    for scaled in (True, False):
        t = sc[m + 1] if scaled else m * 5
        e = enc(p, t) if scaled else t
        for axis, arr_, ee in ((1, t, e), (-1, t, e), (0, t.T, e.T), (1, t.T[None], e.T[None])):
            ck.eq(_open(p, p.reduce_max(E(p, a, arr_, scaled), axis=axis)), ee.max(axis=axis), "reduce_max axis %d" % axis)
            z = p.argmax(E(p, a, arr_, scaled), axis=axis)
            points(ck, pd.opened(p, z), ee, axis, "argmax axis %d" % axis)
            mx, am = p.reduce_max_with_argmax(E(p, a, arr_, scaled), axis=axis)
            ck.eq(_open(p, mx), ee.max(axis=axis), "maximum of reduce_max_with_argmax")
            points(ck, pd.opened(p, am), ee, axis, "index of reduce_max_with_argmax")


def _pool(ck, cfg, a, debug):
    p = snn(cfg, debug)
    rs = np.random.RandomState(5)
    n = 0
    for (h, w), pool, st, pad, ch in itertools.product(
            [(4, 4), (5, 4), (3, 6), (2, 2), (5, 5)], [(1, 1), (2, 2), (3, 3), (2, 3), (1, 2), (3, 1)],
            [(1, 1), (2, 2), (1, 2), (3, 1)], ["VALID", "SAME"], [(1, 1), (2, 3)]):
        if pad == "VALID" and (h < pool[0] or w < pool[1]):
            continue
        if ck.quick and n % 3 != 0 and (h, w) != (5, 4):
            n += 1
            continue
        n += 1
        v = rs.randint(-16, 16, size=ch + (h, w))
        if pad == "SAME" and any(-(-d // s) * s != d or q != s for d, s, q in zip((h, w), st, pool)):
            v = abs(v)  # padding with zeros in front of negative values: see the known finding below
        z = p.maxpool2d(E(p, a, v, True), list(pool) if n % 2 else pool, list(st) if n % 2 else st, pad)
        want = plain.maxpool(enc(p, v), pool, st, pad)
        ck.eq(_open(p, z), want, "maxpool2d %s of %s strides %s %s" % (pool, v.shape, st, pad))


def _pool_neg(ck):
    p = snn("64")
    v = -1 - np.arange(9).reshape(1, 1, 3, 3)
    z = p.maxpool2d(E(p, 'p', v), (2, 2), (1, 1), "SAME")
    got, want = _open(p, z), plain.maxpool(enc(p, v), (2, 2), (1, 1), "SAME")
    ck.count(1)
    if not np.array_equal(got, want):
        ck.fail("SAME max pooling pads with zeros: a window at the border of a negative image gives 0 instead of its maximum", key="finding:maxpool-same-negative")


def run(ck):
    q = ck.quick
    for bits in (32, 64):
        ck.case("odd-ring/%d" % bits, _odd, ck, bits)
    for flip in FLIP:
        ck.case("msb-complete/3/%s" % flip, _msb_complete, ck, 3, flip, 0, 1)
        parts = 8
        for i in range(0, parts, 2 if q else 1):
            ck.case("msb-complete/4/%s/%d" % (flip, i), _msb_complete, ck, 4, flip, i if flip == "0" or not q else i + 1, parts)
        for i in range(2 if q else 4):
            ck.case("msb-words/%s/%d" % (flip, i), _wide, ck, flip, i, 2 if q else 4)
        for name in PROGS:
            ck.case("tape/3/%s/%s" % (name, flip), _dev, ck, 3, flip, name, not q)
            if not q:
                ck.case("tape/4/%s/%s" % (name, flip), _dev, ck, 4, flip, name, True)
    for cfg in CFGS:
        for dbg in (True, False):
            d = "" if dbg else "/memoize"
            kinds = "pmuc" if dbg else "pm"
            for a in kinds:
                ck.case("unary/%s/%s%s" % (cfg, a, d), _unary, ck, cfg, a, dbg)
                for b in kinds:
                    ck.case("compare/%s/%s%s%s" % (cfg, a, b, d), _cmp, ck, cfg, a, b, dbg)
                    if cfg == "64":
                        ck.case("bits/%s/%s%s%s" % (cfg, a, b, d), _bits, ck, cfg, a, b, dbg)
                if a != "c":
                    for n in (1, 2, 3, 4) + (() if q else (5, 6)):
                        if dbg or n == 3:
                            ck.case("maximum/%s/%s/%d%s" % (cfg, a, n, d), _max, ck, cfg, a, n, dbg)
                    if cfg == "64" or not q:
                        ck.case("maxpool/%s/%s%s" % (cfg, a, d), _pool, ck, cfg, a, dbg)
        ck.case("public/%s" % cfg, _public, ck, cfg)
    ck.case("maxpool-negative", _pool_neg, ck, key="finding:maxpool-same-negative")
