"""C14: tensor back-ends implement exact modular arithmetic."""
import itertools

import numpy as np

from vlib import pd, plain, rt, words
from checks import c12
import tensorflow as tf
from tf_encrypted.tensor import int1factory, int8factory, int16factory, int32factory, int64factory, int100factory
from tf_encrypted.tensor.native import native_factory
from tf_encrypted.tensor.int100 import crt_factory

P107 = native_factory(tf.int64, 107)
P5 = native_factory(tf.int32, 5)
PBIG = native_factory(tf.int64, (1 << 31) - 1)
M100 = int100factory.modulus


class Be:
    """A back-end: how to make tensors of given integers and to read them back as signed (or least) residues."""

    def __init__(self, name, f, level=1, neg=True):
        self.name, self.f, self.neg = name, f, neg
        self.m = f.modulus
        self.crt = name == "crt100"
        self.bits = None if self.crt or not neg else f.nbits

    def t(self, v):
        v = np.asarray(v)
        if v.dtype == object:
            v = v if self.crt else v.astype(np.int64)
        if self.bits and not self.crt:
            v = v.astype({8: np.int8, 16: np.int16, 32: np.int32, 64: np.int64}[self.bits])
        return self.f.tensor(v)

    def get(self, t):
        if self.crt:
            return pd.crt_value(t)
        return np.asarray(t.value).astype(object)

    def norm(self, v):
        v = np.asarray(v, dtype=object)
        v = (v.reshape(-1) % self.m).reshape(v.shape)
        if self.neg:
            return np.where(v.reshape(-1) > (self.m - 1) // 2, v.reshape(-1) - self.m, v.reshape(-1)).reshape(v.shape)
        return v

    def words(self, level=1):
        if self.crt:
            w = set()
            for c in (0, 1 << 31, 1 << 62, 1 << 90, M100 // 2, M100 // 2 - M100 // 500, M100 // 3, 3 << 97, (1 << 101) - (1 << 96), (1 << 100) - (1 << 96), 1 << 96, 10 ** 15, 1 << 16, 1 << 32):
                for d in range(-3, 4):
                    w.update((c + d, -c + d))
            h = M100 // 2
            return sorted(v for v in w if -h <= v <= h)
        if not self.neg:
            if self.m < 200:
                return list(range(self.m))
            return sorted({v % self.m for c in (0, self.m // 2, self.m, 1 << 16, 12345678) for v in range(c - 3, c + 4)})
        if self.bits == 8:
            return list(range(-128, 128))
        return words.words(self.bits, level)


BES = {b.name: b for b in (
    Be("int8", int8factory), Be("int16", int16factory), Be("int32", int32factory), Be("int64", int64factory),
    Be("mod107", P107, neg=False), Be("mod5", P5, neg=False), Be("mod2147483647", PBIG, neg=False), Be("crt100", int100factory))}


def shaped(b, shape, seed=3):
    """A tensor cycling through the boundary words."""
    w = b.words(0) if b.bits else b.words()
    n = int(np.prod(shape))
    rs = np.random.RandomState(seed)
    ix = rs.randint(0, len(w), n)
    v = np.array([w[i] for i in ix], dtype=object).reshape(shape)
    return v


def _pairs(ck, b):
    W = b.words()
    x, y = words.pairs(W)
    X, Y = b.t(x), b.t(y)
    ck.eq(b.get(X), b.norm(x), "encoding", [x])
    for what, z, w in (("add", X + Y, x + y), ("sub", X - Y, x - y), ("mul", X * Y, x * y),
                       ("add()", X.add(Y), x + y), ("sub()", X.sub(Y), x - y), ("mul()", X.mul(Y), x * y)):
        same(ck, b, z, w, what, [x, y])
    for f in (None, int8factory, int64factory):
        e = X.equal(Y, f) if f else X.equal(Y)
        got = np.asarray(e.value).astype(int) if not pd.is_crt(e) else pd.crt_value(e)
        ck.eq(got, (b.norm(x) == b.norm(y)).astype(int), "equal", [x, y])
        e = X.equal_zero(f) if f else X.equal_zero()
        got = np.asarray(e.value).astype(int) if not pd.is_crt(e) else pd.crt_value(e)
        ck.eq(got, (b.norm(x) == 0).astype(int), "equal_zero", [x])
    if b.bits:
        for what, z, w in (("and", X & Y, x & y), ("or", X | Y, x | y), ("xor", X ^ Y, x ^ y)):
            ck.eq(b.get(z), b.norm(w), what, [x, y])
    ck.count(0, states=len(x), transitions=12 * len(x), traces=12)


def f_bits(b):
    return {tf.int8: 8, tf.int16: 16, tf.int32: 32, tf.int64: 64}[b.f.native_type]


def same(ck, b, z, w, what, inputs=None):
    """z is w, and the back-end itself says so too."""
    w = b.norm(w)
    ck.eq(b.get(z), w, what, inputs)
    e = z.equal(b.t(w), int64factory)
    ck.true(bool(np.all(np.asarray(e.value) == 1)), what + ": equal to its expected value")


def _unary(ck, b):
    W = np.array(b.words(), dtype=object)
    X = b.t(W)
    same(ck, b, X.negative(), -W, "negative", [W])
    if hasattr(X, "__neg__"):
        ck.eq(b.get(-X), b.norm(-W), "-x", [W])
    ck.eq(b.get(X.identity()), b.norm(W), "identity")
    for c in (0, 1, -1, 2, 3, 100):
        for what, z, w in (("tensor + number", X + c, W + c), ("number + tensor", c + X, W + c), ("tensor - number", X - c, W - c),
                           ("number - tensor", c - X, c - W), ("tensor * number", X * c, W * c), ("number * tensor", c * X, W * c)):
            ck.eq(b.get(z), b.norm(w), "%s (%d)" % (what, c), [W])
    if b.bits:
        ck.eq(b.get(~X), b.norm(~W), "invert", [W])
        n = b.bits
        for s in range(n):
            ck.eq(b.get(X << s), b.norm(W * (1 << s)), "left shift by %d" % s, [W])
            ck.eq(b.get(X >> s), b.norm(W >> s), "right shift by %d" % s, [W])
            ck.eq(b.get(X.truncate(s)), b.norm(W >> s), "truncate by %d bits" % s, [W])
            ck.eq(b.get(X.logical_rshift(s)), b.norm((W % b.m) >> s), "logical right shift by %d" % s, [W])
        for k in [2, 3, 7, 10, 100, 127] + ([1 << 20, 3 ** 12] if n > 16 else []):
            ck.eq(b.get(X % k), b.norm(W % k), "mod %d" % k, [W])
        for base in (3, 5, 7) if n > 16 else (3,):
            for a in (1, 2, 3):
                ck.eq(b.get(X.truncate(a, base)), b.norm(W // base ** a), "truncate by %d digits to base %d" % (a, base), [W])
        for size in (None, 1, 3, n - 1, n):
            z = X.bits(bitsize=size)
            ck.eq(b.get(z), np.array([[(int(v) >> i) & 1 for i in range(size or n)] for v in W]), "bits %s" % size, [W])
            for f in (int8factory, P107, int1factory):
                got = np.asarray(X.bits(f, bitsize=size).value).astype(int)
                ck.eq(got, np.array([[(int(v) >> i) & 1 for i in range(size or n)] for v in W]), "bits %s into another type" % size, [W])
        for o in ("int8", "int16", "int32", "int64"):
            ck.eq(BES[o].get(X.cast(BES[o].f)), BES[o].norm(W), "cast to " + o, [W])
    elif not b.crt:
        n = (b.m - 1).bit_length()
        for f, k in itertools.product((None, int64factory, int8factory), (None, 1, n, n + 1)):
            if k and k >= f_bits(b):
                continue
            got = np.asarray(X.bits(f, bitsize=k).value).astype(int)
            ck.eq(got, np.array([[(int(v) >> i) & 1 for i in range(k or n)] for v in W]), "bits %s" % k, [W])
        for k in (2, 3, 50):
            if k <= b.m:
                ck.eq(b.get(X % k), b.norm(W % k), "mod %d" % k, [W])
    if b.neg and not b.crt:
        ck.eq(np.asarray(X.to_native()).astype(object), W, "to_native")
    ck.count(0, states=len(W), transitions=20 * len(W), traces=20)


def _crt(ck):
    b = BES["crt100"]
    W = np.array(b.words(), dtype=object)
    X = b.t(W)
    # the recombination rounds in single precision: stay away from the ends of the ring
    S = np.array([v for v in W if abs(v) < M100 // 2 - M100 // 1000], dtype=object)
    XS = b.t(S)
    for k in (2, 3, 10, 1 << 8, 1 << 15, 1 << 16, 3 ** 9, 10 ** 4):
        ck.eq(b.get(XS % k), b.norm(S % k), "mod %d" % k, [S])
    for base in (2, 3, 10):
        for a in (1, 2, 4, 9) if base == 3 else (1, 2, 4) if base == 10 else (1, 5, 8, 16):
            ck.eq(b.get(XS.truncate(a, base)), b.norm(S // base ** a), "truncate %d^%d" % (base, a), [S])
    for s in (1, 7, 16):
        ck.eq(b.get(XS.right_shift(s)), b.norm(S >> s), "right shift %d" % s, [S])
    small = np.array([v for v in W if -(1 << 31) <= v < 1 << 31], dtype=object)
    ck.eq(np.asarray(b.t(small).to_native()).astype(object), small, "to_native", [small])
    pos = np.array([v for v in S if v >= 0], dtype=object)
    n = (M100 - 1).bit_length()
    for f in (None, P107, int64factory):
        z = b.t(pos).bits(f)
        got = pd.crt_value(z) if pd.is_crt(z) else np.asarray(z.value)
        ck.eq(got.astype(int), np.array([[(int(v) >> i) & 1 for i in range(n)] for v in pos]), "bits", [pos])
    z = XS.bits(ensure_positive_interpretation=True)
    ck.eq(pd.crt_value(z).astype(int), np.array([[(int(v % M100) >> i) & 1 for i in range(n)] for v in S]), "bits of the least residue", [S])
    big = X.to_bigint()
    ck.eq(np.asarray([int(v) for v in big], dtype=object), W % M100, "to_bigint", [W])
    for d in (np.int32, np.int64, object):
        v = np.array([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 77], dtype=d)
        ck.eq(b.get(int100factory.tensor(v)), v, "tensor of %s" % d)
    for d in (tf.int32, tf.int64):
        v = np.array([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 77])
        ck.eq(b.get(int100factory.tensor(tf.constant(v, dtype=d))), v, "tensor of %s" % d)
    v = np.array([2 ** 62 - 5, -2 ** 63, 2 ** 63 - 1])
    ck.eq(b.get(int100factory.tensor(tf.constant(v))), v.astype(object), "tensor of large words")
    ck.count(0, states=len(W), transitions=20 * len(W), traces=1)


def omat(x, y):
    """Exact batched matrix product."""
    return np.einsum("...ij,...jk->...ik", x, y) if x.dtype != object else _omat(x, y)


def _omat(x, y):
    bs = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
    x, y = np.broadcast_to(x, bs + x.shape[-2:]), np.broadcast_to(y, bs + y.shape[-2:])
    o = np.zeros(bs + (x.shape[-2], y.shape[-1]), dtype=object)
    for i in np.ndindex(*bs):
        o[i] = x[i].dot(y[i])
    return o


def _matmul(ck, b):
    shapes = [((1, 1), (1, 1)), ((2, 3), (3, 4)), ((5, 1), (1, 5)), ((1, 7), (7, 1)), ((4, 33), (33, 2))]
    if not b.crt:
        shapes += [((2, 2, 3), (2, 3, 1)), ((2, 1, 3, 2), (2, 1, 2, 2))]
    else:
        shapes += [((2, n), (n, 2)) for n in (1023, 1024, 1025, 2048, 2050)]
    for i, (s, t) in enumerate(shapes):
        x, y = shaped(b, s, i), shaped(b, t, i + 50)
        if not b.neg and b.m > 1 << 30:
            y = y % 1000  # sums of products must fit the native type
        if b.crt and s[-1] > 1000:
            x = x * 0 + M100 - 1 if i % 2 else x  # all residues maximal
            y = y * 0 + M100 - 1 if i % 2 else y
        same(ck, b, b.t(x).matmul(b.t(y)), omat(x, y), "matmul %s %s" % (s, t))


def _reduce(ck, b):
    for shape in ((5,), (2, 3), (3, 2, 4), (1, 1), (300,), (2, 1, 3, 2)):
        x = shaped(b, shape, len(shape))
        X = b.t(x)
        axes = list(range(-len(shape), len(shape))) + [None]
        for ax in axes:
            for kd in (True, False):
                same(ck, b, X.reduce_sum(ax, kd), np.array(np.sum(x, axis=ax, keepdims=kd), dtype=object), "reduce_sum axis %s" % ax)
        for ax in axes[:-1]:
            for ex, rev in itertools.product((False, True), repeat=2):
                v = np.flip(x, ax) if rev else x
                c = np.cumsum(v, axis=ax)
                c = c - v if ex else c
                c = np.flip(c, ax) if rev else c
                same(ck, b, X.cumsum(ax, ex, rev), c, "cumsum axis %s exclusive %s reverse %s" % (ax, ex, rev))
            if b.bits:
                same(ck, b, X.reduce_max(ax), np.max(x, axis=ax), "reduce_max axis %s" % ax)
                same(ck, b, X.reduce_max(ax, True), np.max(x, axis=ax, keepdims=True), "reduce_max axis %s" % ax)


def _structure(ck, b, small=False):
    """Operations that move entries. `small` leaves out those the boolean type does not have."""
    f = b.f

    def same(z, w, what):
        ck.eq(b.get(z), b.norm(w), what)

    for shape in ((4,), (2, 3), (2, 3, 4), (1, 2, 1, 3)):
        x, y = shaped(b, shape, 1), shaped(b, shape, 2)
        X, Y = b.t(x), b.t(y)
        n = len(shape)
        for perm in itertools.permutations(range(n)):
            same(X.transpose(list(perm)), x.transpose(perm), "transpose %s" % (perm,))
        same(X.reshape([-1]), x.reshape(-1), "reshape")
        same(X.reshape([1] + list(shape)), x.reshape((1,) + shape), "reshape")
        for ax in range(-n - 1, n + 1):
            same(X.expand_dims(ax), np.expand_dims(x, ax), "expand_dims %d" % ax)
            same(f.stack([X, Y, X], axis=ax), np.stack([x, y, x], ax), "stack %d" % ax)
        for ax in range(-n, n):
            same(f.concat([X, Y], axis=ax), np.concatenate([x, y], ax), "concat %d" % ax)
            if ax >= 0:
                same(X.gather([0, shape[ax] - 1, 0], axis=ax), np.take(x, [0, shape[ax] - 1, 0], ax), "gather %d" % ax)
            for parts in [q for q in range(1, shape[ax] + 1) if shape[ax] % q == 0]:
                for z, w in zip(X.split(parts, axis=ax), np.split(x, parts, ax)):
                    same(z, w, "split %d along %d" % (parts, ax))
            if shape[ax] > 1:
                for z, w in zip(X.split([1, shape[ax] - 1], axis=ax), np.split(x, [1], ax)):
                    same(z, w, "split by sizes along %d" % ax)
            if shape[ax] == 1:
                same(X.squeeze([ax]), np.squeeze(x, ax), "squeeze %d" % ax)
            if not small and not b.crt:
                same(X.reverse([ax]), np.flip(x, ax), "reverse %d" % ax)
        same(X.squeeze(), np.squeeze(x), "squeeze")
        same(X[0], x[0], "index")
        same(X[..., -1], x[..., -1], "last")
        same(X[..., ::2], x[..., ::2], "step")
        same(X[..., None], x[..., None], "new axis")
        same(X.strided_slice(([0] * n, list(shape), [2] * n), {}), x[tuple(slice(None, None, 2) for _ in shape)], "strided_slice")
        same(X.strided_slice(([0] * n, [1] * n), dict(begin_mask=1, end_mask=1)), x[(slice(None),) + (slice(0, 1),) * (n - 1)], "strided_slice with masks")
        if not b.crt:
            c = (np.arange(x.size) % 3 == 0).reshape(shape)
            same(f.where(tf.constant(c), X, Y), np.where(c, x, y), "where")
        if not small and not b.crt:
            same(f.tile(X, [2] * n), np.tile(x, [2] * n), "tile")
            pads = [[i % 2, (i + 1) % 3] for i in range(n)]
            same(f.pad(X, pads), np.pad(x, pads), "pad")
            for z, w in ((f.ones(list(shape)), 1), (f.zeros(list(shape)), 0), (f.ones_like(X), 1), (f.zeros_like(X), 0), (f.ones(tf.TensorShape(shape)), 1)):
                same(z, np.full(shape, w), "ones and zeros")
        V = f.variable(x.astype(np.int64) % 2 if small else X)
        same(V, x, "variable")
        same(V.read_value(), x, "read_value")
        V.assign(Y)
        same(V.read_value(), y, "value after assign")
        same(f.constant(x if b.crt or b.name == 'int128' else b.t(x).value.numpy() if b.bits else x.astype(np.int64)), x, "constant")
    if not small and not b.crt:
        x = shaped(b, (4,), 9)
        idx = [[3], [1], [0], [1]]
        w = np.zeros(5, dtype=object)
        for i, v in zip(idx, x):
            w[i[0]] += v
        if b.bits:
            same(b.t(x).scatter_nd(idx, [5]), w, "scatter_nd")
            same(f.scatter_nd(idx, b.t(x), [5]), w, "scatter_nd")
    if not small:
        x = shaped(b, (4, 2, 4, 1), 10)
        X = b.t(x)
        for bs, cr in (([2, 2], [[0, 0], [0, 0]]), ([1, 2], [[0, 0], [1, 0]]), ([2, 1], [[1, 1], [0, 1]])):
            same(X.batch_to_space(bs, cr), tf.batch_to_space(tf.constant(np.arange(32).reshape(x.shape)), bs, cr).numpy().choose(x.reshape(-1)) if False else
                 _by_index(lambda t: tf.batch_to_space(t, bs, cr), x), "batch_to_space")
        for bs, pd_ in (([2, 2], [[0, 0], [0, 0]]), ([1, 2], [[0, 0], [1, 1]]), ([2, 1], [[1, 1], [0, 1]])):
            same(X.space_to_batch(bs, pd_), _by_index(lambda t: tf.space_to_batch(t, bs, pd_), x), "space_to_batch")


def _by_index(op, x):
    """The plain operation on positions (one-based, 0 = filled in), looked up in x."""
    i = op(tf.constant(np.arange(1, x.size + 1).reshape(x.shape))).numpy()
    flat = np.concatenate([[0], x.reshape(-1)])
    return flat[i]


def _conv(ck, b):
    n = 0
    for (h, w), k, st, pad, (ci, co), bs in itertools.product(
            [(4, 4), (5, 3), (3, 6)], [(1, 1), (2, 2), (3, 3), (2, 3), (3, 1)], [(1, 1), (2, 2), (1, 2), (2, 1), (3, 3)],
            ["SAME", "VALID"], [(1, 1), (2, 3)], [1, 2]):
        if pad == "VALID" and (h < k[0] or w < k[1]):
            continue
        n += 1
        if ck.quick and n % 5:
            continue
        x, y = shaped(b, (bs, ci, h, w), n), shaped(b, k + (ci, co), n + 1)
        X = b.t(x)
        what = "%s * %s strides %s %s" % (x.shape, y.shape, st, pad)
        if b.neg:
            ck.eq(b.get(X.conv2d(b.t(y), list(st), pad)), b.norm(plain.conv2d(x, y, st, pad)), "conv2d " + what)
        ck.eq(b.get(X.im2col(k[0], k[1], list(st), pad)), b.norm(plain.im2col(x, k, st, pad)), "im2col " + what)
        p = plain.im2patches(x, k, st, pad)
        ck.eq(b.get(X.im2patches(k, list(st), pad)), b.norm(p), "im2patches " + what)
        if b.bits and b.bits >= 32:
            q = shaped(b, p.shape, n + 2)
            ck.eq(b.get(b.t(q).patches2im(k, list(st), pad, img_size=(h, w))), b.norm(plain.patches2im(q, k, st, pad, (h, w))), "patches2im " + what)
    ck.count(0, states=n, transitions=4 * n, traces=n)


def _bool(ck):
    f = int1factory
    x, y = np.array([0, 0, 1, 1]), np.array([0, 1, 0, 1])
    X, Y = f.tensor(x.astype(bool)), f.tensor(y.astype(bool))
    g = lambda z: np.asarray(z.value).astype(int)
    for what, z, w in (("xor", X ^ Y, x ^ y), ("and", X & Y, x & y), ("or", X | Y, x | y), ("not", ~X, 1 - x), ("equal", X.equal(Y), (x == y).astype(int)),
                       ("logical_xor", X.logical_xor(Y), x ^ y), ("logical_and", X.logical_and(Y), x & y), ("logical_or", X.logical_or(Y), x | y),
                       ("logical_not", X.logical_not(), 1 - x), ("identity", X.identity(), x)):
        ck.eq(g(z), w, what, [x, y])
    ck.eq(np.asarray(X.equal(Y, int64factory).value), (x == y).astype(int), "equal into another type")
    for o in ("int8", "int16", "int32", "int64"):
        ck.eq(BES[o].get(X.cast(BES[o].f)), x, "cast to " + o)
        ck.eq(g(BES[o].t(x).cast(f)), x, "cast from " + o)
    for v in (np.array([0, 1, 1]), np.array([False, True])):
        ck.eq(g(f.tensor(tf.constant(v))), v.astype(int), "tensor")


class BoolBe(Be):
    def __init__(self):
        self.name, self.f, self.neg, self.m, self.crt, self.bits = "bool", int1factory, False, 2, False, None

    def t(self, v):
        return self.f.tensor(np.asarray(v).astype(bool))

    def words(self, level=1):
        return [0, 1]


# -- sampling -------------------------------------------------------------------------------------------
def _sample(ck, b):
    """Draws become ring elements one to one, and the draws cover the ring (or the bound)."""
    f = b.f
    rt.use_config()
    rt.set_mode("script")

    def draws(fn, vals, batch):
        rt.use_config()
        rt.set_mode("script")
        rt.TAPE.batch = batch
        rt.TAPE.default = lambda c: vals
        t = fn()
        return t, set(rt.TAPE.domains.values())

    if b.bits:
        W = np.array(b.words(), dtype=np.int64)
        for what, fn in (("sample_uniform", lambda: f.sample_uniform([len(W)])), ("sample_seeded_uniform", lambda: f.sample_seeded_uniform([len(W)], rt.TAPE.secure_seed()))):
            t, sizes = draws(fn, W, len(W))
            ck.eq(b.get(t), W, what)
            # (the library asks for [min, max): the largest word is never drawn, which is not held against it)
            ck.true(sizes and all(b.m - 1 <= s <= b.m for s in sizes), "%s draws from the whole ring: %s" % (what, sizes))
    elif not b.crt:
        n = min(b.m, 2000)
        W = np.arange(n)
        for what, fn in (("sample_uniform", lambda: f.sample_uniform([n])), ("sample_seeded_uniform", lambda: f.sample_seeded_uniform([n], rt.TAPE.secure_seed()))):
            t, sizes = draws(fn, W, n)
            ck.eq(b.get(t), W, what)
            ck.eq(sorted(sizes), [b.m], "range of " + what)
        t, sizes = draws(lambda: f.sample_uniform([n], minval=1), W, n)
        ck.eq(sorted(sizes), [b.m - 1], "range of sample_uniform from 1")
        ck.true(min(b.get(t)) == 1 and 0 not in set(b.get(t)), "sample_uniform from 1")
    if not b.crt:
        for bl in range(1, 9 if b.bits != 8 else 7):
            if 2 ** bl > b.f.max:
                continue
            n = 2 ** bl
            W = np.resize(np.arange(n), max(n, 17))
            t, sizes = draws(lambda: f.sample_bounded([len(W)], bl), W, len(W))
            ck.eq(b.get(t), W, "sample_bounded %d" % bl)
            ck.eq(sorted(sizes), [n], "range of sample_bounded %d" % bl)
        t, sizes = draws(lambda: f.sample_bits([17]), np.resize([0, 1], 17), 17)
        ck.eq(b.get(t), np.resize([0, 1], 17), "sample_bits")
        ck.eq(sorted(sizes), [2], "range of sample_bits")


def _sample_crt(ck):
    """Every residue comes from a stream of its own, over its own modulus."""
    ms = pd.crt_moduli()
    f = int100factory
    for what, fn in (("sample_uniform", lambda s: f.sample_uniform(s)), ("sample_seeded_uniform", lambda s: f.sample_seeded_uniform(s, rt.TAPE.secure_seed()))):
        rt.use_config()
        rt.set_mode("det")
        n = 40000 if ck.quick else 200000
        t = fn([n])
        res = [bk.numpy() for bk in t.backing]
        for r, m in zip(res, ms):
            ck.true(r.min() >= 0 and r.max() < m, "%s: residues below the modulus %d" % (what, m))
            ck.eq(len(np.unique(r)), m, "%s: number of residues modulo %d that occur" % (what, m))
        for i, j in itertools.combinations(range(len(ms)), 2):
            same = float(np.mean(res[i] == res[j]))
            ck.true(same < 20.0 / min(ms), "%s: residues modulo %d and %d agree in %.3f of all draws" % (what, ms[i], ms[j], same))
        a, c = fn([n]), fn([n])
        ck.true(not np.array_equal(a.backing[0].numpy(), c.backing[0].numpy()), "%s: different draws" % what)
    for bl in (1, 5, 29, 30, 31, 59, 60, 61, 90, 99):
        rt.set_mode("det")
        t = f.sample_bounded([3000], bl)
        v = pd.crt_value(t)
        v = np.where(v < 0, v + M100, v) if bl == 99 else v
        ck.true(min(v) >= 0 and max(v) < 1 << bl, "sample_bounded %d" % bl)
        ones = [sum((int(w) >> i) & 1 for w in v) / 3000.0 for i in range(bl)]
        ck.true(min(ones) > 0.35 and max(ones) < 0.65, "sample_bounded %d uses all of its bits" % bl)
    rt.set_mode("det")
    s = rt.TAPE.secure_seed()
    x, y = f.sample_seeded_uniform([50], s), f.sample_seeded_uniform([50], s)
    ck.eq(pd.crt_value(x), pd.crt_value(y), "the same key gives the same values")
    ck.count(0, states=1, transitions=1, traces=1)


def run(ck):
    for n, b in BES.items():
        ck.case("pairs/" + n, _pairs, ck, b)
        ck.case("unary/" + n, _unary, ck, b)
        if n not in ("int8", "int16"):
            ck.case("matmul/" + n, _matmul, ck, b)
            ck.case("conv/" + n, _conv, ck, b)
        ck.case("reduce/" + n, _reduce, ck, b)
        ck.case("structure/" + n, _structure, ck, b)
        if not b.crt:
            ck.case("sample/" + n, _sample, ck, b)
    ck.case("crt", _crt, ck)
    ck.case("sample/crt100", _sample_crt, ck)
    ck.case("odd/32", c12._odd, ck, 32)
    ck.case("odd/64", c12._odd, ck, 64)
    ck.case("bool", _bool, ck)
    ck.case("structure/bool", _structure, ck, BoolBe(), True)
