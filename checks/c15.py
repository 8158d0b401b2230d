"""C15: 128-bit tensors behave as 128-bit two's complement integers."""
import itertools

import numpy as np

from checks import c14
from vlib import plain, rt, words
import tensorflow as tf
from tf_encrypted.operations import tf_i128
from tf_encrypted.tensor import int128factory, int1factory, int64factory

M = 1 << 128
U64 = (1 << 64) - 1


def unpack(v):
    v = np.asarray(v)
    return (v[..., 1].astype(object) * (1 << 64)) + (v[..., 0].astype(np.uint64).astype(object))


def pack(v):
    """Independent of the library's own encoder."""
    v = np.asarray(v, dtype=object)
    o = np.zeros(v.shape + (2,), dtype=np.int64)
    for i in np.ndindex(*v.shape):
        w = int(v[i]) % M
        o[i] = np.array([w & U64, w >> 64], dtype=np.uint64).view(np.int64)
    return o


class Be128(c14.Be):
    def __init__(self):
        self.name, self.f, self.neg, self.crt, self.bits, self.m = "int128", int128factory, True, False, 128, M

    def t(self, v):
        return self.f.tensor(tf.constant(pack(v)), encode=False)

    def get(self, t):
        return unpack(t.value)

    def words(self, level=1):
        return words.words(128, level)


B = Be128()


def same(ck, z, w, what, inputs=None):
    ck.eq(B.get(z), B.norm(w), what, inputs)


def _codec(ck):
    W = np.array(B.words(2 if not ck.quick else 1), dtype=object)
    ck.eq(int128factory.nbits, 128, "nbits")
    ck.eq(int128factory.modulus, M, "modulus")
    ck.eq(int128factory.min, -(1 << 127), "min")
    ck.eq(int128factory.max, (1 << 127) - 1, "max")
    ck.eq(unpack(int128factory.min_as_int64), -(1 << 127), "min_as_int64")
    ck.eq(unpack(int128factory.max_as_int64), (1 << 127) - 1, "max_as_int64")
    for what, z in (("tensor", int128factory.tensor(W)), ("constant", int128factory.constant(W)), ("variable", int128factory.variable(W)),
                    ("tensor of unsigned words", int128factory.tensor(W % M)), ("matrix", int128factory.tensor(W[:60].reshape(3, 20)).reshape([60]))):
        ck.eq(B.get(z), W[:60] if what == "matrix" else W, "encode " + what, [W])
    for d in (np.int8, np.int16, np.int32, np.int64):
        i = np.iinfo(d)
        v = np.array([0, 1, -1, i.min, i.max, i.min + 1, 77], dtype=d)
        ck.eq(B.get(int128factory.tensor(v)), v.astype(object), "encode %s" % d)
    # reals: a value times the scale, toward zero, wherever float64 holds it exactly
    r = np.array([0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -2.25, 2.0 ** 40, -2.0 ** 40 + 0.5, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 2.0 ** 66 + 2.0 ** 20, -2.0 ** 70, 3.0 * 2 ** 80, 2.0 ** -20])
    for sc in (1, 1 << 8, 1 << 20, 1 << 40, 1000):
        z = tf_i128.to_i128(tf.constant(r), sc)
        w = [int(float(v) * sc) for v in r]
        ck.eq(unpack(z), np.array(w, dtype=object), "to_i128 with scale %d" % sc, [r])
    for v, d in itertools.product((np.array([0.0, 3.0, -7.0, 2.0 ** 31]), np.array([1, -5, 2 ** 31 - 1])), (tf.int32, tf.int64, tf.float32, tf.float64)):
        if d == tf.int32 and v.max() > 2 ** 31 - 1:
            continue
        z = int128factory.tensor(tf.cast(tf.constant(v), d))
        ck.eq(B.get(z), np.array([int(float(np.float32(a) if d == tf.float32 else a)) for a in v], dtype=object), "tensor of %s" % d, [v])
    X = B.t(W)
    for sc in (1, 1 << 8, 1 << 40, 1 << 53, 10):
        got = tf_i128.from_i128(X.value, sc).numpy()
        want = np.array([float(int(v)) / float(sc) for v in W])
        ck.within(got, want, np.abs(want) * 2.0 ** -51, "from_i128 with scale %d" % sc, [W])
        dec = tf_i128.decode(X.value.numpy(), sc)
        ck.within(dec, np.array([int(v) / sc for v in W]), np.abs(want) * 2.0 ** -51, "decode with scale %d" % sc, [W])
    ck.within(np.asarray(X.to_native()), np.array([float(int(v)) for v in W]), np.abs(W.astype(float)) * 2.0 ** -51, "to_native", [W])
    ck.count(0, states=20 * len(W), transitions=20 * len(W), traces=20)


def _pairs(ck):
    x, y = words.pairs(B.words(1), B.words(0) if ck.quick else B.words(1))
    n = 40000
    for lo in range(0, len(x), n):
        a, b = x[lo:lo + n], y[lo:lo + n]
        X, Y = B.t(a), B.t(b)
        for what, z, w in (("add", X + Y, a + b), ("sub", X - Y, a - b), ("mul", X * Y, a * b), ("reversed sub", Y.sub(X), b - a), ("reversed mul", Y.mul(X), b * a),
                           ("and", X & Y, a & b), ("or", X | Y, a | b), ("xor", X ^ Y, a ^ b)):
            same(ck, z, w, what, [a, b])
        ck.eq(np.asarray(X.equal(Y)).astype(int), (a == b).astype(int), "equal", [a, b])
        ck.eq(np.asarray(Y.equal(X)).astype(int), (a == b).astype(int), "equal", [a, b])
        ck.count(0, states=len(a), transitions=10 * len(a), traces=10)
    W = np.array(B.words(1), dtype=object)
    X = B.t(W)
    ck.eq(np.asarray(X.equal(B.t(W))).astype(int), np.ones(len(W)), "equal to itself")
    for i in range(128):
        # one bit of difference, in either word
        ck.true(not np.any(np.asarray(X.equal(B.t(B.norm(W ^ (1 << i)))))), "equal although bit %d differs" % i)
    for v in (0, -1, 1 << 64, (1 << 127) - 1):
        for shape in ((), (1,), (1, 1)):
            s = B.t(np.full(shape, v, dtype=object))
            ck.eq(np.asarray(X.equal(s)).astype(int), (W == v).astype(int).reshape((1, -1) if len(shape) == 2 else -1), "equal to a single value", [W])
            ck.eq(np.asarray(s.equal(X)).astype(int), (W == v).astype(int).reshape((1, -1) if len(shape) == 2 else -1), "single value equal", [W])


def _unary(ck):
    W = np.array(B.words(2 if not ck.quick else 1), dtype=object)
    X = B.t(W)
    same(ck, X.negative(), -W, "negative", [W])
    same(ck, -X, -W, "-x", [W])
    same(ck, ~X, ~W, "invert", [W])
    same(ck, X.invert(), ~W, "invert", [W])
    same(ck, X.identity(), W, "identity")
    ck.eq(unpack(tf_i128.i128_abs(X.value)), B.norm(np.abs(W)), "abs", [W])
    for c in (0, 1, -1, 2, -3, 1 << 63, 1 << 64, -(1 << 100), (1 << 127) - 1):
        for what, z, w in (("tensor + number", X + c, W + c), ("number + tensor", c + X, W + c), ("tensor - number", X - c, W - c),
                           ("number - tensor", c - X, c - W), ("tensor * number", X * c, W * c), ("number * tensor", c * X, W * c),
                           ("tensor & number", X & c, W & c), ("tensor | number", X | c, W | c), ("tensor ^ number", X ^ c, W ^ c)):
            same(ck, z, w, "%s (%d)" % (what, c), [W])
    for s in list(range(129)) + [200]:
        same(ck, X << s, W * (1 << s), "left shift by %d" % s, [W])
        same(ck, X >> s, W >> s, "right shift by %d" % s, [W])
        same(ck, X.truncate(s), W >> s, "truncate by %d" % s, [W])
        same(ck, X.logical_rshift(s), (W % M) >> s, "logical right shift by %d" % s, [W])
    for size in (None,) + tuple(range(1, 129)):
        z = X.bits(bitsize=size)
        ck.eq(B.get(z), np.array([[(int(v) >> i) & 1 for i in range(size or 128)] for v in W]), "bits %s" % size, [W])
    for f in (int1factory, int64factory):
        ck.eq(np.asarray(X.bits(f).value).astype(int), np.array([[(int(v) >> i) & 1 for i in range(128)] for v in W]), "bits into another type", [W])
    ck.eq(c14.BES["int64"].get(X.cast(int64factory)), c14.BES["int64"].norm(W), "cast to int64", [W])
    ck.eq(np.asarray(X.cast(int1factory).value).astype(int), (W != 0).astype(int), "cast to bool", [W])
    same(ck, X.cast(int128factory), W, "cast to itself")
    # bit kernels
    rev = np.array([int(format(int(v) % M, "0128b")[::-1], 2) for v in W], dtype=object)
    same(ck, X.bit_reverse(), rev, "bit_reverse", [W])
    same(ck, X.bit_reverse().bit_reverse(), W, "bit_reverse twice", [W])
    xi = np.array([_xorind(int(v) % M) for v in W], dtype=object)
    same(ck, X.xor_indices(), xi, "xor_indices", [W])
    for st in [1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 100, 127, 128]:
        for s0 in sorted({0, 1, 2, 3, st - 1, st, 31, 32, 63, 64, 65, 126, 127}):
            w = np.array([_gather(int(v) % M, s0, st) for v in W], dtype=object)
            same(ck, X.bit_gather(s0, st), w, "bit_gather(%d, %d)" % (s0, st), [W])
    for st in (1, 2, 4, 8, 16, 32, 64, 128):
        for sh in ((len(W),), (2, len(W) // 2)):
            V = W[:int(np.prod(sh))].reshape(sh)
            w = np.array([[_gather(int(v) % M, i, st) for v in V.reshape(-1)] for i in range(st)], dtype=object).reshape((st,) + sh)
            same(ck, B.t(V).bit_split_and_gather(st), w, "bit_split_and_gather(%d)" % st, [V])
    ck.count(0, states=1000 * len(W), transitions=1000 * len(W), traces=1000)


def _xorind(v):
    a = 0
    for d in range(v.bit_length()):
        if (v >> d) & 1:
            a ^= d
    return a


def _gather(v, start, stride, n=128):
    a = 0
    for i, d in enumerate(range(start, n, stride)):
        a |= ((v >> d) & 1) << i
    return a


def _broadcast(ck):
    shapes = [(), (1,), (3,), (1, 1), (2, 3), (1, 3), (2, 1), (4, 2, 3), (1, 2, 1), (2, 1, 3, 1), (2, 4, 1, 3), (2, 1, 2, 1, 3), (5,), (2,)]
    n = 0
    for i, (s, t) in enumerate(itertools.product(shapes, repeat=2)):
        try:
            o = np.broadcast_shapes(s, t)
        except ValueError:
            continue
        n += 1
        x, y = c14.shaped(B, s, i), c14.shaped(B, t, i + 1)
        x, y = x.astype(object), y.astype(object)
        X, Y = B.t(x), B.t(y)
        for what, fn, w in (("add", lambda a, b: a + b, x + y), ("sub", lambda a, b: a - b, x - y), ("mul", lambda a, b: a * b, x * y)):
            z = fn(X, Y)
            ck.eq(tuple(z.shape), o, "shape of %s of %s and %s" % (what, s, t))
            same(ck, z, w, "%s of %s and %s" % (what, s, t))
            if ck.quick and i % 3:
                continue
            # inside a graph the shape known beforehand must be the shape that comes out
            known = []

            @tf.function
            def g(a, b, fn=fn):
                r = fn(int128factory.tensor(a, encode=False), int128factory.tensor(b, encode=False))
                known.append(r.shape)
                return r.value

            r = g(X.value, Y.value)
            ck.eq(unpack(r), B.norm(w), "%s of %s and %s in a graph" % (what, s, t))
            ck.true(known[-1].is_compatible_with(o), "shape known in the graph for %s of %s and %s: %s" % (what, s, t, known[-1]))
        for sh in (1, 70):
            amt = np.full(t, sh, dtype=np.int64)
            for what, fn, w in (("left shift", tf_i128.left_shift, x * (1 << sh)), ("right shift", tf_i128.right_shift, x >> sh)):
                z = fn(X.value, tf.constant(amt))
                ck.eq(unpack(z), B.norm(np.broadcast_to(w, o)), "%s of %s by %s" % (what, s, t))
    ck.count(0, states=n, transitions=10 * n, traces=n)


def _inner(ck):
    shapes = [((1, 1), (1, 1)), ((2, 3), (3, 4)), ((5, 1), (1, 5)), ((1, 7), (7, 1)), ((4, 33), (33, 2)), ((17, 8), (8, 9)), ((1, 130), (130, 3)), ((64, 64), (64, 64))]
    for i, (s, t) in enumerate(shapes):
        for k in range(3):
            x, y = c14.shaped(B, s, i + 9 * k), c14.shaped(B, t, i + 50 + 9 * k)
            same(ck, B.t(x).matmul(B.t(y)), c14.omat(x, y), "matmul %s %s" % (s, t))
    for shape in ((5,), (1,), (2, 3), (3, 2, 4), (1, 1), (300,), (2, 1, 3, 2), (2, 3, 1, 2, 2), (2, 1, 2, 3, 1, 2)):
        x = c14.shaped(B, shape, len(shape))
        X = B.t(x)
        n = len(shape)
        axes = [None] + list(range(-n, n)) + [list(a) for k in range(1, n + 1) for a in itertools.combinations(range(n), k)]
        axes += [list(reversed(a)) for a in itertools.combinations(range(n), 2)] + ([[-1, 0]] if n > 1 else [])
        for ax, kd in itertools.product(axes, (None, False, True)):
            w = np.sum(x, axis=tuple(ax) if isinstance(ax, list) else ax, keepdims=bool(kd))
            z = X.reduce_sum(ax, kd)
            w = np.array(w, dtype=object)
            ck.eq(tuple(z.shape), w.shape, "shape of reduce_sum %s axis %s keepdims %s" % (shape, ax, kd))
            same(ck, z, w, "reduce_sum %s axis %s keepdims %s" % (shape, ax, kd))
    ck.count(0, states=1000, transitions=1000, traces=1000)


def _sample(ck):
    f = int128factory
    W = np.array(B.words(1), dtype=object)
    n = len(W)
    for bl in (1, 2, 7, 63, 64, 65, 100, 127, 128):
        rt.use_config()
        rt.set_mode("det")
        v = B.get(f.sample_bounded([4000], bl))
        if bl == 128:
            v = v % M
        ck.true(min(v) >= 0 and max(v) < 1 << bl, "sample_bounded %d" % bl)
        ones = [sum((int(w) >> i) & 1 for w in v) / 4000.0 for i in range(bl)]
        ck.true(min(ones) > 0.4 and max(ones) < 0.6, "sample_bounded %d uses all of its bits" % bl)
        if bl > 20:
            ck.eq(len(set(v)) >= 3990, True, "sample_bounded %d does not repeat" % bl)
    rt.set_mode("det")
    for what, fn in (("sample_uniform", lambda: f.sample_uniform([4000])), ("sample_seeded_uniform", lambda: f.sample_seeded_uniform([4000], rt.TAPE.secure_seed()))):
        v = B.get(fn()) % M
        ones = [sum((int(w) >> i) & 1 for w in v) / 4000.0 for i in range(128)]
        ck.true(min(ones) > 0.4 and max(ones) < 0.6, what + " uses all bits")
        ck.true(len(set(v)) == 4000 and len(set(int(w) >> 64 for w in v)) > 3990 and len(set(int(w) & U64 for w in v)) > 3990, what + " does not repeat")
        ck.true(sum((int(w) >> 64) == (int(w) & U64) for w in v) == 0, what + ": the two words differ")
    s = rt.TAPE.secure_seed()
    ck.eq(B.get(f.sample_seeded_uniform([50], s)), B.get(f.sample_seeded_uniform([50], s)), "the same key gives the same values")
    b = B.get(f.sample_bits([4000]))
    ck.true(set(b) == {0, 1}, "sample_bits")
    ck.count(0, states=1, transitions=1, traces=1)


def run(ck):
    ck.case("codec", _codec, ck)
    ck.case("pairs", _pairs, ck)
    ck.case("unary", _unary, ck)
    ck.case("broadcast", _broadcast, ck)
    ck.case("inner", _inner, ck)
    ck.case("structure", c14._structure, ck, B)
    ck.case("conv", c14._conv, ck, B)
    ck.case("sample", _sample, ck)
