"""Operations called as methods and operators of tensors: each must be the protocol's operation, with its arguments in their places."""
import numpy as np

V = np.array([[5, -3, 2], [7, 1, -8]])
W = np.array([[1, 4, -2], [-7, 3, 6]])
ARITH = [
    ("add", lambda x, y: x.add(y), lambda v, w: v + w), ("+", lambda x, y: x + y, lambda v, w: v + w), ("x + 3", lambda x, y: x + 3, lambda v, w: v + 3),
    ("3 + x", lambda x, y: 3 + x, lambda v, w: v + 3), ("sub", lambda x, y: x.sub(y), lambda v, w: v - w), ("-", lambda x, y: x - y, lambda v, w: v - w),
    ("x - 3", lambda x, y: x - 3, lambda v, w: v - 3), ("3 - x", lambda x, y: 3 - x, lambda v, w: 3 - v), ("mul", lambda x, y: x.mul(y), lambda v, w: v * w),
    ("*", lambda x, y: x * y, lambda v, w: v * w), ("x * 3", lambda x, y: x * 3, lambda v, w: v * 3), ("3 * x", lambda x, y: 3 * x, lambda v, w: v * 3),
    ("square", lambda x, y: x.square(), lambda v, w: v * v), ("negative", lambda x, y: x.negative(), lambda v, w: -v),
    ("matmul", lambda x, y: x.matmul(y.transpose()), lambda v, w: v @ w.T), ("dot", lambda x, y: x.dot(y.transpose([1, 0])), lambda v, w: v @ w.T),
    ("reduce_sum", lambda x, y: x.reduce_sum(), lambda v, w: v.sum()), ("reduce_sum 1", lambda x, y: x.reduce_sum(1), lambda v, w: v.sum(1)),
    ("reduce_sum 0 keep", lambda x, y: x.reduce_sum(0, True), lambda v, w: v.sum(0, keepdims=True)), ("sum", lambda x, y: x.sum(), lambda v, w: v.sum()),
    ("sum 0", lambda x, y: x.sum(0), lambda v, w: v.sum(0)), ("sum 1 keep", lambda x, y: x.sum(axis=1, keepdims=True), lambda v, w: v.sum(1, keepdims=True)),
]
ABY3 = [("-x", lambda x, y: -x, lambda v, w: -v), ("x ** 3", lambda x, y: x ** 3, lambda v, w: v ** 3)]
BITS = [
    ("xor", lambda x, y: x.bitwise_xor(y), lambda v, w: v ^ w), ("^", lambda x, y: x ^ y, lambda v, w: v ^ w), ("and", lambda x, y: x.bitwise_and(y), lambda v, w: v & w),
    ("&", lambda x, y: x & y, lambda v, w: v & w), ("or", lambda x, y: x.bitwise_or(y), lambda v, w: v | w), ("|", lambda x, y: x | y, lambda v, w: v | w),
    ("invert", lambda x, y: x.invert(), lambda v, w: ~v), ("~", lambda x, y: ~x, lambda v, w: ~v), ("<<", lambda x, y: x << 3, lambda v, w: v << 3),
    ("lshift", lambda x, y: x.lshift(2), lambda v, w: v << 2), (">>", lambda x, y: x >> 1, lambda v, w: v >> 1), ("rshift", lambda x, y: x.rshift(2), lambda v, w: v >> 2),
    ("arith_rshift", lambda x, y: x.arith_rshift(1), lambda v, w: v >> 1),
    ("logical_rshift", lambda x, y: x.logical_rshift(1), lambda v, w: (v.astype(np.int64).view(np.uint64) >> np.uint64(1)).view(np.int64)),
]
ORDER = [
    ("<", lambda x, y: x < y, lambda v, w: v < w), ("<=", lambda x, y: x <= y, lambda v, w: v <= w), (">", lambda x, y: x > y, lambda v, w: v > w),
    (">=", lambda x, y: x >= y, lambda v, w: v >= w),
]
MAX = [("reduce_max 0", lambda x, y: x.reduce_max(0), lambda v, w: v.max(0)), ("reduce_max 1", lambda x, y: x.reduce_max(axis=1), lambda v, w: v.max(1))]
SHAPE = [
    ("[0]", lambda x, y: x[0], lambda v, w: v[0]), ("[:, 1:]", lambda x, y: x[:, 1:], lambda v, w: v[:, 1:]), ("[-1, ::2]", lambda x, y: x[-1, ::2], lambda v, w: v[-1, ::2]),
    ("transpose", lambda x, y: x.transpose(), lambda v, w: v.T), ("transpose 1 0", lambda x, y: x.transpose([1, 0]), lambda v, w: v.T),
    ("transpose 0 1", lambda x, y: x.transpose(perm=[0, 1]), lambda v, w: v), ("expand_dims 0", lambda x, y: x.expand_dims(0), lambda v, w: v[None]),
    ("expand_dims 1", lambda x, y: x.expand_dims(axis=1), lambda v, w: v[:, None]), ("reshape", lambda x, y: x.reshape([3, 2]), lambda v, w: v.reshape(3, 2)),
    ("reshape -1", lambda x, y: x.reshape([-1]), lambda v, w: v.reshape(-1)), ("shape", lambda x, y: x.reshape([x.shape[1], x.shape[0]]), lambda v, w: v.reshape(3, 2)),
]


def run(ck, forms, make, opened, what, kinds=("pp", "pu", "up", "uu"), skip=()):
    """make(kind, value) enters a value; opened(tensor) reveals integers."""
    for k in kinds:
        for lab, f, g in forms:
            if (k, lab) in skip or lab in skip:
                continue
            for v, w in ((V, W), (W, V)):
                z = f(make(k[0], v), make(k[1], w))
                ck.eq(opened(z), np.asarray(g(v, w)).astype(np.int64), "%s of %s: %s" % (what, k, lab))
            ck.count(0, states=2, transitions=2, traces=2)
