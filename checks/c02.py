"""C02: ABY3 ring arithmetic."""
import numpy as np
import tensorflow as tf

from vlib import a3, methods, rt, smallring, words
from tf_encrypted.tensor import factories


def run(ck):
    for cfg in ("low", "high"):
        ck.case("methods/%s" % cfg, _methods, ck, cfg)
    small(ck)
    wide(ck)
    shapes(ck)
    chains(ck)


def _methods(ck, cfg):
    p = rt.aby3(cfg, mode="det")
    make = lambda k, v: a3.private(p, v) if k == "p" else a3.public(p, v)
    methods.run(ck, methods.ARITH + methods.ABY3, make, lambda z: a3.open_any(p, z).astype(np.int64), "methods", skip=[("up", "x ** 3")] + [("uu", l) for l in ("x ** 3", "matmul", "dot")])


def _setup(k):
    return lambda: rt.aby3(smallring.config(k), mode="script")


P, U = "private", "public"


def enter(prot, v, kind, scaled=False, factory=None):
    if kind == P:
        return a3.private(prot, v, scaled=scaled, factory=factory)
    if kind == "const":
        return a3.const(prot, v, scaled=scaled, factory=factory)
    return a3.public(prot, v, scaled=scaled, factory=factory)


# name -> (operand kinds, program, plaintext)
def binary():
    ops = {
        "add": (lambda p, x, y: p.add(x, y), lambda x, y: x + y),
        "sub": (lambda p, x, y: p.sub(x, y), lambda x, y: x - y),
        "mul": (lambda p, x, y: p.mul(x, y), lambda x, y: x * y),
        "op+": (lambda p, x, y: x + y, lambda x, y: x + y),
        "op-": (lambda p, x, y: x - y, lambda x, y: x - y),
        "op*": (lambda p, x, y: x * y, lambda x, y: x * y),
    }
    for n, (f, g) in ops.items():
        for kx in (P, U, "const"):
            for ky in (P, U, "const"):
                yield n, kx, ky, f, g


UNARY = {
    "neg": (lambda p, x: -x, lambda x: -x),
    "negative": (lambda p, x: p.negative(x), lambda x: -x),
    "x+x": (lambda p, x: x + x, lambda x: 2 * x),
    "x-x": (lambda p, x: x - x, lambda x: 0 * x),
    "square": (lambda p, x: p.square(x), lambda x: x * x),
    "x*x": (lambda p, x: x * x, lambda x: x * x),
    "x+3": (lambda p, x: x + 3, lambda x: x + 3),
    "3+x": (lambda p, x: 3 + x, lambda x: x + 3),
    "x-3": (lambda p, x: x - 3, lambda x: x - 3),
    "3-x": (lambda p, x: 3 - x, lambda x: 3 - x),
    "x*3": (lambda p, x: x * 3, lambda x: x * 3),
    "3*x": (lambda p, x: 3 * x, lambda x: x * 3),
    "x*-3": (lambda p, x: x * -3, lambda x: x * -3),
    "x*1": (lambda p, x: x * 1, lambda x: x),
    "x*-1": (lambda p, x: x * -1, lambda x: -x),
    "x*2": (lambda p, x: x * 2, lambda x: x * 2),
    "x*4": (lambda p, x: p.mul(x, 4), lambda x: x * 4),
    "8*x": (lambda p, x: p.mul(8, x), lambda x: x * 8),
    "x*0": (lambda p, x: x * 0, lambda x: x * 0),
    "x<<1": (lambda p, x: x << 1, lambda x: x * 2),
    "x**1": (lambda p, x: x ** 1, lambda x: x),
    "x**2": (lambda p, x: x ** 2, lambda x: x ** 2),
    "x**3": (lambda p, x: x ** 3, lambda x: x ** 3),
    "x**4": (lambda p, x: p.pow(x, 4), lambda x: x ** 4),
    "x**5": (lambda p, x: p.pow(x, 5), lambda x: x ** 5),
    "x**6": (lambda p, x: p.pow(x, 6), lambda x: x ** 6),
    "x**7": (lambda p, x: p.pow(x, 7), lambda x: x ** 7),
    "add_n": (lambda p, x: p.add_n([x, x, x * 3, -x]), lambda x: 4 * x),
    "x+np": (lambda p, x: x + np.full(x.shape, 5), lambda x: x + 5),
    "np-x": (lambda p, x: p.sub(np.full(x.shape, 5), x), lambda x: 5 - x),
    "x*np": (lambda p, x: x * np.full(x.shape, 5), lambda x: x * 5),
    "x*tf": (lambda p, x: x * tf.fill(x.shape, 7), lambda x: x * 7),
}
PUB_UNARY = ("neg", "negative", "x+x", "x-x", "square", "x*x", "x+3", "3+x", "x-3", "3-x", "x*3", "3*x", "x*-3", "x*1", "x*-1",
             "x*0", "x+np", "np-x", "x*np", "x*2", "x*4", "8*x", "x<<1", "add_n")


def small(ck):
    lim = 300000 if ck.quick else 6000000
    for k in (2, 3) if ck.quick else (2, 3, 4):
        d = np.arange(1 << k) - (1 << (k - 1))
        for n, kx, ky, f, g in binary():
            if "const" in (kx, ky):
                continue
            ck.case("small/k%d/%s/%s-%s" % (k, n, kx, ky), ck.tape, _setup(k),
                    lambda p, x, y, f=f, kx=kx, ky=ky: f(p, enter(p, x, kx), enter(p, y, ky)), [d, d],
                    lambda x, y, g=g: a3.wrap(g(x, y), k), a3.open_any, max_rows=lim, what=n, kind="small")
        for n, (f, g) in UNARY.items():
            ck.case("small/k%d/%s" % (k, n), ck.tape, _setup(k), lambda p, x, f=f: f(p, enter(p, x, P)), [d],
                    lambda x, g=g: a3.wrap(g(x), k), a3.open_any, max_rows=lim, what=n, kind="small")


def wide(ck):
    for hp, nb in (("low", 64), ("high", 128)):
        for n, kx, ky, f, g in binary():
            ck.case("wide/%d/%s/%s-%s" % (nb, n, kx, ky), _wide2, ck, hp, nb, kx, ky, f, g)
        for n, (f, g) in UNARY.items():
            for kx in (P, U, "const"):
                if kx != P and n not in PUB_UNARY:
                    continue
                ck.case("wide/%d/%s/%s" % (nb, n, kx), _wide1, ck, hp, nb, kx, f, g)


def _words(ck, nb):
    return words.words(nb, 1) if nb == 64 else words.words(nb, 0 if ck.quick else 1)


def _wide2(ck, hp, nb, kx, ky, f, g):
    xs, ys = words.pairs(_words(ck, nb))
    prot = rt.aby3(hp)
    r = f(prot, enter(prot, xs, kx), enter(prot, ys, ky))
    ck.true((a3.P if False else type(r).__name__.startswith("ABY3Private")) == (P in (kx, ky)), "result is %s" % type(r).__name__)
    ck.true(not r.is_scaled, "result of unscaled operands is scaled")
    ck.eq(a3.open_any(prot, r), a3.wrap(g(xs, ys), nb), "result", [xs, ys])
    ck.count(0, states=len(xs), transitions=len(xs), traces=len(xs))


def _wide1(ck, hp, nb, kx, f, g):
    xs = np.array(words.words(nb, 1 if ck.quick else 2), dtype=object)
    prot = rt.aby3(hp)
    r = f(prot, enter(prot, xs, kx))
    ck.true(not r.is_scaled, "result of unscaled operands is scaled")
    ck.eq(a3.open_any(prot, r), a3.wrap(g(xs), nb), "result", [xs])
    ck.count(0, states=len(xs), transitions=len(xs), traces=len(xs))


# -- shapes: broadcasting, matmul ranks, reductions --------------------------------
def _vals(shape, salt=0, nb=64):
    W = words.words(nb, 0)
    n = int(np.prod(shape))
    return np.array([W[(7 * i + salt * 5 + i // len(W)) % len(W)] for i in range(n)], dtype=object).reshape(shape)


BSHAPES = [((3,), ()), ((3,), (1,)), ((2, 3), (3,)), ((2, 3), (2, 1)), ((1, 3), (2, 3)), ((3,), (2, 3)), ((1,), (4,)),
           ((2, 1), (1, 3)), ((2, 3, 4), (3, 1)), ((2, 3, 4), (1, 1, 1)), ((), (3,)), ((1, 1), (2, 2)), ((), ())]
MSHAPES = [((2, 3), (3, 4)), ((1, 1), (1, 1)), ((4, 1), (1, 3)), ((1, 5), (5, 1)), ((2, 2, 3), (2, 3, 2)), ((2, 1, 2, 3), (2, 1, 3, 2))]


def shapes(ck):
    for hp, nb in (("low", 64), ("high", 128)):
        for sx, sy in BSHAPES:
            for kx, ky in ((P, P), (P, U), (U, P), (U, U)):
                full = np.broadcast_shapes(sx, sy)
                for n, f, g in (("add", lambda x, y: x + y, lambda x, y: x + y), ("sub", lambda x, y: x - y, lambda x, y: x - y),
                                ("mul", lambda x, y: x * y, lambda x, y: x * y)):
                    if n != "mul" and {kx, ky} == {P, U} and (sx if kx == P else sy) != full:
                        continue  # rejected with an error: a public addend may not widen a private tensor
                    ck.case("broadcast/%d/%s/%s%s/%s-%s" % (nb, n, sx, sy, kx, ky), _bcast, ck, hp, nb, sx, sy, kx, ky, f, g)
        for sx, sy in MSHAPES:
            if nb == 128 and len(sx) > 2:
                continue
            for kx, ky in ((P, P), (P, U), (U, P)):
                ck.case("matmul/%d/%s%s/%s-%s" % (nb, sx, sy, kx, ky), _bcast, ck, hp, nb, sx, sy, kx, ky,
                        lambda x, y: x.matmul(y), lambda x, y: np.matmul(x, y) if x.ndim == 2 else _bmm(x, y))
        for sh in ((3,), (2, 3), (2, 3, 4)):
            for axis in [None] + list(range(len(sh))) + [-1] + ([-2, (0, 1)] if len(sh) > 1 else []):
                for keep in (False, True):
                    for kx in (P, U):
                        ck.case("reduce_sum/%d/%s/%s/%s/%s" % (nb, sh, axis, keep, kx), _rsum, ck, hp, nb, sh, axis, keep, kx)
        for n in (1, 2, 3, 4, 5):
            for axis in (0, 1):
                for keep in (False, True):
                    ck.case("prod/%d/%d/%d/%s" % (nb, n, axis, keep), _prod, ck, hp, nb, n, axis, keep)
    # matrix products over the whole small ring
    for k in (2, 3):
        ck.case("matmul-small/k%d" % k, _matmul_small, ck, k)


def _bmm(x, y):
    out = np.empty(x.shape[:-1] + y.shape[-1:], dtype=object)
    for i in np.ndindex(*x.shape[:-2]):
        out[i] = np.dot(x[i], y[i])
    return out


def _obj(v):
    return np.array(v, dtype=object)


def _bcast(ck, hp, nb, sx, sy, kx, ky, f, g):
    x, y = _vals(sx, 1, nb), _vals(sy, 2, nb)
    prot = rt.aby3(hp)
    r = f(enter(prot, x, kx), enter(prot, y, ky))
    want = a3.wrap(_obj(g(x, y)), nb)
    ck.eq(a3.open_any(prot, r), want, "result")
    ck.true(list(r.shape) == list(want.shape), "shape attribute %s" % r.shape)
    ck.count(0, states=want.size, transitions=want.size, traces=want.size)


def _rsum(ck, hp, nb, sh, axis, keep, kx):
    x = _vals(sh, 3, nb)
    prot = rt.aby3(hp)
    e = enter(prot, x, kx)
    want = a3.wrap(_obj(np.sum(x, axis=axis, keepdims=keep)), nb)
    for r in (prot.reduce_sum(e, axis, keep), e.reduce_sum(axis=axis, keepdims=keep), e.sum(axis=axis, keepdims=keep)):
        ck.eq(a3.open_any(prot, r), want, "reduce_sum")
    ck.count(0, states=want.size, transitions=3, traces=3)


def _prod(ck, hp, nb, n, axis, keep):
    sh = (n, 2) if axis == 0 else (2, n)
    x = _vals(sh, 4, nb)
    prot = rt.aby3(hp)
    r = prot.prod(enter(prot, x, P), axis=axis, keepdims=keep)
    ck.eq(a3.open_any(prot, r), a3.wrap(_obj(np.prod(x, axis=axis, keepdims=keep)), nb), "prod")
    ck.count(0, states=2, transitions=n, traces=1)


def _matmul_small(ck, k):
    """Every pair of 1x2 and 2x1 (then 2x1 and 1x2) matrices over the ring."""
    d = np.arange(1 << k) - (1 << (k - 1))

    def setup():
        return rt.aby3(smallring.config(k), mode="script")

    def prog(p, a, b, c, e):
        x = np.stack([a, b], axis=-1)[:, None, :]
        y = np.stack([c, e], axis=-1)[:, :, None]
        X, Y = enter(p, x, P), enter(p, y, P)
        return [X.matmul(Y), Y.matmul(X)]

    def oracle(a, b, c, e):
        return [a3.wrap((a * c + b * e)[:, None, None], k),
                a3.wrap(np.stack([np.stack([c * a, c * b], -1), np.stack([e * a, e * b], -1)], 1), k)]

    ck.tape(setup, prog, [d] * 4, oracle, a3.open_any, max_rows=200000, dev=1 if k == 2 else 1)


# -- every short program of ring operations -------------------------------------
def chains(ck):
    """All straight-line programs of up to `depth` steps over x (private), y (private), c (public)."""
    depth = 2 if ck.quick else 3
    for first in range(12):
        ck.case("chains/%d" % first, _chains, ck, depth, first)


def _chains(ck, depth, first):
    d = np.arange(-2, 2)
    X, Y, C = words.product(d, d, d)
    prot = rt.aby3(smallring.config(4))
    steps = 0
    env0 = [(a3.private(prot, X), X), (a3.private(prot, Y), Y), (a3.public(prot, C), C)]
    names = ["x", "y", "c"]

    def moves(env):
        n = len(env)
        for i in range(n):
            for j in range(n):
                for op in "+-*":
                    yield op, i, j
            yield "~", i, i

    def apply(env, mv):
        op, i, j = mv
        (a, va), (b, vb) = env[i], env[j]
        if op == "+":
            return a + b, va + vb
        if op == "-":
            return a - b, va - vb
        if op == "*":
            return a * b, va * vb
        return -a, -va

    count = [0]

    def go(env, left, path):
        for idx, mv in enumerate(moves(env)):
            if not path and idx % 12 != first:
                continue
            if path and mv[1] != len(env) - 1 and mv[2] != len(env) - 1:
                continue  # each step uses the newest value
            t, v = apply(env, mv)
            v = a3.wrap(v, 4)
            count[0] += 1
            ck.eq(a3.open_any(prot, t), v, "program %s" % (path + [mv],), [X, Y, C])
            if left > 1:
                go(env + [(t, v)], left - 1, path + [mv])

    go(env0, depth, [])
    ck.count(0, states=count[0] * len(X), transitions=count[0] * len(X), traces=count[0])
