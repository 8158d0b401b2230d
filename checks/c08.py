"""C08: no single ABY3 server learns anything about private values."""
import itertools

import numpy as np

from vlib import a3, rt, secrecy, smallring
from vlib.a3 import A, B as BO

SERVERS = [1, 2, 3]
NAMES = {1: "server 0", 2: "server 1", 3: "server 2"}


def dom(k):
    return np.arange(-(1 << (k - 1)), 1 << (k - 1)) if k > 1 else np.array([0, 1])


def P(p, v, **kw):
    return a3.private(p, v, **kw)


def PB(p, v, **kw):
    return a3.private(p, v, share=BO, **kw)


def BIT(p, v):
    return a3.private(p, v & 1, share=BO, factory=a3.BOOL)


def col(v, *more):
    """Rows with several columns."""
    return np.stack([v] + list(more), axis=1)


# name: (k, program, number of k-bit secrets, options)
OPS = {
    "add": (2, lambda p, x, y: P(p, x) + P(p, y), 2),
    "add-public": (2, lambda p, x: P(p, x) + 1, 1),
    "sub": (2, lambda p, x, y: P(p, x) - P(p, y), 2),
    "neg": (2, lambda p, x: -P(p, x), 1),
    "sum": (2, lambda p, x, y: P(p, col(x, y)).reduce_sum(axis=1), 2),
    "mul": (2, lambda p, x, y: P(p, x) * P(p, y), 2),
    "mul3": (3, lambda p, x, y: P(p, x) * P(p, y), 2),
    "mul-public": (2, lambda p, x: P(p, x) * a3.public(p, np.array([-1])), 1),
    "mul-same": (2, lambda p, x: _same(p, x), 1),
    "square": (2, lambda p, x: p.square(P(p, x)), 1),
    "pow3": (2, lambda p, x: p.pow(P(p, x), 3), 1),
    "mul-twice": (2, lambda p, x, y: _twice(p, x, y), 2),
    "mul-broadcast": (1, lambda p, x, y, z: P(p, x[:, None]) * P(p, col(y, z)), 3),
    "mul-broadcast-left": (1, lambda p, x, y, z: P(p, col(y, z)) * P(p, x[:, None]), 3),
    "mul-rank": (1, lambda p, x, y, z: P(p, x[:, None]) * P(p, col(y, z)[:, None, :]).reshape([len(x), 2]), 3),
    "mul-vector": (1, lambda p, x, y: P(p, col(x, y)) * P(p, col(y, x)), 2),
    "matmul": (1, lambda p, x, y, z: p.matmul(P(p, col(x, y)), P(p, np.array([[1, 0], [1, 1]]))), 3),
    "matmul-pp": (1, lambda p, x, y, z: p.matmul(P(p, col(x, y)[:, None, :]), P(p, col(z, x)[:, :, None])), 3),
    "matmul-wide": (1, lambda p, x, y: p.matmul(P(p, x[:, None, None]), P(p, col(y, x)[:, None, :])), 2),
    "matmul-public": (2, lambda p, x, y: p.matmul(P(p, col(x, y)), a3.public(p, np.array([[1, -1], [0, 1]]))), 2),
    "conv2d": (1, lambda p, x, y: p.conv2d(P(p, col(x, y, x, y).reshape(-1, 1, 2, 2)), P(p, np.ones((1, 1, 1, 1), dtype=np.int64)), [1, 1], "VALID"), 2),
    "xor": (2, lambda p, x, y: PB(p, x) ^ PB(p, y), 2),
    "and": (2, lambda p, x, y: PB(p, x) & PB(p, y), 2),
    "and-same": (2, lambda p, x: PB(p, x) & PB(p, ~x), 1),
    "or": (2, lambda p, x, y: PB(p, x) | PB(p, y), 2),
    "not": (2, lambda p, x: ~PB(p, x), 1),
    "and-bits": (1, lambda p, x, y: BIT(p, x) & BIT(p, y), 2),
    "and-broadcast": (1, lambda p, x, y, z: PB(p, x[:, None]) & PB(p, col(y, z)), 3),
    "and-bits-broadcast": (1, lambda p, x, y, z: BIT(p, x[:, None]) & BIT(p, col(y, z)), 3),
    "or-broadcast": (1, lambda p, x, y, z: PB(p, col(y, z)) | PB(p, x[:, None]), 3),
    "and-public": (2, lambda p, x: PB(p, x) & a3.public(p, np.array([1])), 1),
    "shift": (2, lambda p, x: (PB(p, x) << 1) ^ (PB(p, x) >> 1), 1),
    "ppa-ks": (2, lambda p, x, y: p.ppa(PB(p, x), PB(p, y), topology="kogge_stone"), 2),
    "carry": (2, lambda p, x, y: p.carry(PB(p, x), PB(p, y)), 2),
    "a2b": (2, lambda p, x: p.a2b(P(p, x)), 1),
    "b2a": (2, lambda p, x: p.b2a(PB(p, x)), 1),
    "b2a-method-single": (2, lambda p, x: p.b2a(PB(p, x), method="single"), 1),
    "b2a_single": (2, lambda p, x: p.b2a_single(BIT(p, x)), 1),
    "bit_extract0": (2, lambda p, x: p.bit_extract(P(p, x), 0), 1),
    "bit_extract1": (2, lambda p, x: p.bit_extract(P(p, x), 1), 1),
    "msb": (2, lambda p, x: p.msb(P(p, x)), 1),
    "bits": (2, lambda p, x: p.bits(PB(p, x)), 1),
    "mul_ab": (2, lambda p, x, y: p.mul_ab(P(p, x), BIT(p, y)), 2),
    "mul_ab-public": (2, lambda p, x: p.mul_ab(a3.public(p, np.array([1])), BIT(p, x)), 1),
    "mul_ab-broadcast": (1, lambda p, x, y, z: p.mul_ab(P(p, x[:, None]), BIT(p, col(y, z))), 3),
    "mul_ab-broadcast-left": (1, lambda p, x, y, z: p.mul_ab(P(p, col(y, z)), BIT(p, x[:, None])), 3),
    "select": (2, lambda p, x, y: p.select(BIT(p, x ^ y), P(p, x), P(p, y)), 2, (-2, 1)),
    "less_than": (2, lambda p, x, y: P(p, x) < P(p, y), 2, (-2, 1)),
    "less_than-public": (2, lambda p, x: P(p, x) < 1, 1),
    "equal": (2, lambda p, x, y: p.equal(P(p, x), P(p, y)), 2, (-2, 1)),
    "equal_zero": (2, lambda p, x: p.equal_zero(P(p, x)), 1),
    "relu": (2, lambda p, x: p.relu(P(p, x)), 1),
    "maximum": (2, lambda p, x, y: p.maximum(P(p, x), P(p, y)), 2, (-2, 1)),
    "cmp_swap": (2, lambda p, x, y: p.cmp_swap(P(p, x), P(p, y)), 2, (-2, 1)),
    "reduce_max": (2, lambda p, x, y: p.reduce_max(P(p, col(x, y)), axis=1), 2, (-2, 1)),
    "trunc-secureq8": (3, lambda p, x: p.truncate_msb0(P(p, x), method="secureq8", amount=1), 1),
    "trunc-secureq8-2": (3, lambda p, x: p.truncate_msb0(P(p, x), method="secureq8", amount=2), 1),
    "trunc-cheetah": (2, lambda p, x: p.truncate_msb0(P(p, x), method="cheetah", amount=1), 1),
    "trunc-cheetah-2": (3, lambda p, x: p.truncate_msb0(P(p, x), method="cheetah", amount=1), 1),
    "trunc-local": (4, lambda p, x: p.truncate(P(p, x), method="local", amount=1), 1),
    "trunc-local-vec": (2, lambda p, x, y: p.truncate(P(p, col(x, y)), method="local", amount=1), 2),
    "trunc-heuristic": (3, lambda p, x: p.truncate(P(p, x), method="heuristic", amount=1), 1),
    "trunc-vec": (2, lambda p, x, y: p.truncate_msb0(P(p, col(x, y)), method="secureq8", amount=1), 2),
    "trunc-cheetah-vec": (2, lambda p, x, y: p.truncate_msb0(P(p, col(x, y)), method="cheetah", amount=1), 2),
    "mul-scaled": (4, lambda p, x: _scaled(p, x, lambda a, b: a * b), 1),
    "mul_trunc2": (2, lambda p, x, y: _scaled2(p, x, y, p.mul_trunc2), 2, (-2, 1)),
    "mul_trunc2-broadcast": (1, lambda p, x, y, z: p.mul_trunc2(_sc(p, x[:, None]), _sc(p, col(y, z))), 3),
    "mul_trunc2-1": (1, lambda p, x, y: _scaled2(p, x, y, p.mul_trunc2), 2),
    "random-sharing": (2, lambda p, x: P(p, x) + p._gen_random_sharing([len(x)], share_type=A), 1),
    "shuffle-rows": (2, lambda p, x, y: p.stack([P(p, y), P(p, x)], axis=1), 2),
    "assign": (2, lambda p, x, y: p.assign(P(p, x), P(p, y)), 2),
}


def _same(p, x):
    s = P(p, x)
    return s * s


def _sc(p, x):
    s = P(p, x)
    s.is_scaled = True
    return s


def _scaled(p, x, f):
    s = _sc(p, x)
    return f(s, s)


def _scaled2(p, x, y, f):
    return f(_sc(p, x), _sc(p, y))


def _twice(p, x, y):
    a, b = P(p, x), P(p, y)
    return a * b, a * a, b * b


# steps to be put one after the other: masks must not be shared between them
def _steps():
    S = {
        "mul": lambda p, a, b: a * b,
        "square": lambda p, a, b: a * a,
        "matmul": lambda p, a, b: p.matmul(a.reshape([-1, 1, 1]), b.reshape([-1, 1, 1])),
        "local": lambda p, a, b: p.truncate(a, method="local", amount=1),
        "secureq8": lambda p, a, b: p.truncate_msb0(a, method="secureq8", amount=1),
        "bit0": lambda p, a, b: p.mul_ab(a, p.bit_extract(b, 0)),
        "cheetah": lambda p, a, b: p.truncate_msb0(b, method="cheetah", amount=1),
        "xbit": lambda p, a, b: p.bit_extract(a, 0) & p.bit_extract(b, 0),
    }
    return S


def _pair(ck, f, g):
    S = _steps()

    def prog(p, x, y):
        a, b = P(p, x), P(p, y)
        S[f](p, a, b)
        S[g](p, b, a)

    secrecy.check(ck, _setup(2), prog, [(-2, 1), (-1, 0)] if ck.quick else [dom(2)] * 2, SERVERS, NAMES,
                  max_rows=600000 if ck.quick else 20000000, assigns=2 if ck.quick else 6, what="%s then %s" % (f, g))


REVEALS = {
    "reveal": (lambda p, x, y: (P(p, x).reveal(), P(p, y) * P(p, y)), lambda x, y: x),
    "reveal-sum": (lambda p, x, y: (P(p, x) + P(p, y)).reveal(), lambda x, y: (x + y) % 4),
    "reveal-bool": (lambda p, x, y: (PB(p, x) ^ PB(p, y)).reveal(), lambda x, y: (x ^ y) % 4),
    "reveal-product": (lambda p, x, y: (P(p, x) * P(p, y)).reveal(), lambda x, y: (x * y) % 4),
    "reveal-less": (lambda p, x, y: (P(p, x) < P(p, y)).reveal(), None),
    "reveal-and": (lambda p, x, y: (PB(p, x) & PB(p, y)).reveal(), lambda x, y: (x & y) % 4),
    "reveal-slice": (lambda p, x, y: P(p, col(x, y))[:, 0].reveal(), lambda x, y: x),
}


def _setup(k):
    # short words of the circuits live in rings of their own length, which keeps the number of masks down
    for n in (1, 2, 4):
        a3.factories[n] = smallring.ring(n)

    def setup():
        return rt.aby3(smallring.config(k), mode="script")

    return setup


def _op(ck, n):
    k, prog, ns = OPS[n][:3]
    d = dom(k) if len(OPS[n]) < 4 or not ck.quick else OPS[n][3]
    full, skipped = secrecy.check(ck, _setup(k), prog, [d] * ns, SERVERS, NAMES, max_rows=(2200000 if ck.quick else 20000000),
                                  assigns=2 if ck.quick else 8, what=n)


def _reveal(ck, n):
    prog, group = REVEALS[n]
    d = dom(2)
    if group is None:
        def group(x, y):
            return ((x - y + 2) % 4 - 2) < 0
    secrecy.check(ck, _setup(2), prog, [d, d], SERVERS, NAMES, group=group, max_rows=1500000 if ck.quick else 20000000, what=n)


def run(ck):
    for n in OPS:
        ck.case("op/" + n, _op, ck, n, kind="op")
    for f, g in itertools.product(_steps(), repeat=2):
        ck.case("pair/%s/%s" % (f, g), _pair, ck, f, g, kind="pair")
    for n in REVEALS:
        ck.case("reveal/" + n, _reveal, ck, n, kind="reveal")
