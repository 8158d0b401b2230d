"""C03: ABY3 boolean circuits and share conversions."""
import numpy as np
import tensorflow as tf

from vlib import a3, methods, rt, smallring, words
from tf_encrypted.tensor import factories

A, B = a3.A, a3.B


def run(ck):
    ck.case("methods", _methods, ck, "low")
    for k in (2, 4):
        small(ck, k)
    if not ck.quick:
        small(ck, 8)
    wide(ck, "low", 64)
    wide(ck, "high", 128)
    bools(ck)
    native(ck)
    shapes(ck)


def us(v, n):
    """Unsigned n-bit value, as object or int64."""
    v = np.asarray(v)
    if n >= 63:
        return v.astype(object) & ((1 << n) - 1)
    return v.astype(np.int64) & ((1 << n) - 1)


def bgather(v, start, stride, n):
    u = us(v, n)
    r = u * 0
    for j, b in enumerate(range(start, n, stride)):
        r = r | (((u >> b) & 1) << j)
    return r


def brev(v, n):
    u = us(v, n)
    r = u * 0
    for j in range(n):
        r = r | (((u >> j) & 1) << (n - 1 - j))
    return r


def xidx(v, n):
    u = us(v, n)
    r = u * 0
    for j in range(n):
        r = r ^ (((u >> j) & 1) * j)
    return r


def low(v, b):
    v = np.asarray(v)
    return v & ((1 << b) - 1)


def enter(p, v, kind, n):
    if kind == "u":
        return a3.public(p, v)
    return a3.private(p, v, share=kind)


def programs(n, full):
    """(name, operand kinds, program, plaintext on integers). Results are compared modulo 2^bits of the result."""
    yield "xor", (B, B), lambda p, x, y: p.xor(x, y), lambda x, y: x ^ y
    yield "op^", (B, B), lambda p, x, y: x ^ y, lambda x, y: x ^ y
    yield "xor-pu", (B, "u"), lambda p, x, y: x ^ y, lambda x, y: x ^ y
    yield "xor-up", ("u", B), lambda p, x, y: p.xor(x, y), lambda x, y: x ^ y
    yield "xor-uu", ("u", "u"), lambda p, x, y: p.xor(x, y), lambda x, y: x ^ y
    yield "and", (B, B), lambda p, x, y: p.and_(x, y), lambda x, y: x & y
    yield "op&", (B, B), lambda p, x, y: x & y, lambda x, y: x & y
    yield "and-pu", (B, "u"), lambda p, x, y: x & y, lambda x, y: x & y
    yield "and-up", ("u", B), lambda p, x, y: p.and_(x, y), lambda x, y: x & y
    yield "or", (B, B), lambda p, x, y: p.or_(x, y), lambda x, y: x | y
    yield "op|", (B, B), lambda p, x, y: x | y, lambda x, y: x | y
    yield "x&x", (B,), lambda p, x: x & x, lambda x: x
    yield "x^x", (B,), lambda p, x: x ^ x, lambda x: x * 0
    yield "x|~x", (B,), lambda p, x: x | ~x, lambda x: x * 0 - 1
    yield "not", (B,), lambda p, x: p.not_(x), lambda x: ~x
    yield "op~", (B,), lambda p, x: ~x, lambda x: ~x
    for s in range(n) if full else (1, n // 2, n - 1):
        yield "lshift%d" % s, (B,), lambda p, x, s=s: x << s, lambda x, s=s: x << s
        yield "alshift%d" % s, (A,), lambda p, x, s=s: p.lshift(x, s), lambda x, s=s: x << s
        yield "rshift%d" % s, (B,), lambda p, x, s=s: x >> s, lambda x, s=s: x >> s
        yield "lrshift%d" % s, (B,), lambda p, x, s=s: p.logical_rshift(x, s), lambda x, s=s: us(x, n) >> s
        yield "urshift%d" % s, ("u",), lambda p, x, s=s: x >> s, lambda x, s=s: x >> s
        yield "bextractB%d" % s, (B,), lambda p, x, s=s: p.bit_extract(x, s), lambda x, s=s: (x >> s) & 1
        if s > 0:
            yield "bextractA%d" % s, (A,), lambda p, x, s=s: p.bit_extract(x, s), lambda x, s=s: (x >> s) & 1
        yield "carry%d" % s, (B, B), lambda p, x, y, s=s: p.carry(x, y, pos=s), \
            lambda x, y, s=s: ((low(us(x, n), s + 1) + low(us(y, n), s + 1)) >> (s + 1)) & 1
    yield "carry", (B, B), lambda p, x, y: p.carry(x, y), lambda x, y: ((us(x, n) + us(y, n)) >> n) & 1
    yield "carry-pu", (B, "u"), lambda p, x, y: p.carry(x, y), lambda x, y: ((us(x, n) + us(y, n)) >> n) & 1
    yield "carry-up", ("u", B), lambda p, x, y: p.carry(x, y), lambda x, y: ((us(x, n) + us(y, n)) >> n) & 1
    yield "bextractA0", (A,), lambda p, x: p.bit_extract(x, 0), lambda x: x & 1
    yield "msbA", (A,), lambda p, x: p.msb(x), lambda x: (us(x, n) >> (n - 1)) & 1
    yield "msbB", (B,), lambda p, x: p.msb(x), lambda x: (us(x, n) >> (n - 1)) & 1
    yield "ppa-ks", (B, B), lambda p, x, y: p.ppa(x, y), lambda x, y: x + y
    if n >= 64:
        yield "ppa-sk", (B, B), lambda p, x, y: p.ppa(x, y, topology="sklansky"), lambda x, y: x + y
    for m in sorted({1, 2, 3, n // 2, n // 2 + 1, n - 1}):
        if m < n:
            yield "ppa-ks-n%d" % m, (B, B), lambda p, x, y, m=m: p.ppa(x, y, n_bits=m), lambda x, y, m=m: low(x + y, m)
            yield "a2b-n%d" % m, (A,), lambda p, x, m=m: p.a2b(x, m), lambda x, m=m: low(x, m)
    yield "a2b", (A,), lambda p, x: p.a2b(x), lambda x: x
    yield "a2b-nfull", (A,), lambda p, x: p.a2b(x, n), lambda x: x
    yield "b2a", (B,), lambda p, x: p.b2a(x), lambda x: x
    yield "b2a-nfull", (B,), lambda p, x: p.b2a(x, n), lambda x: x
    yield "a2b2a", (A,), lambda p, x: p.b2a(p.a2b(x)), lambda x: x
    yield "b2a2b", (B,), lambda p, x: p.a2b(p.b2a(x)), lambda x: x
    yield "bit_reverse", (B,), lambda p, x: p.bit_reverse(x), lambda x: brev(x, n)
    for st in (2, 4) if n > 4 else (2,):
        for s in range(st):
            yield "bgather%d-%d" % (s, st), (B,), lambda p, x, s=s, st=st: p.bit_gather(x, s, st), lambda x, s=s, st=st: bgather(x, s, st, n)
        yield "bsplit%d" % st, (B,), lambda p, x, st=st: p.bit_split_and_gather(x, st), \
            lambda x, st=st: np.stack([bgather(x, i, st, n) for i in range(st)])
    yield "bgather-u", ("u",), lambda p, x: p.bit_gather(x, 0, 2), lambda x: bgather(x, 0, 2, n)
    yield "bsplit-u", ("u",), lambda p, x: p.bit_split_and_gather(x, 2), lambda x: np.stack([bgather(x, i, 2, n) for i in range(2)])
    for b in sorted({1, 2, n // 2, n}):
        yield "bits%d" % b, (B,), lambda p, x, b=b: p.bits(x, bitsize=b), lambda x, b=b: np.stack([(x >> i) & 1 for i in range(b)], axis=-1)
    yield "bits", (B,), lambda p, x: p.bits(x), lambda x: np.stack([(x >> i) & 1 for i in range(n)], axis=-1)
    yield "b2a-single", (B,), lambda p, x: p.b2a_single(p.bit_extract(x, 0)), lambda x: x & 1
    yield "mul_ab", (A, B), lambda p, x, y: p.mul_ab(x, p.bit_extract(y, 0)), lambda x, y: x * (y & 1)
    yield "mul_ab-op", (A, B), lambda p, x, y: x * p.bit_extract(y, 0), lambda x, y: x * (y & 1)
    yield "mul_ab-u", ("u", B), lambda p, x, y: p.mul_ab(x, p.bit_extract(y, 0)), lambda x, y: x * (y & 1)
    for m in sorted({1, 2, n // 2, n - 1, n}):
        yield "b2a-single-n%d" % m, (B,), lambda p, x, m=m: p.b2a(x, m, method="other"), lambda x, m=m: low(x, m) if m < n else x


def _methods(ck, cfg):
    p = rt.aby3(cfg, mode="det")
    make = lambda k, v: a3.private(p, v, share=a3.B) if k == "p" else a3.public(p, v)
    methods.run(ck, methods.BITS, make, lambda z: a3.open_any(p, z).astype(np.int64), "methods", skip=[(k, l) for k in ("pu", "up", "uu") for l in ("or", "|", "and", "&") if k == "uu" or l in ("or", "|")]
                + [(k, l) for k in ("up", "uu") for l in ("~", "invert", "logical_rshift", "arith_rshift")])


def small(ck, k):
    lim = 200000 if ck.quick else 3000000
    d = np.arange(1 << k) - (1 << (k - 1))
    for name, kinds, f, g in programs(k, True):
        ck.case("small/k%d/%s" % (k, name), _small, ck, k, d, kinds, f, g, lim, kind="small")


def _same(k):
    def opener(p, o):
        v = a3.open_any(p, o)
        return v
    return opener


def _fit(p, o, want):
    n = a3.nbits_of(o.backing_dtype)
    return a3.wrap(want, n)


def _small(ck, k, d, kinds, f, g, lim):
    from vlib import explore

    def prog(p, *v):
        return f(p, *[enter(p, x, kd, k) for x, kd in zip(v, kinds)])

    def judge(p, o, sec, vals):
        ck.eq(a3.open_any(p, o), _fit(p, o, g(*sec)), "result", vals)

    rows, cols, complete = explore.run(lambda: rt.aby3(smallring.config(k), mode="script"), prog, [d] * len(kinds), judge, lim, 1)
    ck.tapes[ck.label] = dict(rows=rows, columns=cols, complete=complete)
    ck.count(0, states=rows, transitions=rows * max(1, cols), traces=rows)


def wide(ck, hp, n):
    for name, kinds, f, g in programs(n, True):
        ck.case("wide/%d/%s" % (n, name), _wide, ck, hp, n, kinds, f, g, kind="wide")


def _wide(ck, hp, n, kinds, f, g):
    if len(kinds) == 2:
        W = words.words(n, 1 if (n == 64 and not ck.quick) else 0)
        v = list(words.pairs(W))
    else:
        v = [np.array(words.words(n, 1 if ck.quick or n > 64 else 2), dtype=object)]
    if n == 64:
        v = [x.astype(np.int64) for x in v]
    p = rt.aby3(hp)
    o = f(p, *[enter(p, x, kd, n) for x, kd in zip(v, kinds)])
    want = g(*[x.astype(object) for x in v])
    ck.eq(a3.open_any(p, o), _fit(p, o, want), "result", v)
    ck.count(0, states=len(v[0]), transitions=len(v[0]), traces=len(v[0]))


# -- single bit sharings: everything -------------------------------------------
def bools(ck):
    ops = {
        "xor": lambda p, x, y: x ^ y, "and": lambda p, x, y: x & y, "or": lambda p, x, y: x | y,
        "not": lambda p, x, y: ~x, "nand": lambda p, x, y: ~(x & y), "b2a": lambda p, x, y: p.b2a_single(x ^ y),
    }
    truth = {
        "xor": lambda x, y: x ^ y, "and": lambda x, y: x & y, "or": lambda x, y: x | y, "not": lambda x, y: 1 - x,
        "nand": lambda x, y: 1 - (x & y), "b2a": lambda x, y: x ^ y,
    }
    for n in ops:
        ck.case("bool/%s" % n, _bools, ck, ops[n], truth[n])


def _bools(ck, f, g):
    def prog(p, x, y):
        X = p.define_private_variable(x.astype(bool), apply_scaling=False, share_type=B, factory=a3.BOOL)
        Y = p.define_private_variable(y.astype(bool), apply_scaling=False, share_type=B, factory=a3.BOOL)
        return f(p, X, Y)

    ck.tape(lambda: rt.aby3(smallring.config(2), mode="script"), prog, [[0, 1], [0, 1]],
            lambda x, y: g(x, y), a3.open_any, max_rows=600000)


# -- boolean words of the narrow native types ------------------------------------
def native(ck):
    for dt, n in ((tf.int8, 8), (tf.int16, 16), (tf.int32, 32)):
        for op in ("xor", "and", "or", "not", "lshift", "rshift", "lrshift", "bgather", "carry"):
            ck.case("native%d/%s" % (n, op), _native, ck, dt, n, op)


def _native(ck, dt, n, op):
    fac = factories[dt]
    W = np.arange(-128, 128) if n == 8 else np.array(words.words(n, 1), dtype=np.int64)
    x, y = (v.astype(np.int64) for v in words.pairs(list(W)))
    p = rt.aby3()
    X = p.define_private_variable(x, apply_scaling=False, share_type=B, factory=fac)
    Y = p.define_private_variable(y, apply_scaling=False, share_type=B, factory=fac)
    todo = {
        "xor": [(lambda: X ^ Y, lambda: x ^ y)], "and": [(lambda: X & Y, lambda: x & y)],
        "or": [(lambda: X | Y, lambda: x | y)], "not": [(lambda: ~X, lambda: ~x)],
        "lshift": [(lambda s=s: X << s, lambda s=s: x << s) for s in range(1, n, 3)],
        "rshift": [(lambda s=s: X >> s, lambda s=s: x >> s) for s in range(1, n, 3)],
        "lrshift": [(lambda s=s: p.logical_rshift(X, s), lambda s=s: us(x, n) >> s) for s in range(1, n, 3)],
        "bgather": [(lambda s=s: p.bit_gather(X, s, 2), lambda s=s: bgather(x, s, 2, n)) for s in (0, 1)],
        "carry": [(lambda: p.carry(X, Y), lambda: ((us(x, n) + us(y, n)) >> n) & 1)],
    }[op]
    for i, (a, b) in enumerate(todo):
        o = a()
        ck.eq(a3.open_any(p, o), _fit(p, o, b()), "%s %d" % (op, i), [x, y])
        ck.count(0, states=len(x), transitions=len(x), traces=len(x))


# -- shapes: conversions keep the shape and element order ----------------------
def shapes(ck):
    for hp, n in (("low", 64), ("high", 128)):
        for sh in ((), (1,), (3,), (2, 3), (2, 1, 3), (1, 2, 2, 2)):
            for name in ("a2b", "b2a", "msb", "b2a3", "mul_ab", "bits", "and-broadcast", "or-broadcast"):
                ck.case("shape/%d/%s/%s" % (n, name, sh), _shape, ck, hp, n, name, sh)


def _shape(ck, hp, n, name, sh):
    W = words.words(n, 0)
    m = int(np.prod(sh))
    v = np.array([W[(5 * i + 3) % len(W)] for i in range(m)], dtype=object).reshape(sh)
    v64 = a3.as_np(v) if n == 64 else v
    p = rt.aby3(hp)
    if name == "a2b":
        o, w = p.a2b(a3.private(p, v64)), v
    elif name == "b2a":
        o, w = p.b2a(a3.private(p, v64, share=B)), v
    elif name == "msb":
        o, w = p.msb(a3.private(p, v64)), (us(v, n) >> (n - 1)) & 1
    elif name == "b2a3":
        if sh == ():
            return
        o, w = p.b2a(a3.private(p, v64, share=B), 3), us(v, n) & 7
    elif name == "mul_ab":
        b = p.bit_extract(a3.private(p, v64, share=B), 0)
        o, w = p.mul_ab(a3.private(p, v64), b), v * (us(v, n) & 1)
    elif name == "bits":
        o, w = p.bits(a3.private(p, v64, share=B), 5), np.stack([(us(v, n) >> i) & 1 for i in range(5)], axis=-1)
    else:
        s = a3.private(p, np.asarray(v64)[..., None] if sh else np.asarray(v64), share=B)
        t = a3.private(p, a3.as_np(np.array(W[:4], dtype=object)) if n == 64 else np.array(W[:4], dtype=object), share=B)
        vb = v[..., None] if sh else v
        if name == "and-broadcast":
            o, w = s & t, vb & np.array(W[:4], dtype=object)
        else:
            o, w = t | s, vb | np.array(W[:4], dtype=object)
    ck.eq(a3.open_any(p, o), _fit(p, o, np.asarray(w, dtype=object)), name)
    ck.count(0, states=max(1, m), transitions=1, traces=1)
