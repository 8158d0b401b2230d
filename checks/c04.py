"""C04: ABY3 comparison, selection, maxima, sorting."""
import itertools

import numpy as np
import tensorflow as tf

from vlib import a3, methods, plain, rt, smallring, words

A, B = a3.A, a3.B


def _methods(ck, cfg):
    p = rt.aby3(cfg, mode="det")
    make = lambda k, v: a3.private(p, v) if k == "p" else a3.public(p, v)
    methods.run(ck, methods.ORDER + methods.MAX, make, lambda z: a3.open_any(p, z).astype(np.int64), "methods", kinds=("pp", "pu", "up"), skip=[("up", m[0]) for m in methods.MAX])


def run(ck):
    ck.case("methods", _methods, ck, "low")
    small(ck)
    wide(ck)
    scaled(ck)
    selects(ck)
    maxima(ck)
    sorts(ck)
    pools(ck)


CMP = {
    "gt": (lambda p, x, y: x > y, lambda x, y: x > y),
    "ge": (lambda p, x, y: x >= y, lambda x, y: x >= y),
    "lt": (lambda p, x, y: x < y, lambda x, y: x < y),
    "le": (lambda p, x, y: x <= y, lambda x, y: x <= y),
    "greater_than": (lambda p, x, y: p.greater_than(x, y), lambda x, y: x > y),
    "greater_equal": (lambda p, x, y: p.greater_equal(x, y), lambda x, y: x >= y),
    "less_than": (lambda p, x, y: p.less_than(x, y), lambda x, y: x < y),
    "less_equal": (lambda p, x, y: p.less_equal(x, y), lambda x, y: x <= y),
    "equal": (lambda p, x, y: p.equal(x, y), lambda x, y: x == y),
}
PAIR = {
    "maximum": (lambda p, x, y: p.maximum(x, y), np.maximum),
    "cmp_swap": (lambda p, x, y: list(p.cmp_swap(x, y)), lambda x, y: [np.minimum(x, y), np.maximum(x, y)]),
}
ONE = {
    "relu": (lambda p, x: p.relu(x), lambda x: np.maximum(x, 0)),
    "relu_with_cmp": (lambda p, x: list(p.relu_with_cmp(x)), lambda x: [np.maximum(x, 0), (x > 0).astype(np.int64)]),
    "equal_zero": (lambda p, x: p.equal_zero(x), lambda x: (x == 0).astype(np.int64)),
}


def _ent(p, v, kind, scaled=False):
    if kind == "p":
        return a3.private(p, v, scaled=scaled)
    return a3.public(p, v, scaled=scaled)


def _i(v):
    if isinstance(v, list):
        return [_i(t) for t in v]
    v = np.asarray(v)
    return v.astype(np.int64) if v.dtype == bool else v


def small(ck):
    lim = 60000 if ck.quick else 2000000
    for k in (2, 4):
        h = 1 << (k - 2)
        d = np.arange(-h, h)
        allv = np.arange(-2 * h, 2 * h)
        setup = lambda k=k: rt.aby3(smallring.config(k), mode="script")
        for n, (f, g) in CMP.items():
            for kx, ky in (("p", "p"), ("p", "u"), ("u", "p")):
                if "_" not in n and kx == "u":
                    continue
                ck.case("small/k%d/%s/%s%s" % (k, n, kx, ky), ck.tape, setup,
                        lambda p, x, y, f=f, kx=kx, ky=ky: f(p, _ent(p, x, kx), _ent(p, y, ky)), [d, d],
                        lambda x, y, g=g: _i(g(x, y)), a3.open_any, max_rows=lim, kind="small")
        for n, (f, g) in PAIR.items():
            for kx, ky in (("p", "p"), ("p", "u")):
                ck.case("small/k%d/%s/%s%s" % (k, n, kx, ky), ck.tape, setup,
                        lambda p, x, y, f=f, kx=kx, ky=ky: f(p, _ent(p, x, kx), _ent(p, y, ky)), [d, d],
                        lambda x, y, g=g: _i(g(x, y)), a3.open_any, max_rows=lim, kind="small")
        for n, (f, g) in ONE.items():
            dom = allv[1:] if n != "equal_zero" else allv
            ck.case("small/k%d/%s" % (k, n), ck.tape, setup, lambda p, x, f=f: f(p, _ent(p, x, "p")), [dom],
                    lambda x, g=g: _i(g(x)), a3.open_any, max_rows=lim, kind="small")
        ck.case("small/k%d/select" % k, ck.tape, setup,
                lambda p, x, y, b: p.select(p.bit_extract(a3.private(p, b, share=B), 0), _ent(p, x, "p"), _ent(p, y, "p")),
                [np.arange(-2 * h, 2 * h)] * 2 + [[-1, 0]], lambda x, y, b: np.where(b == 0, x, y), a3.open_any, max_rows=lim, kind="small")


def wide(ck):
    for hp, n in (("low", 64), ("high", 128)):
        for nm, (f, g) in list(CMP.items()) + list(PAIR.items()):
            for kx, ky in (("p", "p"), ("p", "u"), ("u", "p")):
                if kx == "u" and (nm in PAIR or "_" not in nm):
                    continue
                ck.case("wide/%d/%s/%s%s" % (n, nm, kx, ky), _wide2, ck, hp, n, f, g, kx, ky, kind="wide")
        for nm, (f, g) in ONE.items():
            ck.case("wide/%d/%s" % (n, nm), _wide1, ck, hp, n, f, g, kind="wide")
        for c in (0, 1, -1, 7, 1000):
            ck.case("wide/%d/python%d" % (n, c), _widec, ck, hp, n, c, kind="wide")


def _check(ck, p, o, w, v):
    if not isinstance(o, list):
        o, w = [o], [w]
    for i, (a, b) in enumerate(zip(o, w)):
        b = np.asarray(b)
        if b.dtype == bool:
            b = b.astype(np.int64)
        ck.eq(a3.open_any(p, a), b, "output %d" % i, v)


def _wide2(ck, hp, n, f, g, kx, ky):
    W = [w for w in words.words(n, 1 if n == 64 and not ck.quick else 0) if abs(w) < 1 << (n - 2)] + [3, 5, -6, 1 << 30, -(1 << 31)]
    x, y = words.pairs(W)
    if n == 64:
        x, y = x.astype(np.int64), y.astype(np.int64)
    p = rt.aby3(hp)
    _check(ck, p, f(p, _ent(p, x, kx), _ent(p, y, ky)), g(x, y), [x, y])
    ck.count(0, states=len(x), transitions=len(x), traces=len(x))


def _wide1(ck, hp, n, f, g):
    W = np.array([w for w in words.words(n, 1) if w > -(1 << (n - 1))], dtype=object)
    if n == 64:
        W = W.astype(np.int64)
    p = rt.aby3(hp)
    o = f(p, _ent(p, W, "p"))
    if isinstance(g(np.array([1])), list):
        w = [np.array([max(t, 0) for t in W], dtype=object), np.array([int(t > 0) for t in W])]
    elif g(np.array([5]))[0] == 5:
        w = np.array([max(t, 0) for t in W], dtype=object)
    else:
        w = np.array([int(t == 0) for t in W])
    _check(ck, p, o, w, [W])
    ck.count(0, states=len(W), transitions=len(W), traces=len(W))


def _widec(ck, hp, n, c):
    W = np.array([w for w in words.words(n, 1) if abs(w) < 1 << (n - 2)], dtype=object)
    if n == 64:
        W = W.astype(np.int64)
    p = rt.aby3(hp)
    x = _ent(p, W, "p")
    for nm, o, w in (("gt", x > c, W > c), ("ge", x >= c, W >= c), ("lt", x < c, W < c), ("le", x <= c, W <= c),
                     ("c-gt", p.greater_than(c, x), c > W), ("c-lt", p.less_than(c, x), c < W),
                     ("c-ge", p.greater_equal(c, x), c >= W), ("c-le", p.less_equal(c, x), c <= W),
                     ("eq", p.equal(x, c), W == c), ("r-gt", c > x, c > W), ("r-le", c <= x, c <= W)):
        ck.eq(a3.open_any(p, o), np.asarray(w).astype(np.int64), nm, [W])
    ck.count(0, states=len(W), transitions=11, traces=11)


def scaled(ck):
    """Fixed-point operands and decoded results."""
    for hp in ("low", "high"):
        for nm, (f, g) in list(CMP.items()) + list(PAIR.items()):
            ck.case("scaled/%s/%s" % (hp, nm), _scaled, ck, hp, f, g)
        ck.case("scaled/%s/relu" % hp, _scaled1, ck, hp)


def _grid(fc):
    s = 2.0**-fc.precision_fractional
    t = 2.0 ** (fc.precision_integral - 1)
    v = [0, s, -s, 2 * s, 1, -1, 1 + s, 1 - s, 0.5, -0.5, 3.25, -3.25, 100, -100, t - s, -t + s, t / 2]
    return np.array(sorted(set(v)))


def _scaled(ck, hp, f, g):
    p = rt.aby3(hp)
    v = _grid(p.fixedpoint_config)
    x, y = np.repeat(v, len(v)), np.tile(v, len(v))
    o = f(p, a3.private(p, x, scaled=True), a3.private(p, y, scaled=True))
    w = g(x, y)
    if not isinstance(o, list):
        o, w = [o], [w]
    for a, b in zip(o, w):
        ck.true(a.is_scaled == (np.asarray(b).dtype != bool), "is_scaled %s" % a.is_scaled)
        ck.close(a3.opened(p, a), np.asarray(b).astype(np.float64), 0, "result", [x, y])
    ck.count(0, states=len(x), transitions=1, traces=1)


def _scaled1(ck, hp):
    p = rt.aby3(hp)
    v = _grid(p.fixedpoint_config)
    x = a3.private(p, v, scaled=True)
    ck.close(a3.opened(p, p.relu(x)), np.maximum(v, 0), 0, "relu", [v])
    for c in (0.5, -1, 3.25):
        ck.eq(a3.open_any(p, x > c), (v > c).astype(np.int64), "x > %s" % c, [v])
        ck.eq(a3.open_any(p, x <= c), (v <= c).astype(np.int64), "x <= %s" % c, [v])
        ck.eq(a3.open_any(p, p.equal(x, c)), (v == c).astype(np.int64), "x == %s" % c, [v])
    ck.count(0, states=len(v), transitions=10, traces=10)


# -- selection --------------------------------------------------------------------
def selects(ck):
    for hp, n in (("low", 64), ("high", 128)):
        for form in ("pp", "pu", "up", "uu", "const", "bool", "boolword"):
            ck.case("select/%d/%s" % (n, form), _select, ck, hp, n, form)
        for sb, sx in (((3,), (2, 3)), ((1,), (4,)), ((2, 1), (2, 3)), ((), (3,)), ((2, 3), (2, 3))):
            ck.case("select-broadcast/%d/%s%s" % (n, sb, sx), _selectb, ck, hp, n, sb, sx)


def _bit(p, b):
    return p.define_private_variable(np.asarray(b).astype(bool), apply_scaling=False, share_type=B, factory=a3.BOOL)


def _select(ck, hp, n, form):
    W = words.words(n, 0)
    x, y = words.pairs(W)
    if n == 64:
        x, y = x.astype(np.int64), y.astype(np.int64)
    for phase in (0, 1):
        b = (np.arange(len(x)) + phase) % 2
        p = rt.aby3(hp)
        if form == "const":
            o = p.select(_bit(p, b), 0, _ent(p, y, "p"))
            w = np.where(b == 0, 0 * y, y)
        elif form == "bool":
            xb, yb = (x & 1).astype(np.int64), (y & 1).astype(np.int64)
            o = p.select(_bit(p, b), _bit(p, xb), _bit(p, yb))
            w = np.where(b == 0, xb, yb)
        elif form == "boolword":
            # the choice is a boolean word of zeros or ones
            c = np.where(b == 0, 0 * x, 0 * x - 1)
            o = p.select(a3.private(p, c, share=B), a3.private(p, x, share=B), a3.private(p, y, share=B))
            w = np.where(b == 0, x, y)
        else:
            o = p.select(_bit(p, b), _ent(p, x, form[0]), _ent(p, y, form[1]))
            w = np.where(b == 0, x, y)
        ck.eq(a3.open_any(p, o), w, "select", [b, x, y])
        ck.count(0, states=len(x), transitions=1, traces=1)


def _selectb(ck, hp, n, sb, sx):
    m = int(np.prod(sx))
    x = np.arange(m).reshape(sx) - 3
    y = 100 + np.arange(m).reshape(sx)
    for b in itertools.product((0, 1), repeat=int(np.prod(sb))):
        b = np.array(b).reshape(sb)
        p = rt.aby3(hp)
        o = p.select(_bit(p, b), _ent(p, x, "p"), _ent(p, y, "p"))
        ck.eq(a3.open_any(p, o), np.where(b == 0, x, y), "select %s" % b.tolist())
        ck.count(0, states=1, transitions=1, traces=1)


# -- maxima ------------------------------------------------------------------------
def maxima(ck):
    for n in (1, 2, 3, 4, 5) if ck.quick else (1, 2, 3, 4, 5, 6, 7):
        for method in ("tree", "network"):
            for axis in (0, 1, -1):
                for keep in (False, True):
                    ck.case("reduce_max/%s/n%d/axis%s/%s" % (method, n, axis, keep), _rmax, ck, n, method, axis, keep)
        for axis in (0, 1, -1, -2):
            for keep in (False, True):
                ck.case("argmax/n%d/axis%d/%s" % (n, axis, keep), _argmax, ck, n, axis, keep)
    for sh in ((3,), (2, 2), (1, 4), (2, 1, 2), (5,)):
        for keep in (False, True):
            ck.case("reduce_max/all/tree/%s/%s" % (sh, keep), _rmaxall, ck, sh, keep, "tree")
            ck.case("reduce_max/all/network/%s/%s" % (sh, keep), _rmaxall, ck, sh, keep, "network")
    for hp in ("low", "high"):
        ck.case("argmax/wide/%s" % hp, _argmaxw, ck, hp)
        ck.case("reduce_max/wide/%s" % hp, _rmaxw, ck, hp)


def _seqs(n, d=(-4, -1, 0, 3)):
    return np.array(list(itertools.product(d, repeat=n)), dtype=np.int64)


def _rmax(ck, n, method, axis, keep):
    s = _seqs(n, (-4, -1, 0, 3) if n <= 5 else (-4, 0, 3))
    if axis == 0:
        s = s.T
    p = rt.aby3(smallring.config(4))
    o = p.reduce_max(a3.private(p, s), axis=axis, keepdims=keep, method=method)
    ck.eq(a3.open_any(p, o), s.max(axis=axis, keepdims=keep), "reduce_max")
    ck.count(0, states=s.shape[1 if axis == 0 else 0], transitions=1, traces=1)


def _rmaxall(ck, sh, keep, method):
    n = int(np.prod(sh))
    # 0-1 principle: every two-valued input; then rotations of distinct values
    rows = list(_seqs(n, (-4, 3))) + [np.roll(np.arange(n) - 2, i) for i in range(n)]
    for i, row in enumerate(rows):
        p = rt.aby3(smallring.config(4))
        o = p.reduce_max(a3.private(p, row.reshape(sh)), keepdims=keep, method=method)
        ck.eq(a3.open_any(p, o), np.max(row.reshape(sh), keepdims=keep), "reduce_max of %s" % row)
        ck.count(0, states=1, transitions=1, traces=1)


def _judge_onehot(ck, oh, s, axis):
    """Exactly one mark per row, on a maximal position."""
    ck.eq(oh.sum(axis=axis), np.ones(np.max(s, axis=axis).shape, dtype=np.int64), "number of marks")
    ck.eq((oh * s).sum(axis=axis), s.max(axis=axis), "marked value")


def _argmax(ck, n, axis, keep):
    s = _seqs(n, (-4, -1, 0, 3) if n <= 5 else (-4, 0, 3))
    if axis in (0, -2):
        s = s.T
    p = rt.aby3(smallring.config(4))
    m, am = p.reduce_max_with_argmax(a3.private(p, s), axis=axis, keepdims=keep)
    ck.eq(a3.open_any(p, m), s.max(axis=axis, keepdims=keep), "maximum")
    ck.true(isinstance(am, a3.ABY3PrivateTensor), "the position stays private")
    ck.eq(np.array(a3.open_any(p, am).shape), np.array(s.shape), "shape of the one-hot")
    _judge_onehot(ck, a3.open_any(p, am), s, axis)
    _judge_onehot(ck, a3.open_any(p, p.argmax(a3.private(p, s), axis=axis)), s, axis)
    ck.count(0, states=s.shape[1 if axis in (0, -2) else 0], transitions=2, traces=2)


def _argmaxw(ck, hp):
    p = rt.aby3(hp)
    x = np.array(list(itertools.permutations([-5.5, 0.25, 3.0, 100.125])))
    m, am = p.reduce_max_with_argmax(a3.private(p, x, scaled=True), axis=1)
    ck.close(a3.opened(p, m), x.max(axis=1), 0, "maximum")
    ck.eq(a3.open_any(p, am), np.eye(4, dtype=np.int64)[x.argmax(axis=1)], "one-hot")
    n = p.argmax(a3.private(p, x, scaled=True), axis=1, output_style="normal")
    ck.close(a3.opened(p, n), x.argmax(axis=1), 0, "index")
    x3 = x.reshape(4, 6, 4)
    for axis in (0, 1, 2, -1, -2, -3):
        m, am = p.reduce_max_with_argmax(a3.private(p, x3, scaled=True), axis=axis)
        ck.close(a3.opened(p, m), x3.max(axis=axis), 0, "maximum axis %d" % axis)
        oh = a3.open_any(p, am)
        ck.eq(oh.sum(axis=axis), np.ones(x3.max(axis=axis).shape, dtype=np.int64), "marks axis %d" % axis)
        ck.close((oh * x3).sum(axis=axis), x3.max(axis=axis), 0, "marked value axis %d" % axis)
    ck.count(0, states=len(x), transitions=5, traces=5)


def _rmaxw(ck, hp):
    p = rt.aby3(hp)
    x = np.array(list(itertools.permutations([-5.5, 0.25, 3.0, 100.125])))
    for method in ("tree", "network"):
        for axis in (0, 1, -1):
            o = p.reduce_max(a3.private(p, x, scaled=True), axis=axis, method=method)
            ck.close(a3.opened(p, o), x.max(axis=axis), 0, "%s axis %s" % (method, axis))
    ck.close(a3.opened(p, a3.private(p, x, scaled=True).reduce_max(axis=1)), x.max(axis=1), 0, "tensor.reduce_max")
    if hp == "low":
        ck.close(a3.opened(p, p.reduce_max(a3.public(p, x, scaled=True), axis=1)), x.max(axis=1), 0, "public")
    ck.count(0, states=len(x), transitions=7, traces=7)


# -- sorting -------------------------------------------------------------------------
def sorts(ck):
    for n in (1, 2, 3, 4, 5) if ck.quick else (1, 2, 3, 4, 5, 6):
        for acc in (True, False):
            for axis in (0, 1, -1):
                ck.case("sort/n%d/axis%d/%s" % (n, axis, acc), _sort, ck, n, axis, acc, (-64, -1, 0, 63))
    for n in (6, 7, 8, 9) if ck.quick else (7, 8, 9, 10, 11, 12, 13):
        for acc in (True, False):
            # a comparator network sorts everything if it sorts all 0-1 sequences
            ck.case("sort01/n%d/%s" % (n, acc), _sort, ck, n, 1, acc, (-64, 63))
    ck.case("sort/wideint", _wideint, ck)
    for hp in ("low", "high"):
        for axis in (0, 1, 2, -1, -2):
            ck.case("sort/scaled/%s/axis%d" % (hp, axis), _sorts, ck, hp, axis)


def _sort(ck, n, axis, acc, d):
    s = _seqs(n, d)
    if axis == 0:
        s = s.T
    p = rt.aby3(smallring.config(8))  # indices are ring elements too
    o = p.sort(a3.private(p, s), axis, acc=acc)
    w = np.sort(s, axis=axis)
    if not acc:
        w = np.flip(w, axis=axis)
    ck.eq(a3.open_any(p, o), w, "sort")
    ck.count(0, states=s.size // n, transitions=1, traces=1)


WIDE = [1 - (1 << 62), 1 - (1 << 33), 7, 1 << 40, (1 << 62) - 1]


def _wideint(ck):
    """Values over the whole range whose differences fit."""
    p = rt.aby3("low")
    for n in (2, 3, 5):
        x = np.array(list(itertools.permutations(WIDE, n)), dtype=np.int64)
        for acc in (True, False):
            w = np.sort(x, axis=1)
            ck.eq(a3.open_any(p, p.sort(a3.private(p, x), 1, acc=acc)), w if acc else w[:, ::-1], "sort %d" % n, [x])
        for m in ("tree", "network"):
            ck.eq(a3.open_any(p, p.reduce_max(a3.private(p, x), axis=1, method=m)), x.max(axis=1), "reduce_max %d %s" % (n, m), [x])
        v, am = p.reduce_max_with_argmax(a3.private(p, x), axis=1)
        ck.eq(a3.open_any(p, v), x.max(axis=1), "max %d" % n, [x])
        ck.eq(a3.open_any(p, am), np.eye(n, dtype=np.int64)[x.argmax(axis=1)], "one-hot %d" % n, [x])
        ck.count(0, states=len(x), transitions=6, traces=6)


def _sorts(ck, hp, axis):
    p = rt.aby3(hp)
    x = np.array(list(itertools.permutations([-5.5, 0.25, 3.0, 100.125])))[:, :3].reshape(4, 6, 3)
    for acc in (True, False):
        o = p.sort(a3.private(p, x, scaled=True), axis, acc=acc)
        w = np.sort(x, axis=axis)
        ck.close(a3.opened(p, o), w if acc else np.flip(w, axis=axis), 0, "sort")
    ck.count(0, states=x.size, transitions=2, traces=2)


# -- max pooling ------------------------------------------------------------------------
def pools(ck):
    for hp in ("low", "high"):
        for h, w in ((4, 4), (5, 4), (3, 3)):
            for pool in ((2, 2), (3, 2), (1, 2)):
                for st in ((1, 1), (2, 2), (2, 1)):
                    for pad in ("VALID", "SAME"):
                        if hp == "high" and (h, w) != (4, 4):
                            continue
                        ck.case("maxpool/%s/%dx%d/%s/%s/%s" % (hp, h, w, pool, st, pad), _pool, ck, hp, h, w, pool, st, pad)
    ck.case("maxpool-border", _pool_border, ck)


def _pool_border(ck):
    """Windows reaching over the border with only negative values (other windows: _pool)."""
    p = rt.aby3("low")
    x = -(((np.arange(2 * 4 * 4) * 37) % 101 + 1).reshape(1, 2, 4, 4) / 4.0)
    want = plain.maxpool(x, (2, 2), (1, 1), "SAME")
    got = a3.opened(p, p.maxpool2d(a3.private(p, x, scaled=True), (2, 2), (1, 1), "SAME"))
    ck.either(got, want, plain.maxpool(x, (2, 2), (1, 1), "SAME", fill=0), 0, "finding:maxpool-same-negative", "maxpool2d SAME of negative values")


def _pool(ck, hp, h, w, pool, st, pad):
    p = rt.aby3(hp)
    # Positive entries with SAME: patches are padded with zeros (see maxpool-border).
    x = (((np.arange(2 * 2 * h * w) * 37) % 101) - (50 if pad == "VALID" else -1)).reshape(2, 2, h, w).astype(np.float64) / 4
    want = plain.maxpool(x, pool, st, pad)
    X = a3.private(p, x, scaled=True)
    ck.close(a3.opened(p, p.maxpool2d(X, pool, st, pad)), want, 0, "maxpool2d")
    m, am = p.maxpool2d_with_argmax(X, pool, st, pad)
    ck.close(a3.opened(p, m), want, 0, "maxpool2d_with_argmax")
    a = a3.open_any(p, am)
    ck.eq(a.sum(axis=-1), np.ones(want.shape, dtype=np.int64), "marks")
    ck.count(0, states=want.size, transitions=2, traces=2)
