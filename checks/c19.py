"""C19: variables return the last value assigned, and a result depends on the arguments only, not on earlier calls."""
import gc
import itertools

import numpy as np

from vlib import a3, pd, rt
import tensorflow as tf
import tf_encrypted as tfe
from tf_encrypted.protocol.aby3 import ABY3

PROTS = ("aby3-64", "aby3-128", "pond-64", "pond-100", "securenn")


def start(name, debug=False):
    if name == "aby3-64":
        return rt.aby3("l", debug=debug)
    if name == "aby3-128":
        return rt.aby3("h", debug=debug)
    if name == "pond-64":
        return pd.pond("low", debug=debug)
    if name == "pond-100":
        return pd.pond("high", debug=debug)
    return pd.pond("low", debug=debug, cls=pd.SecureNN)


def value(x):
    """What a tensor holds; a revealed one if private."""
    y = x.reveal() if hasattr(x, "reveal") else x
    v = np.asarray(y.to_native()).astype(np.float64)
    return v.reshape(()) if x.shape == [] or tuple(x.shape) == () else v  # CRT decoding gives scalars a dimension


# -- histories of assignments ---------------------------------------------------------------------------
def _histories(ck, name, debug, depth, part, parts, scaled=False, graph=False):
    """All sequences of assignments, computations and reads up to the depth, one after the other in one session."""
    p = start(name, debug)
    sh = (2,)
    # exact whether scaled or not: products of integers have no rounding worth more than the tolerance
    c1, c2, d1, d2 = (np.array(v, dtype=np.float64) for v in ([3, -4], [-7, 2], [5, 6], [-1, 9]))
    conv = (lambda v: v) if scaled else (lambda v: v.astype(np.int64))
    X, Y = (p.define_private_variable(conv(v), apply_scaling=scaled) for v in (c1, d1))
    U = p.define_public_variable(conv(d2), apply_scaling=scaled)
    C = [p.define_private_variable(conv(v), apply_scaling=scaled).read_value() for v in (c1, c2, d1)]
    D = [p.define_public_variable(conv(v), apply_scaling=scaled).read_value() for v in (d1, d2)]
    tol = 2.0 ** -6 if scaled else 0
    R = lambda v: v.read_value()

    def keep(s, t):
        s["kept"].append((t, s["model"](s)))

    # name: (what it does, what the model does)
    acts = {
        "X:=c1": (lambda s: p.assign(X, C[0]), lambda m: m.update(X=c1)),
        "X:=c2": (lambda s: p.assign(X, C[1]), lambda m: m.update(X=c2)),
        "Y:=d1": (lambda s: p.assign(Y, C[2]), lambda m: m.update(Y=d1)),
        "U:=d1": (lambda s: p.assign(U, D[0]), lambda m: m.update(U=d1)),
        "U:=d2": (lambda s: p.assign(U, D[1]), lambda m: m.update(U=d2)),
        "Y:=X": (lambda s: p.assign(Y, R(X)), lambda m: m.update(Y=m["X"])),
        "X:=X-Y": (lambda s: p.assign(X, R(X) - R(Y)), lambda m: m.update(X=m["X"] - m["Y"])),
        "X:=-X+U": (lambda s: p.assign(X, R(U) - R(X)), lambda m: m.update(X=m["U"] - m["X"])),
        "keep X*Y": (lambda s: R(X) * R(Y), lambda m: m["X"] * m["Y"]),
        "keep X": (lambda s: R(X), lambda m: m["X"]),
        "open X": (lambda s: R(X).reveal(), lambda m: m["X"]),
    }
    compiled = {}

    def do(a):
        if not graph or a.startswith(("keep", "open")):
            return acts[a][0](None)
        if a not in compiled:
            compiled[a] = tf.function(lambda: acts[a][0](None))
        return compiled[a]()

    names = list(acts)
    k = 0
    for seq in itertools.product(names, repeat=depth):
        k += 1
        if k % parts != part:
            continue
        p.assign(X, C[0]), p.assign(Y, C[2]), p.assign(U, D[1])
        m, kept = dict(X=c1, Y=d1, U=d2), []
        for a in seq:
            r = do(a)
            w = acts[a][1](m)
            if w is not None:
                kept.append((a, r, w))
        for n, v in (("X", X), ("Y", Y), ("U", U)):
            for again in range(2):
                ck.close(value(R(v)), m[n], tol, "%s after %s" % (n, seq))
        for a, r, w in kept:
            ck.close(value(r), w, tol * 16, "what '%s' kept after %s" % (a, seq))
        ck.count(0, states=depth + 1, transitions=depth, traces=1)


def _kinds(ck, name, debug):
    """Variables of every kind, shape and ring: initial values, assignment, reads after computing with them."""
    p = start(name, debug)
    for sh in [(), (1,), (3,), (2, 3), (2, 1, 2)]:
        n = int(np.prod(sh))
        a = (np.arange(n) * 3 - 2).reshape(sh)
        b = (np.arange(n) * -5 + 4).reshape(sh)
        forms = [("private", True, {}), ("private", False, {}), ("public", True, {}), ("public", False, {})]
        if name.startswith("aby3"):
            forms += [("private", s, dict(share_type=a3.B)) for s in (True, False)]
            forms += [("bit", False, dict(share_type=a3.B, factory=a3.BOOL)), ("pubbit", False, dict(factory=a3.BOOL))]
        for kind, scaled, kw in forms:
            f = p.define_public_variable if kind.startswith("pub") else p.define_private_variable
            va, vb = (a & 1, b >> 1 & 1) if "bit" in kind else (a, b)
            conv = (lambda v: np.asarray(v, dtype=bool)) if "bit" in kind else (lambda v: np.asarray(v / 4 if scaled else v))
            wa, wb = conv(va).astype(np.float64), conv(vb).astype(np.float64)
            x, y = f(conv(va), apply_scaling=scaled, **kw), f(conv(vb), apply_scaling=scaled, **kw)
            what = "%s%s variable of shape %s" % ("scaled " if scaled else "", kind, sh)
            ck.close(value(x.read_value()), wa, 2.0 ** -12, what + " at first")
            t = x.read_value()
            for i in range(2):
                p.assign(x, y.read_value())
                ck.close(value(x.read_value()), wb, 2.0 ** -12, what + " assigned")
                ck.close(value(t), wa, 2.0 ** -12, what + ": a value read before")
                ck.close(value(y.read_value()), wb, 2.0 ** -12, what + ": the source")
                p.assign(x, t)
                ck.close(value(x.read_value()), wa, 2.0 ** -12, what + " assigned back")
                p.assign(y, x.read_value())
                ck.close(value(y.read_value()), wa, 2.0 ** -12, what + ": the other")
                p.assign(x, f(conv(vb), apply_scaling=scaled, **kw))
                ck.close(value(x.read_value()), wb, 2.0 ** -12, what + " from a variable")
                ck.close(value(y.read_value()), wa, 2.0 ** -12, what + ": independent")
                p.assign(x, t), p.assign(y, f(conv(vb), apply_scaling=scaled, **kw).read_value())
            if scaled:
                z = f(va, apply_scaling=False, **kw)
                try:
                    p.assign(x, z)
                except AssertionError:
                    pass
                else:
                    ck.fail(what + " took an unscaled value")
            if kind == "private" and name.startswith("aby3"):
                z = f(conv(va), apply_scaling=scaled, share_type=a3.A if kw.get("share_type") == a3.B else a3.B)
                before = value(x.read_value())
                try:
                    p.assign(x, z)
                except AssertionError:
                    ck.close(value(x.read_value()), before, 2.0 ** -12, what + " after a refused value")
                else:
                    ck.close(value(x.read_value()), wa, 2.0 ** -12, what + " took a value of the other share type")
            ck.count(0, states=6, transitions=6, traces=1)


# -- calls with different arguments -----------------------------------------------------------------------
def common(p, x, y, X, Y):
    """(label, call, expected): several arguments for each operation."""
    L = []
    add = lambda n, f, w: L.append((n, f, w))
    for c in (1, 1.0, 2, 2.0, -1, 0.5, 0, True):
        add("add %r" % c, lambda c=c: p.add(x, c), X + c)
        add("sub %r" % c, lambda c=c: p.sub(x, c), X - c)
        if c is not True:
            add("mul %r" % c, lambda c=c: p.mul(x, c), X * c)
    add("add y", lambda: p.add(x, y), X + Y)
    add("sub y", lambda: p.sub(x, y), X - Y)
    add("rsub y", lambda: p.sub(y, x), Y - X)
    add("mul y", lambda: p.mul(x, y), X * Y)
    add("mul x", lambda: p.mul(x, x), X * X)
    add("square", lambda: p.square(x), X * X)
    add("matmul", lambda: p.matmul(x, y), X @ Y)
    add("rmatmul", lambda: p.matmul(y, x), Y @ X)
    add("negative", lambda: p.negative(x), -X)
    for v in () if not isinstance(p, ABY3) else (np.ones((4, 4)), np.ones((4, 4)) * 2, np.eye(4), np.ones(4), np.ones((4, 1)), np.arange(4.0), np.arange(4.0).reshape(4, 1), np.arange(4.0).reshape(1, 4)):
        add("add array", lambda v=v: p.add(x, v), X + v)
        add("mul array", lambda v=v: p.mul(x, v), X * v)
    for pm in (None, [0, 1], [1, 0], (1, 0), (0, 1)):
        add("transpose %s" % (pm,), lambda pm=pm: p.transpose(x, perm=pm), X.transpose(pm))
    for s in ([16], [2, 8], [8, 2], [4, 4], [2, 2, 4], [4, 2, 2], (16,), (1, 16), [-1, 8]):
        add("reshape %s" % (s,), lambda s=s: p.reshape(x, s), X.reshape(s))
    for ax in (None, 0, 1):
        for kd in (False, True):
            add("reduce_sum %s %s" % (ax, kd), lambda ax=ax, kd=kd: p.reduce_sum(x, axis=ax, keepdims=kd), X.sum(axis=ax, keepdims=kd))
    for ax in (0, 1, 2):
        add("expand %d" % ax, lambda ax=ax: p.expand_dims(x, axis=ax), np.expand_dims(X, ax))
        add("stack %d" % ax, lambda ax=ax: p.stack([x, y], axis=ax), np.stack([X, Y], axis=ax))
        add("stack' %d" % ax, lambda ax=ax: p.stack([y, x], axis=ax), np.stack([Y, X], axis=ax))
        if ax < 2:
            add("concat %d" % ax, lambda ax=ax: p.concat([x, y], axis=ax), np.concatenate([X, Y], axis=ax))
            add("concat' %d" % ax, lambda ax=ax: p.concat([y, x], axis=ax), np.concatenate([Y, X], axis=ax))
            for i in range(2):
                add("split %d[%d]" % (ax, i), lambda ax=ax, i=i: p.split(x, 2, axis=ax)[i], np.split(X, 2, axis=ax)[i])
            for ix in ([0], [1, 2], [2, 1], [3, 3, 0]):
                add("gather %s %d" % (ix, ax), lambda ix=ix, ax=ax: p.gather(x, ix, axis=ax), np.take(X, ix, axis=ax))
    S = [np.s_[0], np.s_[1], np.s_[-1], np.s_[1:3], np.s_[0:2], np.s_[::2], np.s_[:, 1], np.s_[:, 1:2], np.s_[1:, :2], np.s_[2:3, ::-1] if False else np.s_[2:3, 1:]]
    for s in S:
        add("index %s" % (s,), lambda s=s: x[s], X[s])
    for b, e in (([0, 0], [2, 2]), ([1, 1], [3, 4]), ([0, 0], [2, 4])):
        add("strided_slice %s %s" % (b, e), lambda b=b, e=e: p.strided_slice(x, b, e), X[b[0]:e[0], b[1]:e[1]])
    for s in ([1, 2], [2, 1]):
        add("strided_slice by %s" % s, lambda s=s: p.strided_slice(x, [0, 0], [4, 4], s), X[::s[0], ::s[1]])
    for pad in ([[1, 0], [0, 0]], [[0, 1], [0, 0]], [[0, 0], [1, 2]]):
        add("pad %s" % pad, lambda pad=pad: p.pad(x, pad), np.pad(X, pad))
    add("add_n", lambda: p.add_n([x, y]), X + Y)
    add("add_n 3", lambda: p.add_n([x, y, x]), 2 * X + Y)
    add("reveal x", lambda: p.reveal(x), X)
    add("reveal y", lambda: p.reveal(y), Y)
    return L


def own_aby3(p, x, y, X, Y):
    L = []
    add = lambda n, f, w: L.append((n, f, w))
    for c in (0, 1, 0.5, 1.0):
        add("gt %r" % c, lambda c=c: p.greater_than(x, c), X > c)
        add("ge %r" % c, lambda c=c: p.greater_equal(x, c), X >= c)
        add("lt %r" % c, lambda c=c: p.less_than(x, c), X < c)
        add("eq %r" % c, lambda c=c: p.equal(x, c), X == c)
        add("max %r" % c, lambda c=c: p.maximum(x, c), np.maximum(X, c)) if False else None
    for e in (1, 2, 3):
        add("pow %d" % e, lambda e=e: p.pow(x, e), X ** e)
    for cs in ([1, 2], [2, 1], [0, 1, 1], [1, 0, 0.5]):
        add("polynomial %s" % cs, lambda cs=cs: p.polynomial(x, cs), sum(c * X ** i for i, c in enumerate(cs)))
    for ax in (0, 1):
        add("reduce_max %d" % ax, lambda ax=ax: p.reduce_max(x, axis=ax), X.max(axis=ax))
        add("argmax %d" % ax, lambda ax=ax: p.argmax(x, axis=ax), X == X.max(axis=ax, keepdims=True))
        add("reverse %d" % ax, lambda ax=ax: p.reverse(x, [ax]), np.flip(X, ax))
        for acc in (True, False):
            w = np.sort(X, axis=ax)
            add("sort %d %s" % (ax, acc), lambda ax=ax, acc=acc: p.sort(x, axis=ax, acc=acc), w if acc else np.flip(w, ax))
    for m in ([1, 2], [2, 1], [2, 2]):
        add("tile %s" % m, lambda m=m: p.tile(x, m), np.tile(X, m))
    add("maximum", lambda: p.maximum(x, y), np.maximum(X, Y))
    add("relu", lambda: p.relu(x), np.maximum(X, 0))
    bit = lambda: p.greater_than(x, y)
    add("select", lambda: p.select(bit(), x, y), np.where(X > Y, Y, X))
    add("select'", lambda: p.select(bit(), y, x), np.where(X > Y, X, Y))
    add("mul_ab", lambda: p.mul_ab(x, bit()), np.where(X > Y, X, 0))
    for s in ([2, 3], [3, 2], [4]):
        for st in (a3.A, a3.B, a3.ShareType.PUBLIC):
            add("zeros %s %s" % (s, st), lambda s=s, st=st: p.zeros(s, share_type=st), np.zeros(s))
    for k in (1, 2, 3):
        add("mul_pow2 %d" % k, lambda k=k: p.mul_pow2(x, k), X * 2.0 ** k)
        add("truncate %d" % k, lambda k=k: p.truncate(x, amount=k), X / 2.0 ** k)
    return L


def own_pond(p, x, y, X, Y):
    L = []
    add = lambda n, f, w: L.append((n, f, w))
    for ax in (0, 1):
        for ex in (False, True):
            for rv in (False, True):
                w = np.flip(np.cumsum(np.flip(X, ax), ax), ax) if rv else np.cumsum(X, ax)
                add("cumsum %d %s %s" % (ax, ex, rv), lambda ax=ax, ex=ex, rv=rv: p.cumsum(x, axis=ax, exclusive=ex, reverse=rv), w - X if ex else w)
    add("identity", lambda: p.identity(x), X)
    m = lambda: p.mask(x)
    add("masked mul", lambda: p.mul(m(), y), X * Y)
    add("masked self", lambda: p.mul(m(), m()), X * X)
    add("mask y", lambda: p.mul(p.mask(y), m()), X * Y)
    add("masked T", lambda: p.mul(p.transpose(m()), y), X.T * Y)
    for c in (1.0, 2.0, 4.0):
        add("div %r" % c, lambda c=c: p.div(x, c), X / c)
    return L


def own_snn(p, x, y, X, Y):
    L = own_pond(p, x, y, X, Y)
    add = lambda n, f, w: L.append((n, f, w))
    for n, f in (("less", np.less), ("less_equal", np.less_equal), ("greater", np.greater), ("greater_equal", np.greater_equal)):
        add(n, lambda n=n: getattr(p, n)(x, y), f(X, Y))
        add(n + "'", lambda n=n: getattr(p, n)(y, x), f(Y, X))
    for ax in (0, 1):
        add("reduce_max %d" % ax, lambda ax=ax: p.reduce_max(x, axis=ax), X.max(axis=ax))
        add("argmax %d" % ax, lambda ax=ax: p.argmax(x, axis=ax), X.argmax(axis=ax))
    add("maximum", lambda: p.maximum(x, y), np.maximum(X, Y))
    add("relu", lambda: p.relu(x), np.maximum(X, 0))
    return L


def _pairs(ck, name, debug, order):
    """Every operation with every argument, in an order in which each comes before each other in one of the runs."""
    p = start(name, debug)
    X = np.array([[2.5, -1.0, 0.5, 1.25], [-3.0, 0.0, 1.0, -0.5], [0.75, 3.5, -2.25, -1.5], [1.5, -0.25, 4.0, 2.25]])
    Y = np.array([[1.0, 2.0, -0.5, 3.0], [0.5, -2.5, 1.5, 2.75], [-1.25, 0.25, 3.25, -3.5], [-0.75, 1.75, -4.0, 0.0]])
    x, y = p.define_private_variable(X), p.define_private_variable(Y)
    L = common(p, x, y, X, Y)
    L += own_aby3(p, x, y, X, Y) if name.startswith("aby3") else own_snn(p, x, y, X, Y) if name == "securenn" else own_pond(p, x, y, X, Y)
    if order == "backward":
        L = L[::-1]
    for rounds in range(2):
        for n, f, w in L:
            z = f()
            w = np.asarray(w, dtype=np.float64)
            got = value(z)
            ck.eq(got.shape, w.shape, "shape of %s" % n)
            ck.close(got, w, 2.0 ** -5, "%s, round %d" % (n, rounds))
        L = L[1::2] + L[::2]
    ck.count(0, states=len(L) * 2, transitions=len(L) * (len(L) - 1), traces=2)


# -- arguments that change behind the protocol's back --------------------------------------------------------
def _arrays(ck, name, debug):
    p = start(name, debug)
    n = 1500
    X = (np.arange(n) % 7 - 3).astype(np.float64)
    x = p.define_private_variable(X)
    u = p.define_public_variable(X)
    aby = isinstance(p, ABY3)
    ops = {} if not aby else {"add": (p.add, np.add), "sub": (p.sub, np.subtract), "mul": (p.mul, np.multiply)}
    for kind, t in (("private", x), ("public", u)):
        for o, (f, g) in ops.items():
            a = np.zeros(n)
            f(t, a)
            for i in (0, n // 2, n - 1):
                a[i] += 1
                ck.close(value(f(t, a)), g(X, a), 2.0 ** -8, "%s %s with an array changed in place" % (kind, o))
            for i in range(12):
                # a new array at, as likely as not, the old address
                b = np.zeros(n)
                b[n // 2] = i
                ck.close(value(f(t, b)), g(X, b), 2.0 ** -8, "%s %s with the %d-th array" % (kind, o, i))
                del b
            for i in range(6):
                b = tf.constant(np.where(np.arange(n) == n // 2, float(i), 0.0)) if False else np.where(np.arange(n) == n // 2, float(i), 0.0)
                ck.close(value(f(t, b)), g(X, b), 2.0 ** -8, "%s %s with the %d-th value" % (kind, o, i))
            ck.count(0, states=22, traces=1)
    w = np.zeros((n, 1))
    m = p.define_private_variable(X.reshape(1, n))
    for i in range(6 if aby else 0):
        w[n // 2] = i
        ck.close(value(p.matmul(m, w)), X.reshape(1, n) @ w, 2.0 ** -5, "matmul with an array changed in place")
    ix = [0, 1]
    for i in range(4):
        ix[0] = i
        ck.close(value(p.gather(x, ix)), X[ix], 2.0 ** -8, "gather with a list changed in place")
    xs = [x, x]
    for i in range(3):
        ck.close(value(p.concat(xs, axis=0)), np.concatenate([value(q) for q in xs]), 2.0 ** -8, "concat of a list changed in place")
        xs.append(p.add(x, float(i)))
        xs.pop(0)
    gc.collect()


def _instances(ck, debug):
    """Two protocol objects used in turn: what one is asked for never comes from the other."""
    rt.use_config(debug=debug)
    rt.set_mode("det")
    ps = [ABY3(fixedpoint_config="l"), ABY3(fixedpoint_config="h"), ABY3(fixedpoint_config="l")]
    bits = [64, 128, 64]
    for order in itertools.permutations(range(3)):
        for sh in ([2], [2, 3]):
            for st in (a3.A, a3.B, a3.ShareType.PUBLIC):
                for sc in (False, True):
                    for i in order:
                        tfe.set_protocol(ps[i])
                        z = ps[i].zeros(sh, apply_scaling=sc, share_type=st)
                        ck.true(z.prot is ps[i], "zeros of a protocol belong to it")
                        ck.true(z.backing_dtype.nbits == bits[i], "zeros of a %d-bit protocol" % bits[i])
                        ck.true(z.is_scaled == sc, "zeros scaled as asked")
                        ck.eq(value(z), np.zeros(sh), "zeros")
                        ck.count(0, states=1, traces=1)
        for i in order:
            tfe.set_protocol(ps[i])
            x = ps[i].define_private_variable(np.array([1.5, -2.0]))
            ck.close(value(ps[i].add(x, 1)), [2.5, -1.0], 2.0 ** -8, "add")
            ck.close(value(ps[i].mul(x, 2.5)), [3.75, -5.0], 2.0 ** -8, "mul")
            ck.close(value(ps[i].greater_than(x, 0)), [1, 0], 0, "greater_than")
            ck.true(ps[i].add(x, 1).prot is ps[i], "results belong to the protocol")


def run(ck):
    q = ck.quick
    for name in PROTS:
        main = name in ("aby3-64", "pond-64")
        depth = 3 if main or not q else 2
        for dbg in (False, True):
            if q and dbg and not main:
                continue
            d = depth if not dbg else 2
            d = d if q else d + 1
            parts = (6 if d == 3 else 1) if q else 1 if d < 3 else 4 if d == 3 else 12
            for i in range(parts):
                ck.case("histories/%s/%s/%d" % (name, "debug" if dbg else "cached", i), _histories, ck, name, dbg, d, i, parts)
            t = "debug" if dbg else "cached"
            ck.case("kinds/%s/%s" % (name, t), _kinds, ck, name, dbg)
            for o in ("forward", "backward"):
                ck.case("pairs/%s/%s/%s" % (name, t, o), _pairs, ck, name, dbg, o)
            ck.case("arrays/%s/%s" % (name, t), _arrays, ck, name, dbg)
        ck.case("histories-scaled/%s" % name, _histories, ck, name, False, 1 if q else 2, 0, 1, True)
        ck.case("histories-graph/%s" % name, _histories, ck, name, True, 2 if q else 3, 0, 1, False, True)
    for dbg in (False, True):
        ck.case("instances/%s" % dbg, _instances, ck, dbg)
