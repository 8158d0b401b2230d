"""C05: ABY3 truncation and fixed-point products."""
import numpy as np
import tensorflow as tf

from vlib import a3, explore, rt, smallring, words

A, B = a3.A, a3.B


def run(ck):
    small(ck)
    edge(ck)
    wide(ck)
    local(ck)
    products(ck)
    reals(ck)


METHODS = {
    "heuristic": lambda p, x, a: p.truncate(x, method="heuristic", amount=a),
    "default": lambda p, x, a: p.truncate(x, amount=a),
    "method": lambda p, x, a: x.truncate(amount=a),
    "pow2": lambda p, x, a: p.mul_pow2(x, -a),
    "secureq8": lambda p, x, a: p.truncate_msb0(x, method="secureq8", amount=a),
    "msb0": lambda p, x, a: p.truncate_msb0(x, amount=a),
    "cheetah": lambda p, x, a: p.truncate_msb0(x, method="cheetah", amount=a),
}
MSB0 = ("secureq8", "cheetah", "msb0")


def bounds(a):
    def f(x):
        q = np.asarray(x) >> a
        return q - (1 if a else 0), q + 1
    return f


def small(ck):
    """All values x all values of every single draw (base tapes 0, -1, 1), and all pairs of draws in the 4-bit ring."""
    for k, dev, lim in ((4, 2 if ck.quick else 3, 10 ** 9), (6, 1, 10 ** 9), (8, 1, 10 ** 9)):
        for m in METHODS:
            if m == "method":
                continue
            if ck.quick and (m in ("default", "msb0", "pow2")) and k != 6:
                continue
            for a in range(1, k - 2 if m not in MSB0 else k - 1):
                if k == 8 and ck.quick and a not in (1, 3, 5):
                    continue
                if k == 4 and m == "cheetah" and ck.quick and a != 1:
                    continue
                lo, hi = (0, 1 << (k - 1)) if m in MSB0 else (-(1 << (k - 2)), 1 << (k - 2))
                dom = np.arange(lo, hi) if k < 8 else np.arange(lo, hi, 1 if not ck.quick else 3)
                ck.case("small/k%d/%s/%d" % (k, m, a), ck.tape_within,
                        lambda k=k: rt.aby3(smallring.config(k), mode="script"),
                        lambda p, x, m=m, a=a: METHODS[m](p, a3.private(p, x), a), [dom], bounds(a), a3.open_any,
                        max_rows=20000 if k > 4 else 1, dev=dev, kind="small")


def edge(ck):
    """The 64-bit ring with boundary words as the values of up to two draws."""
    for m in ("heuristic", "secureq8", "cheetah"):
        for a in (1, 16, 32):
            lim = 62 if m == "heuristic" else 63
            dom = [v for v in words.words(64, 0) if -(1 << lim) <= v < (1 << lim)]
            if m in MSB0:
                dom = [v for v in dom if v >= 0]
            ck.case("edge/%s/%d" % (m, a), ck.tape_within, lambda: rt.aby3(None, mode="script"),
                    lambda p, x, m=m, a=a: METHODS[m](p, a3.private(p, x), a), [np.array(dom, dtype=np.int64)], bounds(a),
                    a3.open_any, max_rows=1, dev=1 if ck.quick else 2, kind="edge")


def wide(ck):
    for cfg in ("low", "high"):
        n = 64 if cfg == "low" else 128
        for m in METHODS:
            for a in ((1, 5, 16, 31, 32, 33, 45) if n == 64 else (1, 16, 32, 63, 64, 65, 90)):
                for scaled in (False, True):
                    if scaled and m == "pow2":
                        continue
                    fr = (16 if n == 64 else 32) if scaled else 0
                    if m not in MSB0 and n - 2 - fr - a < 0:
                        continue
                    ck.case("wide%d/%s/%d/%s" % (n, m, a, "scaled" if scaled else "raw"), _wide, ck, cfg, n, m, a, scaled, kind="wide%d" % n)


def _raw(p, v, scaled, n):
    """A private tensor with the given ring words, marked scaled if asked."""
    x = a3.private(p, v)
    x.is_scaled = scaled
    return x


def _wide(ck, cfg, n, m, a, scaled):
    lim = n - 2 if m not in MSB0 else n - 1
    ws = [v for v in words.words(n, 1) if -(1 << lim) <= v < (1 << lim)]
    if m in MSB0:
        ws = [v for v in ws if v >= 0]
    for rep in range(3 if ck.quick else 40):
        p = rt.aby3(cfg, mode="det")
        rt.TAPE.reset(1 + 1000 * rep)
        x = np.array(ws, dtype=object)
        # the library enters 64-bit words only; larger ones are built by shifting
        t = _enter(p, ws, n)
        t.is_scaled = scaled
        y = METHODS[m](p, t, a)
        ck.true(y.is_scaled == scaled, "truncation changed the scaling")
        q = np.array([int(v) >> a for v in ws], dtype=object)
        got = np.asarray(a3.open_any(p, y), dtype=object)
        ck.within(got, q - 1, q + 1, "truncation", [x])
        ck.count(0, states=len(ws), transitions=len(ws), traces=len(ws))


def _enter(p, ws, n):
    if n == 64:
        return a3.private(p, np.array(ws, dtype=np.int64))
    hi = np.array([v >> 62 for v in ws], dtype=object)
    lo = np.array([v & ((1 << 62) - 1) for v in ws], dtype=object)
    return (a3.private(p, _split(hi)) << 62) + a3.private(p, lo.astype(np.int64))


def _split(hi):
    return np.array([int(v) for v in hi], dtype=object).astype(np.int64) if all(abs(int(v)) < 2 ** 62 for v in hi) else hi


def local(ck):
    """The local method and the truncation pair are right unless the two masked parts wrap (their documented failure)."""
    for k in (6, 8):
        for a in range(1, k - 2):
            ck.case("local/k%d/%d" % (k, a), _local_small, ck, k, a, kind="local")
    for cfg in ("low", "high"):
        for a in (1, 16, 32):
            ck.case("local/%s/%d" % (cfg, a), _local_wide, ck, cfg, a, kind="local")
            ck.case("local/%s/pub/%d" % (cfg, a), _local_public, ck, cfg, a, kind="local")
    for cfg in ("low", "high"):
        ck.case("trunc2/%s" % cfg, _trunc2, ck, cfg, kind="trunc2")
    for k in (6, 8):
        ck.case("local/k%d/pub" % k, _local_public_small, ck, k, kind="local")


def _local_small(ck, k, a):
    h = 1 << (k - 1)
    dom = np.arange(-h, h) if k < 8 else np.arange(-h, h, 5 if ck.quick else 1)

    def prog(p, x):
        t = a3.private(p, x)
        return t, p.truncate(t, method="local", amount=a)

    bad = [0, 0]

    def judge(p, out, sec, vals):
        t, y = out
        s = a3.shares_of(p, t)
        # wrap-free for at least one way of splitting the three shares into two parts
        free = np.zeros(s[0].shape, bool)
        tot = np.zeros(s[0].shape, int)
        always = np.ones(s[0].shape, bool)
        for i in range(3):
            u, v = s[i], a3.wrap(s[(i + 1) % 3] + s[(i + 2) % 3], k)
            always &= (u + v == sec[0])
        q = sec[0] >> a
        lo = np.where(always, q - 1, 1)
        hi = np.where(always, q + 1, 0)
        got = a3.open_any(p, y)
        ck.within(got, lo, hi, "local truncation", vals)
        bad[0] += int(((got < q - 1) | (got > q + 1)).sum())
        bad[1] += len(q)

    rows, cols, comp = explore.run(lambda: rt.aby3(smallring.config(k), mode="script"), prog, [dom], judge, 20000, 1)
    ck.count(0, states=rows, transitions=rows * cols, traces=rows)


def _local_wide(ck, cfg, a):
    n = 64 if cfg == "low" else 128
    ws = [v for v in words.words(n, 1) if abs(v) < (1 << (n - 34))]
    p = rt.aby3(cfg, mode="det")
    y = p.truncate(_enter(p, ws, n), method="local", amount=a)
    q = np.array([int(v) >> a for v in ws], dtype=object)
    got = np.asarray(a3.open_any(p, y), dtype=object)
    ck.within(got, q - 1, q + 2, "local truncation", [np.array(ws, dtype=object)])
    ck.count(0, states=len(ws), transitions=len(ws), traces=len(ws))


def _local_public(ck, cfg, a):
    n = 64
    ws = [v for v in words.words(n, 1) if abs(v) < (1 << 62)]
    p = rt.aby3(cfg, mode="det")
    y = p.truncate(a3.public(p, np.array(ws, dtype=np.int64)), method="local", amount=a)
    q = np.array([int(v) >> a for v in ws], dtype=object)
    got = np.asarray(a3.open_any(p, y), dtype=object)
    ck.within(got, q, q + 1, "public truncation", [np.array(ws, dtype=object)])
    ck.count(0, states=len(ws), transitions=len(ws), traces=len(ws))


def _local_public_small(ck, k):
    h = 1 << (k - 1)
    v = np.arange(-h, h)
    for a in range(1, k - 1):
        p = rt.aby3(smallring.config(k), mode="script")
        y = p.truncate(a3.public(p, v), method="local", amount=a)
        ck.within(a3.open_any(p, y), v >> a, (v >> a) + 1, "public truncation", [v])
        ck.count(0, states=len(v), transitions=len(v), traces=len(v))


def _trunc2(ck, cfg):
    p = rt.aby3(cfg, mode="det")
    f = p.fixedpoint_config.precision_fractional
    vals = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0 ** -f, -2.0 ** -f, 3.25, -3.25, 100.125, -100.125, 1000.0, -1000.0]
    x, y = [np.array(t, dtype=np.float64) for t in words.pairs(vals)]
    z = p.mul_trunc2(a3.private(p, x, scaled=True), a3.private(p, y, scaled=True))
    ck.true(z.is_scaled, "result is not scaled")
    ck.close(a3.opened(p, z), x * y, 2.01 * 2.0 ** -f, "mul_trunc2", [x, y])
    z = p.mul_trunc2(a3.private(p, x, scaled=True), a3.private(p, np.arange(len(x)) % 7, scaled=False))
    ck.close(a3.opened(p, z), x * (np.arange(len(x)) % 7), 2.0 ** -f, "mul_trunc2 by an integer", [x])
    ck.count(0, states=2 * len(x), transitions=2 * len(x), traces=2 * len(x))


# --- fixed-point products ---------------------------------------------------

def products(ck):
    """Every pair of values of an 8-bit fixed-point ring whose product is in range."""
    k, f = 8, 2
    h = 1 << (k - 2)
    setup = lambda: rt.aby3(smallring.config(k, frac=f), mode="script")
    xs = np.arange(-24, 25, 3 if ck.quick else 1)
    ys = np.array([-17, -9, -4, -3, -1, 0, 1, 2, 5, 8, 12])

    def rawp(p, v):
        t = a3.private(p, v)
        t.is_scaled = True
        return t

    def rawu(p, v):
        t = a3.public(p, v)
        t.is_scaled = True
        return t

    def bnd(x, y):
        z = x * y
        ok = np.abs(z) < h
        q = z >> f
        return np.where(ok, q - 1, 1), np.where(ok, q + 1, 0)

    E = {"p": rawp, "u": rawu}
    for kx, ky in ("pp", "pu", "up", "uu"):
        ck.case("product/mul/%s%s" % (kx, ky), ck.tape_within, setup,
                lambda p, x, y, kx=kx, ky=ky: E[kx](p, x) * E[ky](p, y), [xs, ys], bnd, a3.open_any, max_rows=1, dev=1, kind="product")
    ck.case("product/square", ck.tape_within, setup, lambda p, x: p.square(rawp(p, x)), [np.arange(-20, 21)], lambda x: bnd(x, x),
            a3.open_any, max_rows=1, dev=1, kind="product")
    ck.case("product/pow2", ck.tape_within, setup, lambda p, x: rawp(p, x) ** 2, [np.arange(-20, 21)], lambda x: bnd(x, x),
            a3.open_any, max_rows=1, dev=1, kind="product")

    def mm(p, x, y, kx="p", ky="p"):
        a = E[kx](p, np.stack([x, y], axis=-1)[:, None, :])
        b = E[ky](p, np.stack([y, x], axis=-1)[:, :, None])
        return a.matmul(b)

    def mmb(x, y):
        lo, hi = bnd(2 * x, y)
        return lo[:, None, None], hi[:, None, None]

    ms = np.arange(-8, 9)
    for kx, ky in ("pp", "pu", "up"):
        ck.case("product/matmul/%s%s" % (kx, ky), ck.tape_within, setup,
                lambda p, x, y, kx=kx, ky=ky: mm(p, x, y, kx, ky), [ms[::2] if ck.quick else ms, ys[2:8]], mmb, a3.open_any, max_rows=1, dev=1, kind="product")


def _opn(p, z):
    return a3.opened(p, z)


def reals(ck):
    """Production configurations: all pairs of a grid of in-range reals through every scaled operation."""
    for cfg in ("low", "high"):
        for op in OPS:
            ck.case("real/%s/%s" % (cfg, op), _real, ck, cfg, op, kind="real")


def grid(f, big):
    g = [0.0, 1.0, 0.5, 2.0 ** -f, 3 * 2.0 ** -f, 1 - 2.0 ** -f, 1 + 2.0 ** -f, 0.1, 3.14159, 7.0, 64.0, 255.75, big]
    return np.array(sorted(set(g + [-v for v in g])))


# op -> (arity, fn(p, enter, x[, y]), plaintext, error bound in units (of 2^-f) given x, y and f)
OPS = {
    "mul/pp": (2, lambda p, E, x, y: E("p", x) * E("p", y), lambda x, y: x * y, 1),
    "mul/pu": (2, lambda p, E, x, y: E("p", x) * E("u", y), lambda x, y: x * y, 1),
    "mul/up": (2, lambda p, E, x, y: E("u", x) * E("p", y), lambda x, y: x * y, 1),
    "mul/uu": (2, lambda p, E, x, y: E("u", x) * E("u", y), lambda x, y: x * y, 1),
    "mul/pc": (2, lambda p, E, x, y: E("p", x) * E("c", y), lambda x, y: x * y, 1),
    "mul/pnp": (2, lambda p, E, x, y: E("p", x) * y, lambda x, y: x * y, 1),
    "mul/ptf": (2, lambda p, E, x, y: E("p", x) * tf.constant(y), lambda x, y: x * y, 1),
    "square": (1, lambda p, E, x: p.square(E("p", x)), lambda x: x * x, 1),
    "x+y*x": (2, lambda p, E, x, y: E("p", x) + E("p", y) * E("p", x), lambda x, y: x + y * x, 1),
    "matmul/pp": (2, lambda p, E, x, y: _mm(p, E, x, y, "p", "p"), lambda x, y: _mmw(x, y), 1),
    "matmul/pu": (2, lambda p, E, x, y: _mm(p, E, x, y, "p", "u"), lambda x, y: _mmw(x, y), 1),
    "matmul/up": (2, lambda p, E, x, y: _mm(p, E, x, y, "u", "p"), lambda x, y: _mmw(x, y), 1),
    "div/np": (2, lambda p, E, x, y: E("p", x) / _nz(y), lambda x, y: x / _nz(y), "mul"),
    "div/tf": (2, lambda p, E, x, y: p.div(E("p", x), tf.constant(_nz(y))), lambda x, y: x / _nz(y), "mul"),
    "div/pub": (2, lambda p, E, x, y: E("p", x) / E("u", _nz(y)), lambda x, y: x / _nz(y), "mul"),
    "div/pubpub": (2, lambda p, E, x, y: p.div(E("u", x), E("u", _nz(y))), lambda x, y: x / _nz(y), "mul"),
    "pow3": (1, lambda p, E, x: E("p", np.clip(x, -9, 9)) ** 3, lambda x: np.clip(x, -9, 9) ** 3, 300),
    "pow4": (1, lambda p, E, x: p.pow(E("p", np.clip(x, -4, 4)), 4), lambda x: np.clip(x, -4, 4) ** 4, 300),
    "pow5": (1, lambda p, E, x: p.pow(E("p", np.clip(x, -3, 3)), 5), lambda x: np.clip(x, -3, 3) ** 5, 500),
    "prod": (2, lambda p, E, x, y: p.prod(E("p", np.clip(np.stack([x, y, x - y], -1), -9, 9)), axis=-1),
             lambda x, y: np.prod(np.clip(np.stack([x, y, x - y], -1), -9, 9), -1), 300),
}
for _c in (3, -3, 2, 0.5, 4, 0.25, 0.1, -0.1, 10, 1, 7.5, -1, -2, -0.5, 0, 1e-3, 2.0):
    OPS["mul*%s" % _c] = (1, lambda p, E, x, c=_c: E("p", x) * c, lambda x, c=_c: x * c, "const")
    OPS["%s*mul" % _c] = (1, lambda p, E, x, c=_c: c * E("p", x), lambda x, c=_c: x * c, "const")
    OPS["mulu*%s" % _c] = (1, lambda p, E, x, c=_c: E("u", x) * c, lambda x, c=_c: x * c, "const")
    if _c:
        OPS["div/%s" % _c] = (1, lambda p, E, x, c=_c: E("p", x) / c, lambda x, c=_c: x / c, "const")
for _c in (0.5, 0.25, 3, 0.125):
    OPS["int*%s" % _c] = (1, lambda p, E, x, c=_c: E("i", np.round(x)) * c, lambda x, c=_c: np.round(x) * c, "int")


def _nz(y):
    return np.where(np.abs(y) < 0.01, 0.375, y)


def _mm(p, E, x, y, a, b):
    X = np.stack([x, np.roll(x, 1), np.roll(x, 2)], -1)[:12, :]
    Y = np.stack([y, np.roll(y, 3)], 0)[:, :9].T.reshape(-1)[:12].reshape(3, 4)
    return E(a, X / 4).matmul(E(b, Y / 4))


def _mmw(x, y):
    X = np.stack([x, np.roll(x, 1), np.roll(x, 2)], -1)[:12, :]
    Y = np.stack([y, np.roll(y, 3)], 0)[:, :9].T.reshape(-1)[:12].reshape(3, 4)
    return (X / 4) @ (Y / 4)


def _real(ck, cfg, op):
    ar, fn, want, err = OPS[op]
    p = rt.aby3(cfg, mode="det")
    f = p.fixedpoint_config.precision_fractional
    ulp = 2.0 ** -f
    g = grid(f, 1000.0)
    q = lambda v: np.round(v / ulp) * ulp
    g = np.unique(q(g))
    xs = [np.array(t, dtype=np.float64) for t in words.pairs(list(g))] if ar == 2 else [g]

    def E(kind, v):
        v = np.asarray(v)
        if kind == "p":
            return a3.private(p, v, scaled=True)
        if kind == "u":
            return a3.public(p, v, scaled=True)
        if kind == "c":
            return a3.const(p, v, scaled=True)
        if kind == "i":
            return a3.private(p, v.astype(np.int64), scaled=False)

    for rep in range(2 if ck.quick else 10):
        rt.TAPE.reset(1 + 500 * rep)
        z = fn(p, E, *xs)
        w = want(*xs)
        if err in ("mul", "const"):
            tol = ulp * (3 + 1.2 * np.abs(xs[0]))
        elif err == "int":
            tol = ulp * 2.5 if z.is_scaled else 1.0
        else:
            tol = ulp * (err + 1.01)
            if "matmul" in op:
                tol = tol + ulp * 3 * 256
        got = a3.opened(p, z)
        # one unit of encoding error of each operand
        ck.close(got, w, tol, op, xs)
        ck.count(0, states=got.size, transitions=got.size, traces=got.size)
