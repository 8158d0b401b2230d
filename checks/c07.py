"""C07: ABY3 non-linear functions over their input ranges."""
import itertools

import numpy as np
import tensorflow as tf

from vlib import a3, rt, smallring, words


def run(ck):
    functions(ck)
    polys(ck)
    softmaxes(ck)
    publics(ck)


def grid(lo, hi, n, f):
    """Equidistant points, the powers of two and their neighbours within [lo, hi], all on the fixed-point grid."""
    v = list(np.linspace(lo, hi, n))
    u = 2.0 ** -f
    for i in range(-f, 12):
        for s in (1, -1):
            for d in (0, u, -u):
                v.append(s * 2.0 ** i + d)
    for i in range(-20, 21):
        for d in (0, u, -u):
            v.append(i + d)
            v.append(i + 0.5 + d)
    v = np.round(np.array(v) / u) * u
    return np.unique(v[(v >= lo) & (v <= hi)])


def loggrid(lo, hi, n, f):
    u = 2.0 ** -f
    v = np.concatenate([np.exp2(np.linspace(np.log2(lo), np.log2(hi), n)), grid(lo, hi, 10, f)])
    v = np.round(v / u) * u
    return np.unique(v[(v >= lo) & (v <= hi)])


def sig(x):
    return 1 / (1 + np.exp(-x))


# name: (function, real function, domain, error(cfg) as (relative, units in the last place, extra))
def _rel(rel, ulps):
    return lambda x, w, u: rel * np.abs(w) + ulps * u


def _recip(rel, c):
    # absolute error of a fixed-point reciprocal: relative part, last places of the result, last places of products near 1/x
    return lambda x, w, u: rel * np.abs(w) + c * u * (3 + np.abs(w))


PADE = {"low": 5e-5, "high": 8e-6, "f18": 2e-5}
FUNS = {
    "exp2": (lambda p, x: p.exp2(x), np.exp2, ("lin", -20, 10.9), lambda c: _rel(PADE[c] * 1.4, 8)),
    "exp2/neg": (lambda p, x: p.exp2(x, sign=-1), np.exp2, ("lin", -20, -2 ** -16), lambda c: _rel(PADE[c] * 1.4, 8)),
    "exp2/pos": (lambda p, x: p.exp2(x, sign=1), np.exp2, ("lin", 0, 10.9), lambda c: _rel(PADE[c] * 1.4, 8)),
    "exp2/as2019": (lambda p, x: p.exp2(x, approx_type="as2019"), np.exp2, ("lin", -9.95, 10.5), lambda c: _rel(PADE[c] * 1.6, 8)),
    "exp": (lambda p, x: p.exp(x), np.exp, ("lin", -20, 7.5), lambda c: _expt(PADE[c] * 1.4)),
    "exp/neg": (lambda p, x: p.exp(x, sign=-1), np.exp, ("lin", -20, -2 ** -10), lambda c: _expt(PADE[c] * 1.4)),
    "exp/as2019": (lambda p, x: p.exp(x, approx_type="as2019"), np.exp, ("lin", -6.85, 7.2), lambda c: _expt(PADE[c] * 1.6)),
    "exp/infinity": (lambda p, x: p.exp(x, approx_type="infinity"), np.exp, ("lin", -4, 4),
                     lambda c: lambda x, w, u: np.abs(w - (1 + x / 128) ** 128) * 1.02 + 140 * u * (1 + w)),
    "exp2_pade": (lambda p, x: p.exp2_pade(x), np.exp2, ("lin", 0, 1), lambda c: _rel(PADE[c] * 1.2, 6)),
    "reciprocal": (lambda p, x: p.reciprocal(x), lambda x: 1 / x, ("log", 2 ** -9, 2 ** 9.99), lambda c: _recip(3e-6, 3)),
    "reciprocal/neg": (lambda p, x: p.reciprocal(-x), lambda x: -1 / x, ("log", 2 ** -9, 2 ** 9.99), lambda c: _recip(3e-6, 3)),
    "reciprocal/nonsigned": (lambda p, x: p.reciprocal(x, nonsigned=True), lambda x: 1 / x, ("log", 2 ** -9, 2 ** 9.99), lambda c: _recip(3e-6, 3)),
    "reciprocal/method": (lambda p, x: x.reciprocal(), lambda x: 1 / x, ("log", 2 ** -9, 2 ** 9.99), lambda c: _recip(3e-6, 3)),
    "reciprocal/2": (lambda p, x: p.reciprocal(x, precision=2), lambda x: 1 / x, ("log", 2 ** -9, 2 ** 9.99), lambda c: _recip(1e-9, 4)),
    "inv_sqrt": (lambda p, x: p.inv_sqrt(x), lambda x: x ** -0.5, ("log", 2 ** -9, 2 ** 10.99), lambda c: _recip(5e-5, 4)),
    "inv_sqrt/2": (lambda p, x: p.inv_sqrt(x, precision=2), lambda x: x ** -0.5, ("log", 2 ** -9, 2 ** 10.99), lambda c: _recip(1e-8, 6)),
    "log": (lambda p, x: p.log(x), np.log, ("lin", 0.1, 1), lambda c: lambda x, w, u: 0.0395 + 0 * w),
    "sigmoid": (lambda p, x: p.sigmoid(x), sig, ("lin", -20, 20), lambda c: lambda x, w, u: 0.0412 + 0 * w),
    "sigmoid/5": (lambda p, x: p.sigmoid(x, approx_type="5_piecewise_linear"), sig, ("lin", -20, 20), lambda c: lambda x, w, u: 0.0412 + 0 * w),
    "sigmoid/3": (lambda p, x: p.sigmoid(x, approx_type="3_piecewise_linear"), sig, ("lin", -20, 20), lambda c: lambda x, w, u: 0.077 + 0 * w),
}


def _expt(rel):
    # the exponent x*log2(e) carries rounding of log2(e) and of the product
    return lambda x, w, u: rel * np.abs(w) + 8 * u + np.abs(w) * u * (2 + np.abs(x))


def functions(ck):
    for cfg in ("low", "high", "f18"):
        for n in FUNS:
            if cfg != "f18" or not ck.quick or n in ("exp2", "exp", "reciprocal", "reciprocal/neg", "inv_sqrt", "log", "sigmoid"):
                ck.case("fn/%s/%s" % (cfg, n), _fn, ck, cfg, n, kind="fn")


def start(cfg):
    """A protocol with a named configuration or with one of the user's own."""
    if cfg == "f18":
        from tf_encrypted.tensor.fixed import FixedpointConfig
        cfg = FixedpointConfig(scaling_base=2, nbits=64, precision_integral=11, precision_fractional=18, matmul_threshold=256, truncation_gap=0, use_noninteractive_truncation=False)
    return rt.aby3(cfg)


def _fn(ck, cfg, n):
    fn, g, (kind, lo, hi), err = FUNS[n]
    for rep in range(2 if ck.quick else 6):
        p = start(cfg)
        rt.TAPE.reset(1 + 997 * rep)
        f = p.fixedpoint_config.precision_fractional
        N = {"low": 3000, "high": 1200, "f18": 1000}[cfg] if ck.quick else 30000
        xs = (grid if kind == "lin" else loggrid)(lo, hi, N, f)
        y = fn(p, a3.private(p, xs, scaled=True))
        ck.true(y.is_scaled, "result is not scaled")
        w = g(xs)
        ck.close(a3.opened(p, y), w, err(cfg)(xs, w, 2.0 ** -f), n, [xs])
        ck.count(0, states=len(xs), transitions=len(xs), traces=len(xs))
    # a shape with more axes gives the same values
    v = xs[:: max(1, len(xs) // 12)][:12].reshape(2, 3, 2)
    w = g(v)
    y = fn(p, a3.private(p, v, scaled=True))
    ck.close(a3.opened(p, y), w, err(cfg)(v, w, 2.0 ** -f), n + " on rank 3", [v])


POLYS = [(1.0,), (0.0, 1.0), (0.5, 2), (0, 0, 1), (1, -1, 1, -1), (0.25, 0.5, -0.75), (3, 0, 0.5), (-1.5, 2, 0, 0.125), (0.1, 0.2, 0.3, 0.4, 0.5), (0, 3)]


def polys(ck):
    for cfg in ("low", "high"):
        for i, c in enumerate(POLYS):
            ck.case("poly/%s/%d" % (cfg, i), _poly, ck, cfg, c, kind="poly")
        ck.case("multipoly/%s" % cfg, _multipoly, ck, cfg, kind="poly")
        for i in range(len(PIECES)):
            ck.case("piecewise/%s/%d" % (cfg, i), _piece, ck, cfg, *PIECES[i], kind="poly")
        ck.case("pow2_from_bits/%s" % cfg, _pow2, ck, cfg, kind="poly")


def val(c, x):
    return sum(float(a) * x ** i for i, a in enumerate(c)) + 0 * x


def _tol(c, x, u):
    d = len(c)
    m = np.maximum(1, np.abs(x))
    return u * (d + 2 + sum((1 + abs(a)) * (i + 1) * m ** i for i, a in enumerate(c)))


def _poly(ck, cfg, c):
    p = rt.aby3(cfg)
    f = p.fixedpoint_config.precision_fractional
    x = grid(-4, 4, 300, f)
    y = p.polynomial(a3.private(p, x, scaled=True), list(c))
    ck.close(a3.opened(p, y), val(c, x), _tol(c, x, 2.0 ** -f), "polynomial %s" % (c,), [x])
    ck.count(0, states=len(x), transitions=len(x), traces=len(x))


def _multipoly(ck, cfg):
    p = rt.aby3(cfg)
    f = p.fixedpoint_config.precision_fractional
    x = grid(-3, 3, 100, f)
    for cs in ([(0.5,), (0.25, 1.5), (1.0, 2.0, -0.5)], [(1.0, 1.0), (0.5, -0.5)], [(0.125, 0.25, 0.5, 1.0)]):
        y = p.multi_polynomial(a3.private(p, x, scaled=True), cs)
        ck.close(a3.opened(p, y), np.stack([val(c, x) for c in cs]), np.stack([_tol(c, x, 2.0 ** -f) + 40 * 2.0 ** -f for c in cs]), "multi_polynomial", [x])
        ck.count(0, states=len(x), transitions=len(x), traces=len(x))


PIECES = [((0.0,), ((1.0,), (0.0, 2.0))), ((-1.0, 1.0), ((-1.0,), (0.0, 1.0), (1.0,))), ((-2.5, 0.5, 3.0), ((0.25,), (0.5, 0.25, 0.125), (1.5, -0.5), (0.0, 1.0)))]


def _piece(ck, cfg, c, cs):
    p = rt.aby3(cfg)
    f = p.fixedpoint_config.precision_fractional
    u = 2.0 ** -f
    x = np.unique(np.concatenate([grid(-5, 5, 300, f), np.array([v + d for v in c for d in (-u, 0, u)])]))
    y = p.polynomial_piecewise(a3.private(p, x, scaled=True), c, cs)
    k = (x[:, None] > np.array(c)[None, :]).sum(axis=1)  # the piece of x: a splitting point belongs to the piece on its left
    w = np.array([val(cs[k[i]], x[i]) for i in range(len(x))])
    t = np.max(np.stack([_tol(q, x, u) for q in cs]), axis=0) + 10 * u
    ck.close(a3.opened(p, y), w, t, "piecewise", [x])
    ck.count(0, states=len(x), transitions=len(x), traces=len(x))


def _pow2(ck, cfg):
    p = rt.aby3(cfg)
    for nb in (1, 2, 3, 4, 5):
        v = np.arange(1 << nb)
        bits = (v[:, None] >> np.arange(nb)) & 1
        y = p.pow2_from_bits(a3.private(p, bits, share=a3.B, factory=a3.BOOL))
        ck.eq(a3.open_any(p, y), np.array([1 << int(i) for i in v], dtype=np.int64 if cfg == "low" else object), "pow2_from_bits")
        ck.count(0, states=len(v), transitions=len(v), traces=len(v))


def sm(v):
    e = np.exp(v - v.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def softmaxes(ck):
    for cfg in ("low", "high"):
        for n in (1, 2, 3, 4):
            for m in ("default", "tree", "network"):
                for a in ("mp-spdz", "as2019"):
                    if a == "as2019" and (m == "network" or (ck.quick and n > 2)):
                        continue
                    ck.case("softmax/%s/%d/%s/%s" % (cfg, n, m, a), _softmax, ck, cfg, n, m, a, kind="softmax")


def _softmax(ck, cfg, n, m, a):
    p = rt.aby3(cfg)
    u = 1.0 / p.fixedpoint_config.scaling_factor
    g = (-9, -3, -0.5, 0, 0.25, 2, 8.) if a == "mp-spdz" else (-3, -0.5, 0, 0.25, 2)
    if cfg == "high" and ck.quick and n == 4:
        g = g[1::2]
    v = np.array(list(itertools.product(g, repeat=n)))
    kw = {} if m == "default" else dict(max_method=m)
    y = p.softmax(a3.private(p, v, scaled=True), approx_type=a, **kw)
    ck.close(a3.opened(p, y), sm(v), 1.5 * PADE[cfg] + 12 * u, "softmax", [v])
    ck.count(0, states=len(v), transitions=len(v), traces=len(v))
    v3 = v[:4].reshape((2, -1, n))
    ck.close(a3.opened(p, p.softmax(a3.private(p, v3, scaled=True), approx_type=a, **kw)), sm(v3), 1.5 * PADE[cfg] + 12 * u, "softmax rank 3", [v3])


def publics(ck):
    ck.case("reciprocal-top", _recip_top, ck, kind="fn")
    for cfg in ("low", "high"):
        ck.case("public/%s" % cfg, _public, ck, cfg, kind="public")


def _recip_top(ck):
    p = rt.aby3("low")
    f, i = p.fixedpoint_config.precision_fractional, p.fixedpoint_config.precision_integral
    x = loggrid(2 ** (i - 1), 2 ** (i - 0.01), 100, f)
    tol = 8 * 2.0 ** -f
    for n, g, s in (("signed", lambda v: p.reciprocal(v), 1), ("negative", lambda v: p.reciprocal(-v), -1), ("nonsigned", lambda v: p.reciprocal(v, nonsigned=True), 1)):
        ck.either(a3.opened(p, g(a3.private(p, x, scaled=True))), s / x, 0 * x, tol, "finding:reciprocal-top-half", n)


def _public(ck, cfg):
    p = rt.aby3(cfg)
    f = p.fixedpoint_config.precision_fractional
    u = 2.0 ** -f
    x = loggrid(2 ** -6, 2 ** 10, 300, f)
    ck.close(a3.opened(p, p.sqrt(a3.public(p, x, scaled=True))), np.sqrt(x), 2 * u + 1e-14, "public sqrt", [x])
    ck.close(a3.opened(p, p.reciprocal(a3.public(p, x, scaled=True))), 1 / x, 2 * u + 1e-14, "public reciprocal", [x])
    ck.count(0, states=2 * len(x), transitions=2, traces=2)
