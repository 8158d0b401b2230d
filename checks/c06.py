"""C06: ABY3 shaping, slicing, convolution and pooling."""
import itertools

import numpy as np
import tensorflow as tf

from vlib import a3, methods, plain, rt, smallring, words

A, B = a3.A, a3.B


def _methods(ck, cfg):
    p = rt.aby3(cfg, mode="det")
    make = lambda k, v: a3.private(p, v) if k == "p" else a3.public(p, v)
    methods.run(ck, methods.SHAPE, make, lambda z: a3.open_any(p, z).astype(np.int64), "methods", kinds=("pp", "uu"))


def run(ck):
    for cfg in ("low", "high"):
        ck.case("methods/%s" % cfg, _methods, ck, cfg)
    shaping(ck)
    multi(ck)
    pads(ck)
    patches(ck)
    convs(ck)
    pools(ck)


# Kinds of tensors that every shaping operation must carry through unchanged.
KINDS = ("pA64", "pB64", "u64", "pbool", "p128", "u128", "pA64s", "u64s")


def data(shape, kind, salt=0):
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n, dtype=np.int64) + 1 + salt * 1009
    if "bool" in kind:
        v = ((i * 2654435761) >> 7) & 1
    elif kind.endswith("s"):
        v = ((i * 37) % 1013 - 500) / 8.0
        return v.reshape(shape)
    else:
        with np.errstate(over="ignore"):
            v = i * np.int64(0x1F3D5B79A7C5E301 if "128" not in kind else 0x0F3D5B79A7C5E301 >> 7)
    return v.reshape(shape)


def prot_for(kind, mode="det"):
    return rt.aby3("high" if "128" in kind else "low", mode=mode)


def enter(p, v, kind):
    if kind == "pbool":
        return a3.private(p, v, share=B, factory=a3.BOOL)
    scaled = kind.endswith("s")
    if kind[0] == "p":
        return a3.private(p, v, share=B if "B" in kind else A, scaled=scaled)
    return a3.public(p, v, scaled=scaled)


def same_kind(ck, x, y, what):
    ck.true(type(y).__mro__[0].__name__.replace("Variable", "Tensor").replace("Constant", "Tensor")
            == type(x).__mro__[0].__name__.replace("Variable", "Tensor").replace("Constant", "Tensor"), "%s: kind of tensor changed" % what)
    ck.true(y.is_scaled == x.is_scaled, "%s: scaling flag changed" % what)
    ck.true(y.share_type == x.share_type, "%s: share type changed" % what)
    ck.true(y.backing_dtype == x.backing_dtype, "%s: backing type changed" % what)


def opened(p, y):
    return a3.opened(p, y)


def check(ck, kind, shape, op, name):
    p = prot_for(kind)
    v = data(shape, kind)
    x = enter(p, v, kind)
    y, want = op(p, x, v)
    ys, ws = (y, want) if isinstance(y, (list, tuple)) else ([y], [want])
    ck.true(len(ys) == len(ws), "%s: %d results, expected %d" % (name, len(ys), len(ws)))
    for a, w in zip(ys, ws):
        same_kind(ck, x, a, name)
        ck.eq(tuple(int(d) for d in a.shape), tuple(np.shape(w)), name + " static shape")
        got = opened(p, a)
        ck.eq(got, np.asarray(w), name)
        ck.count(0, states=max(1, int(np.size(w))), transitions=1, traces=1)


PERMS = {n: list(itertools.permutations(range(n))) for n in (1, 2, 3, 4)}
SLICES = [
    0, -1, 1, slice(None), slice(1, None), slice(None, -1), slice(0, 3, 2), slice(None, None, 2), slice(None, None, -1),
    (0, 1), (slice(None), 0), (slice(1, 2), slice(0, 2)), (Ellipsis, 0), (0, Ellipsis), (Ellipsis, slice(0, 2)), (-1, -2),
    (slice(None), slice(None, None, -1)), (slice(None), None), (None,), (0, slice(None), None), (Ellipsis,), (Ellipsis, None),
    (slice(-2, None), slice(-2, None)), (slice(2, 0, -1), 1), (Ellipsis, -1), (slice(0, 1), Ellipsis, slice(1, 2)), (None, 1, None),
]


def ops_for(shape):
    """All shaping programs for one shape, with their plaintext."""
    r = len(shape)
    n = int(np.prod(shape))
    out = []

    def add(name, f):
        out.append((name, f))

    targets = {12: [(12,), (3, 4), (4, 3), (2, 6), (6, 2), (2, 2, 3), (3, 2, 2), (1, 12), (12, 1), (2, 1, 6), (-1,), (-1, 4), (2, -1), (2, -1, 3), (1, 2, 2, 3)],
               24: [(24,), (4, 6), (2, 3, 4), (2, -1), (-1, 3, 2), (3, 8)],
               1: [(1,), (1, 1), ()]}.get(n, [(-1,), (1, n)])
    for t in targets:
        add("reshape%s" % (t,), lambda p, x, v, t=t: (p.reshape(x, t), v.reshape(t)))
    add("reshape-list", lambda p, x, v: (x.reshape([-1, 1]), v.reshape(-1, 1)))
    for q in PERMS.get(r, []):
        add("transpose%s" % (q,), lambda p, x, v, q=q: (p.transpose(x, list(q)), v.transpose(q)))
    if r:
        add("transposeNone", lambda p, x, v: (p.transpose(x), v.transpose()))
        add("transposeM", lambda p, x, v: (x.transpose(), v.transpose()))
    for ax in range(-r - 1, r + 1):
        add("expand_dims%d" % ax, lambda p, x, v, ax=ax: (p.expand_dims(x, ax), np.expand_dims(v, ax)))
    for ax in range(-r, r):
        if shape[ax] == 1:
            add("squeeze%d" % ax, lambda p, x, v, ax=ax: (p.squeeze(x, [ax]), np.squeeze(v, ax)))
        for k in range(2, 4):
            if shape[ax] % k == 0:
                add("split%d/%d" % (k, ax), lambda p, x, v, k=k, ax=ax: (p.split(x, k, axis=ax), np.split(v, k, axis=ax)))
        if shape[ax] >= 3:
            sz = [1, shape[ax] - 2, 1]
            add("splitL/%d" % ax, lambda p, x, v, sz=sz, ax=ax: (p.split(x, sz, axis=ax), np.split(v, np.cumsum(sz)[:-1], axis=ax)))
        add("reverse%d" % ax, lambda p, x, v, ax=ax: (p.reverse(x, [ax]), np.flip(v, ax)))
        m = shape[ax]
        for idx in ([0], [m - 1, 0], list(range(m)) + [0, 0], [[0, m - 1], [m - 1, 0]]):
            add("gather%s/%d" % (idx, ax), lambda p, x, v, idx=idx, ax=ax: (p.gather(x, idx, axis=ax), np.take(v, idx, axis=ax)))
    if r and 1 in shape:
        add("squeeze", lambda p, x, v: (p.squeeze(x), np.squeeze(v)))
    if r >= 1:
        add("gather-tf", lambda p, x, v: (p.gather(x, tf.constant([shape[0] - 1, 0])), v[[shape[0] - 1, 0]]))
        if r >= 2:
            add("reverse-all", lambda p, x, v: (p.reverse(x, [0, 1]), v[::-1, ::-1]))
        for mult in itertools.product((1, 2, 3), repeat=r):
            if r <= 2 or sum(mult) <= r + 2:
                add("tile%s" % (mult,), lambda p, x, v, mult=mult: (p.tile(x, list(mult)), np.tile(v, mult)))
    for s in SLICES:
        try:
            np.empty(shape)[s]
        except IndexError:
            continue
        if np.empty(shape)[s].size == 0:
            continue
        add("index%s" % (s,), lambda p, x, v, s=s: (x[s], v[s]))
    if r == 2:
        for b, e, st in (([0, 1], [2, 3], [1, 1]), ([1, 0], [3, 4], [2, 2]), ([0, 3], [2, 0], [1, -1])):
            if shape[0] >= 2 and shape[1] >= 4:
                add("strided%s%s%s" % (b, e, st), lambda p, x, v, b=b, e=e, st=st: (
                    p.strided_slice(x, b, e, st), v[b[0]:e[0]:st[0], b[1]:e[1]:st[1]]))
        if shape[0] >= 2 and shape[1] >= 2:
            add("strided-mask", lambda p, x, v: (
                p.strided_slice(x, [0, 1], [2, 2], begin_mask=1, shrink_axis_mask=2), v[:2, 1]))
    return out


# operations the library offers for private tensors only
PRIVATE_ONLY = ("reverse", "expand[", "scatter")
SHAPES = [(12,), (3, 4), (2, 3, 4), (2, 1, 3, 2), (1,), (1, 1), (3, 1), (1, 4), (2, 2, 3)]


def shaping(ck):
    for shape in SHAPES:
        ops = ops_for(shape)
        for kind in KINDS:
            if ck.quick and kind in ("u128", "u64s", "pA64s", "pB64") and shape not in ((3, 4), (2, 1, 3, 2)):
                continue
            groups = {}
            for name, f in ops:
                if kind[0] == "u" and name.startswith(PRIVATE_ONLY):
                    continue
                if kind == "pbool" and name.startswith(("tile", "reverse")):  # not offered by that back-end
                    continue
                groups.setdefault(name.split("[")[0].split("(")[0].rstrip("-0123456789/"), []).append((name, f))
            for g, lst in groups.items():
                ck.case("shape/%s/%s/%s" % (kind, shape, g), _group, ck, kind, shape, lst, kind="shape")


def _group(ck, kind, shape, lst):
    for name, f in lst:
        try:
            check(ck, kind, shape, f, name)
        except Exception as e:
            e.args = ("%s on %s %s: %s" % (name, kind, shape, e),)
            raise


def multi(ck):
    for kind in KINDS:
        for shape in ((3,), (2, 3), (2, 2, 3)):
            ck.case("multi/%s/%s" % (kind, shape), _multi, ck, kind, shape, kind="multi")
        if kind[0] == "p" and kind != "pbool":
            ck.case("scatter/%s" % kind, _scatter, ck, kind, kind="multi")
            ck.case("expand/%s" % kind, _expand, ck, kind, kind="multi")
        if "64" in kind:
            ck.case("gatherpub/%s" % kind, _gatherpub, ck, kind, kind="multi")


def _multi(ck, kind, shape):
    r = len(shape)
    p = prot_for(kind)
    vs = [data(shape, kind, i) for i in range(3)]
    xs = [enter(p, v, kind) for v in vs]
    for m in (1, 2, 3):
        for ax in range(-r - 1, r + 1):
            y = p.stack(xs[:m], ax)
            same_kind(ck, xs[0], y, "stack")
            ck.eq(opened(p, y), np.stack(vs[:m], ax), "stack axis %d" % ax)
    for ax in range(-r, r):
        ws, zs = [], []
        for i in range(3):
            sh = list(shape)
            sh[ax] = i + 1
            ws.append(data(tuple(sh), kind, 7 + i))
            zs.append(enter(p, ws[-1], kind))
        for order in itertools.permutations(range(3)):
            y = p.concat([zs[i] for i in order], ax)
            same_kind(ck, zs[0], y, "concat")
            ck.eq(opened(p, y), np.concatenate([ws[i] for i in order], ax), "concat axis %d" % ax)
            ck.count(0, states=1, transitions=1, traces=1)
        ck.eq(opened(p, p.concat(zs[:1], ax)), ws[0], "concat of one")


def _scatter(ck, kind):
    p = prot_for(kind)
    for shape, idx, out in (((3,), [[4], [0], [2]], (6,)), ((3,), [[0, 1], [2, 0], [1, 1]], (3, 2)),
                            ((2, 3), [[1], [3]], (4, 3)), ((2, 2), [[[0, 0], [1, 1]], [[2, 0], [0, 1]]], (3, 2))):
        v = data(shape, kind)
        x = enter(p, v, kind)
        w = np.zeros(out, dtype=v.dtype)
        ii = np.array(idx)
        w[tuple(np.moveaxis(ii, -1, 0))] = v
        for form in ("tf", "np", "list") + (("public",) if kind in ("pA64", "pB64") else ()):
            i = dict(tf=tf.constant(idx), np=ii, list=idx, public=None)[form]
            if form == "public":
                i = p.define_constant(ii, apply_scaling=False)
            y = p.scatter_nd(i, x, out)
            same_kind(ck, x, y, "scatter_nd")
            ck.eq(opened(p, y), w, "scatter_nd %s" % form)
            ck.count(0, states=1, transitions=1, traces=1)


def _expand(ck, kind):
    p = prot_for(kind)
    for shape in ((3, 3), (2, 3), (1, 4), (2, 2, 2)):
        for st in (1, 2, 3):
            v = data(shape, kind)
            w = np.zeros(((shape[0] - 1) * st + 1, (shape[1] - 1) * st + 1) + shape[2:], dtype=v.dtype)
            w[::st, ::st] = v
            x = enter(p, v, kind)
            y = p.expand(x, st)
            same_kind(ck, x, y, "expand")
            ck.eq(opened(p, y), w, "expand")
            ck.count(0, states=1, transitions=1, traces=1)


def _gatherpub(ck, kind):
    p = prot_for(kind)
    v = data((4, 3), kind)
    x = enter(p, v, kind)
    for ax, idx in ((0, [3, 0, 0]), (1, [2, 1])):
        i = p.define_constant(np.array(idx), apply_scaling=False, factory=rt.tfe.tensor.int64factory)
        y = p.gather(x, i, axis=ax)
        same_kind(ck, x, y, "gather")
        ck.eq(opened(p, y), np.take(v, idx, axis=ax), "gather by public indices")
        ck.count(0, states=1, transitions=1, traces=1)


def pads(ck):
    for kind in KINDS:
        for r in (1, 2, 3):
            ck.case("pad/%s/%d" % (kind, r), _pad, ck, kind, r, kind="pad")


def _pad(ck, kind, r):
    p = prot_for(kind)
    shape = (2, 3, 2)[:r]
    v = data(shape, kind)
    x = enter(p, v, kind)
    per = list(itertools.product((0, 1, 2), repeat=2))
    combos = list(itertools.product(per, repeat=r)) if r <= 2 else [(a, b, c) for a in per[:4] for b in per[2:5] for c in per[:6:2]]
    if "128" in kind and ck.quick:
        combos = combos[::5]
    for pd in combos:
        y = p.pad(x, [list(t) for t in pd])
        same_kind(ck, x, y, "pad")
        ck.eq(opened(p, y), np.pad(v, pd), "pad %s" % (pd,))
        ck.count(0, states=1, transitions=1, traces=1)


GEO = [((h, w), k, s, pad) for (h, w) in ((4, 4), (3, 5), (5, 4), (6, 6), (1, 3)) for k in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 1))
       for s in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 3)) for pad in ("SAME", "VALID")
       if pad == "SAME" or (k[0] <= h and k[1] <= w)]


def patches(ck):
    geo = GEO if not ck.quick else [g for g in GEO if g[0] != (6, 6)]
    for kind in ("pA64", "pB64", "pA64s", "p128", "u64"):
        for i in range(0, len(geo), 8):
            if ck.quick and kind in ("pB64", "p128", "pA64s") and (i // 8) % 3:
                continue
            ck.case("patches/%s/%d" % (kind, i), _patches, ck, kind, geo[i:i + 8], kind="patches")


def _patches(ck, kind, geo):
    p = prot_for(kind)
    for (h, w), k, s, pad in geo:
        n, c = 2, 3
        v = data((n, c, h, w), kind)
        if not kind.endswith("s"):
            v = v >> 8
        x = enter(p, v, kind)
        what = "%s %s %s %s" % ((h, w), k, s, pad)
        y = p.im2col(x, k[0], k[1], list(s), pad)
        same_kind(ck, x, y, "im2col")
        ck.eq(opened(p, y), plain.im2col(v, k, s, pad), "im2col " + what)
        ck.count(0, states=1, transitions=1, traces=1)
        if kind[0] == "u":
            continue
        y = p.im2patches(x, k, strides=list(s), padding=pad)
        same_kind(ck, x, y, "im2patches")
        want = plain.im2patches(v, k, s, pad)
        ck.eq(opened(p, y), want, "im2patches " + what)
        yh = p.im2patches(p.transpose(x, [0, 2, 3, 1]), k, strides=list(s), padding=pad, data_format="NHWC")
        ck.eq(opened(p, yh), want.transpose(0, 2, 3, 1), "im2patches NHWC " + what)
        if kind.startswith("pB"):
            continue
        # the inverse sums what overlaps
        d = data(want.shape, kind, 3)
        if not kind.endswith("s"):
            d = d >> 12
        yb = enter(p, d, kind)
        z = p.patches2im(yb, k, strides=list(s), padding=pad, img_size=(h, w))
        same_kind(ck, x, z, "patches2im")
        wb = plain.patches2im(d, k, s, pad, (h, w))
        ck.eq(opened(p, z), wb, "patches2im " + what)
        z = p.patches2im(p.transpose(yb, [0, 2, 3, 1]), k, strides=list(s), padding=pad, img_size=(h, w), data_format="NHWC")
        ck.eq(opened(p, z), wb.transpose(0, 2, 3, 1), "patches2im NHWC " + what)
        ck.count(0, states=3, transitions=3, traces=3)


def convs(ck):
    geo = GEO if not ck.quick else [g for g in GEO if g[0] != (6, 6)]
    for kx, kw in ("pp", "pu", "up"):
        for sx, sw in ((False, False), (True, True), (True, False), (False, True)):
            for i in range(0, len(geo), 8):
                if ck.quick and (sx or sw) and (i // 8) % 4 != (sx + 2 * sw):
                    continue
                ck.case("conv/%s%s/%d%d/%d" % (kx, kw, sx, sw, i), _conv, ck, "low", kx, kw, sx, sw, geo[i:i + 8], kind="conv")
        for i in range(0, len(geo), 24 if ck.quick else 8):
            ck.case("conv128/%s%s/%d" % (kx, kw, i), _conv, ck, "high", kx, kw, False, False, geo[i:i + 3], kind="conv")
            ck.case("conv128s/%s%s/%d" % (kx, kw, i), _conv, ck, "high", kx, kw, True, True, geo[i + 1:i + 3], kind="conv")


def _conv(ck, cfg, kx, kw, sx, sw, geo):
    p = rt.aby3(cfg)
    E = lambda k, v, s: a3.private(p, v, scaled=s) if k == "p" else a3.public(p, v, scaled=s)
    ulp = 1.0 / p.fixedpoint_config.scaling_factor
    for (h, w), k, s, pad in geo:
        for n, ci, co in ((1, 1, 1), (2, 2, 3)):
            v = ((np.arange(n * ci * h * w) * 37) % 31 - 15).reshape(n, ci, h, w)
            f = ((np.arange(k[0] * k[1] * ci * co) * 29) % 23 - 11).reshape(k[0], k[1], ci, co)
            xv = v / 4.0 if sx else v
            fv = f / 8.0 if sw else f
            y = p.conv2d(E(kx, xv, sx), E(kw, fv, sw), list(s), pad)
            ck.true(y.is_scaled == (sx or sw), "conv2d: scaling flag")
            ck.close(a3.opened(p, y), plain.conv2d(xv, fv, s, pad), 1.01 * ulp if sx and sw else 0,
                     "conv2d %s %s %s %s %s" % ((n, ci, h, w), k, co, s, pad))
            ck.count(0, states=1, transitions=1, traces=1)


def pools(ck):
    geo = GEO if not ck.quick else [g for g in GEO if g[0] != (6, 6)]
    for cfg in ("low", "high"):
        for kx in ("p", "u"):
            for i in range(0, len(geo), 8):
                if cfg == "high" and ck.quick and (i // 8) % 4:
                    continue
                ck.case("avgpool/%s/%s/%d" % (cfg, kx, i), _avg, ck, cfg, kx, geo[i:i + 8], kind="avgpool")
    for cfg in ("low",):
        ck.case("avgpool-border/%s" % cfg, _avg_border, ck, cfg, geo, kind="avgpool")


def _avg(ck, cfg, kx, geo):
    p = rt.aby3(cfg)
    ulp = 1.0 / p.fixedpoint_config.scaling_factor
    for (h, w), k, s, pad in geo:
        v = (((np.arange(2 * 3 * h * w) * 37) % 101 - 50) / 4.0).reshape(2, 3, h, w)
        x = a3.private(p, v, scaled=True) if kx == "p" else a3.public(p, v, scaled=True)
        y = a3.opened(p, p.avgpool2d(x, k, list(s), pad))
        want, pw = plain.avgpool(v, k, s, pad), plain.avgpool(v, k, s, pad, count_pad=True)
        tol = ulp * (3 + np.abs(want) * k[0] * k[1])
        ck.true(y.shape == want.shape, "avgpool2d: shape %s, expected %s" % (y.shape, want.shape))
        # windows that reach into the padding: see avgpool-border
        inner = want == pw
        ck.close(np.where(inner, y, 0), np.where(inner, want, 0), tol, "avgpool2d %s %s %s %s" % ((h, w), k, s, pad))
        e = np.minimum(np.abs(y - want), np.abs(y - pw))
        ck.true((e <= ulp * (3 + np.maximum(np.abs(want), np.abs(pw)) * k[0] * k[1])).all(), "avgpool2d border %s %s %s %s" % ((h, w), k, s, pad))
        ck.count(0, states=1, transitions=1, traces=1)


def _avg_border(ck, cfg, geo):
    p = rt.aby3(cfg)
    for (h, w), k, s, pad in geo[:20]:
        v = (((np.arange(2 * 3 * h * w) * 37) % 101 - 50) / 4.0).reshape(2, 3, h, w)
        y = a3.opened(p, p.avgpool2d(a3.private(p, v, scaled=True), k, list(s), pad))
        ck.either(y, plain.avgpool(v, k, s, pad), plain.avgpool(v, k, s, pad, count_pad=True), 0.02, "finding:avgpool-same-border",
                  "avgpool2d %s %s %s %s" % ((h, w), k, s, pad))
