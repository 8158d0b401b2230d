"""C23: private Keras layers compute what the plain layers compute, forward and backward."""
import itertools

import numpy as np

from vlib import a3, pd, plain, rt
import tensorflow as tf
import tf_encrypted as tfe
from tf_encrypted.keras import layers as L
from tf_encrypted.protocol.aby3 import ABY3
from tf_encrypted.protocol.pond import Pond
from tf_encrypted.protocol.securenn import SecureNN

SIG = 0.0412  # the bound of the piecewise linear sigmoid (C07)


def aby3():
    return rt.aby3(debug=True)


def pond():
    return pd.pond(config=pd.fixed64_ni)


def snn():
    return pd.pond(config=pd.fixed64_ni, cls=SecureNN)


PROT = {"aby3": aby3, "pond": pond, "snn": snn}


def opened(prot, x):
    return (a3 if isinstance(prot, ABY3) else pd).opened(prot, x)


def vals(shape, k=0, step=4.0):
    """Different multiples of 1/step, in a fixed mixed order around zero (never zero)."""
    n = int(np.prod(shape))
    v = np.random.RandomState(1234 + 7 * k + n).permutation(n) - n // 2
    v = np.where(v >= 0, v + 1, v)
    while n > 24 and np.abs(v).max() > 12:
        v = np.sign(v) * (np.abs(v) % 11 + 1)
        break
    return (v / step).reshape(shape)


def distinct(shape, k=0):
    n = int(np.prod(shape))
    v = np.random.RandomState(99 + k + n).permutation(n) - n // 2
    return np.where(v >= 0, v + 1, v).reshape(shape) / 4.0


def give(prot, v, kind="private"):
    f = prot.define_private_variable if kind == "private" else prot.define_public_variable
    return f(np.asarray(v))


def tol_of(prot, fan):
    """Rounding of up to fan products (never more than a hundredth)."""
    return 0.004 + 0.0008 * fan


def act_of(name, z):
    if name in (None, "linear"):
        return z
    if name == "relu":
        return np.maximum(z, 0)
    if name == "sigmoid":
        return 1 / (1 + np.exp(-z))
    raise ValueError(name)


def act_grad(name, z, y, g):
    """From the layer's own output, which C07 bounds."""
    if name in (None, "linear"):
        return g
    if name == "relu":
        return g * (z > 0)
    return g * y * (1 - y)


def check_act(ck, name, got, z, tol, what):
    ck.close(got, act_of(name, z), tol + (SIG if name == "sigmoid" else 0), what)


def shape_is(ck, layer, x, y):
    s = layer.compute_output_shape(x.shape.as_list() if hasattr(x.shape, "as_list") else list(x.shape))
    ck.true([int(d) for d in s] == [int(d) for d in y.shape], "the announced output shape %s is %s" % (s, y.shape))


def grads(ck, prot, layer, g, want_w, want_x, tol, what):
    gw, gx = layer.backward(give(prot, g))
    ck.true(len(gw) == len(want_w), "%s: number of weight gradients" % what)
    for i, (a, b) in enumerate(zip(gw, want_w)):
        ck.true([int(d) for d in a.shape] == [int(d) for d in layer.weights[i].shape], "%s: shape of weight gradient %d" % (what, i))
        ck.close(opened(prot, a).reshape(b.shape), b, tol, "%s: gradient of weight %d" % (what, i))
    ck.close(opened(prot, gx), want_x, tol, "%s: gradient of the input" % what)


# -- Dense ----------------------------------------------------------------------------------------

def _dense(ck, pname, n, m, act, bias, lazy, kind, how):
    prot = PROT[pname]()
    for b in (1, 2, 3):
        x, w, c, g = vals((b, n), 1), vals((n, m), 2) / 4, vals((m,), 3), vals((b, m), 4)
        kw = dict(lazy_normalization=True) if lazy else {}
        layer = L.Dense(m, activation=act, use_bias=bias, **kw)
        ws = [w, c][: 1 + bias]
        xx = give(prot, x, kind)
        if how == "np":
            layer.build(xx.shape)
            layer.set_weights([np.array(v) for v in ws])
        elif how == "private":
            layer.build(xx.shape)
            layer.set_weights([give(prot, v) for v in ws])
        else:  # whatever the layer starts with
            layer.build(xx.shape)
            ws = [opened(prot, v.read_value()) for v in layer.weights]
            w, c = ws[0], ws[1] if bias else None
            if bias:
                ck.close(c, np.zeros(m), 0, "the bias starts at zero")
        y = layer(xx)
        z = x @ w + (c if bias else 0)
        tol = tol_of(prot, n)
        got = opened(prot, y)
        check_act(ck, act, got, z, tol, "forward, batch of %d" % b)
        shape_is(ck, layer, xx, y)
        if pname == "aby3" or act in (None, "linear"):
            dz = act_grad(act, z, got, g)
            s = 1.0 / b if lazy else 1.0
            near = 0 if act != "relu" or np.abs(z).min() > tol else 99
            if not near:
                grads(ck, prot, layer, g, [x.T @ dz * s, dz.sum(0) * s][: 1 + bias], dz @ w.T, tol_of(prot, n + m + b) + 0.003, "batch of %d" % b)
        ck.count(0, states=1, traces=1)


# -- Conv2D ---------------------------------------------------------------------------------------

def cl(x, fmt):
    """To channels last."""
    return np.transpose(x, [0, 2, 3, 1]) if fmt == "channels_first" else x


def cf(x, fmt):
    """From channels last."""
    return np.transpose(x, [0, 3, 1, 2]) if fmt == "channels_first" else x


def tf_conv(x, w, c, s, pad, g=None, dw=False):
    with tf.device("/job:localhost/replica:0/task:0/device:CPU:0"):
        X, W, C = [tf.Variable(v, dtype=tf.float64) for v in (x, w, c)]
        with tf.GradientTape() as t:
            f = tf.nn.depthwise_conv2d if dw else tf.nn.conv2d
            z = f(X, W, strides=[1, s[0], s[1], 1], padding=pad.upper()) + C
            o = tf.reduce_sum(z * (g(z.numpy()) if g else 1.0))
        gr = t.gradient(o, [X, W, C]) if g else (None,) * 3
        return z.numpy(), [None if v is None else v.numpy() for v in gr]


def _conv(ck, pname, k, s, pad, fmt, cin, f, hw, act, bias, lazy, b=2):
    prot = PROT[pname]()
    ss = (s, s) if isinstance(s, int) else s
    x, w, c = vals((b,) + hw + (cin,), 1), vals((k, k, cin, f), 2) / 4, vals((f,), 3)
    if not bias:
        c = c * 0
    kw = dict(lazy_normalization=True) if lazy else {}
    layer = L.Conv2D(f, k, strides=s, padding=pad, data_format=fmt, activation=act, use_bias=bias, **kw)
    xx = give(prot, cf(x, fmt))
    layer.build(xx.shape)
    layer.set_weights([w, c.reshape(f, 1, 1)][: 1 + bias])
    y = layer(xx)
    tol = tol_of(prot, k * k * cin)
    box = {}

    def G(z):
        g = vals(z.shape, 4)
        box["g"] = g
        got = cl(opened(prot, y), fmt)
        return act_grad(act, z, got, g)

    z, (gx, gw, gc) = tf_conv(x, w, c, ss, pad, G)
    check_act(ck, act, cl(opened(prot, y), fmt), z, tol, "forward")
    shape_is(ck, layer, xx, y)
    if act == "relu" and np.abs(z).min() <= tol:
        return
    n = b * z.shape[1] * z.shape[2]
    sc = 1.0 / b if lazy else 1.0
    grads(ck, prot, layer, cf(box["g"], fmt), [gw * sc, gc * sc][: 1 + bias], cf(gx, fmt), tol_of(prot, n + k * k * f), "backward")
    ck.count(0, states=1, traces=1)


def _depthwise(ck, pname, k, s, pad, fmt, cin, mult, hw, act, bias, how):
    prot = PROT[pname]()
    x, w, c = vals((2,) + hw + (cin,), 1), vals((k, k, cin, mult), 2) / 4, vals((cin * mult,), 3)
    if not bias:
        c = c * 0
    layer = L.DepthwiseConv2D(k, strides=s, padding=pad, depth_multiplier=mult, data_format=fmt, activation=act, use_bias=bias)
    xx = give(prot, cf(x, fmt))
    layer.build(xx.shape)
    ws = [w, c.reshape(-1, 1, 1)][: 1 + bias]
    layer.set_weights([np.array(v) for v in ws] if how == "np" else [give(prot, v) for v in ws])
    y = layer(xx)
    z, _ = tf_conv(x, w, c, (s, s), pad, dw=True)
    check_act(ck, act, cl(opened(prot, y), fmt), z, tol_of(prot, k * k), "forward")
    shape_is(ck, layer, xx, y)
    ck.count(0, states=1, traces=1)


# -- pooling --------------------------------------------------------------------------------------

def _pool(ck, pname, which, k, s, pad, fmt, hw, c, sign):
    prot = PROT[pname]()
    kk = (k, k) if isinstance(k, int) else k
    ss = kk if s is None else (s, s) if isinstance(s, int) else s
    x = distinct((2,) + hw + (c,))
    if sign:
        x = sign * (np.abs(x).max() + 1 + x)
    cls = L.MaxPooling2D if which == "max" else L.AveragePooling2D
    layer = cls(pool_size=k, strides=s, padding=pad, data_format=fmt)
    xx = give(prot, cf(x, fmt))
    y = layer(xx)
    with tf.device("/job:localhost/replica:0/task:0/device:CPU:0"):
        X = tf.Variable(x, dtype=tf.float64)
        with tf.GradientTape() as t:
            f = tf.nn.max_pool2d if which == "max" else tf.nn.avg_pool2d
            z = f(X, kk, ss, pad.upper())
            g = vals(z.shape, 4)
            o = tf.reduce_sum(z * g)
        gx, z = t.gradient(o, X).numpy(), z.numpy()
    got = cl(opened(prot, y), fmt)
    tol = tol_of(prot, 4)
    xn = np.transpose(x, [0, 3, 1, 2])
    same = pad == "same"
    if which == "avg" and same:
        bad = np.transpose(plain.avgpool(xn, kk, ss, "SAME", count_pad=True), [0, 2, 3, 1])
        ck.either(got, z, bad, tol, "finding:avgpool-same-border", "forward")
    elif which == "max" and same and sign != 1:
        bad = np.transpose(plain.maxpool(xn, kk, ss, "SAME", fill=0), [0, 2, 3, 1])
        ck.either(got, z, bad, tol, "finding:maxpool-same-negative", "forward")
    else:
        ck.close(got, z, tol, "forward")
    shape_is(ck, layer, xx, y)
    if pname != "aby3" or (which == "max" and same and sign != 1):
        return
    _, d = layer.backward(give(prot, cf(g, fmt)))
    d = cl(opened(prot, d), fmt)
    if which == "avg" and same:
        gn = np.transpose(g, [0, 3, 1, 2])
        pt = np.repeat(gn[..., None], kk[0] * kk[1], -1) / (kk[0] * kk[1])
        n, ch, ho, wo = gn.shape
        bad = _scatter(pt, kk, ss, hw)
        ck.either(d, gx, np.transpose(bad, [0, 2, 3, 1]), 0.01, "finding:avgpool-same-border", "backward")
    else:
        ck.close(d, gx, 0.01, "backward")
    ck.count(0, states=1, traces=1)


def _scatter(pt, k, s, hw):
    """Adds windows of zero padded images back into the images."""
    n, c, ho, wo, _ = pt.shape
    ph, pw = max((ho - 1) * s[0] + k[0] - hw[0], 0), max((wo - 1) * s[1] + k[1] - hw[1], 0)
    out = np.zeros((n, c, hw[0] + ph, hw[1] + pw))
    for i in range(ho):
        for j in range(wo):
            out[:, :, i * s[0]: i * s[0] + k[0], j * s[1]: j * s[1] + k[1]] += pt[:, :, i, j].reshape(n, c, k[0], k[1])
    return out[:, :, ph // 2: ph // 2 + hw[0], pw // 2: pw // 2 + hw[1]]


def _global(ck, pname, which, fmt, keep, hw, c):
    prot = PROT[pname]()
    for b in (1, 2):
        x = distinct((b,) + hw + (c,))
        cls = L.GlobalMaxPooling2D if which == "max" else L.GlobalAveragePooling2D
        layer = cls(data_format=fmt, keepdims=keep)
        xx = give(prot, cf(x, fmt))
        y = layer(xx)
        z = x.max((1, 2)) if which == "max" else x.mean((1, 2))
        g = vals(z.shape, 3)
        if which == "max":
            d = (x == z[:, None, None, :]) * g[:, None, None, :]
        else:
            d = np.broadcast_to(g[:, None, None, :], x.shape) / (hw[0] * hw[1])
        if keep:
            z, g = cf(z[:, None, None, :], fmt), cf(g[:, None, None, :], fmt)
        ck.close(opened(prot, y), z, 0.01, "forward")
        shape_is(ck, layer, xx, y)
        if pname == "aby3":
            grads(ck, prot, layer, g, [], cf(d, fmt), 0.01, "backward")
        ck.count(0, states=1, traces=1)


# -- the rest -------------------------------------------------------------------------------------

def _flatten(ck, pname, shape, fmt):
    prot = PROT[pname]()
    x = vals(shape, 1)
    layer = L.Flatten(data_format=fmt)
    y = layer(give(prot, x))
    perm = list(range(len(shape)))
    if fmt == "channels_first" and len(shape) > 1:
        perm = [0] + list(range(2, len(shape))) + [1]
    xp = np.transpose(x, perm)
    want = xp.reshape(shape[0], -1)
    ck.close(opened(prot, y), want, 0.001, "forward")
    shape_is(ck, layer, give(prot, x), y)
    g = vals(want.shape, 2)
    d = np.transpose(g.reshape(xp.shape), np.argsort(perm))
    grads(ck, prot, layer, g, [], d, 0.001, "backward")
    ck.count(0, states=1, traces=1)


def _reshape(ck, pname, shape):
    prot = PROT[pname]()
    n = int(np.prod(shape[1:]))
    targets = [(n,), (-1,)] + [(a, n // a) for a in range(1, n + 1) if n % a == 0] + [(a, -1) for a in range(1, n + 1) if n % a == 0]
    targets += [(-1, a) for a in range(1, n + 1) if n % a == 0] + [(1, -1, 1), (1, n, 1, 1)]
    for t in targets:
        x = vals(shape, 1)
        layer = L.Reshape(t)
        xx = give(prot, x)
        y = layer(xx)
        want = x.reshape((shape[0],) + t)
        ck.close(opened(prot, y), want, 0.001, "forward to %s" % (t,))
        shape_is(ck, layer, xx, y)
        g = vals(want.shape, 2)
        grads(ck, prot, layer, g, [], g.reshape(shape), 0.001, "backward from %s" % (t,))
        ck.count(0, states=1, traces=1)


GRID = np.concatenate([np.arange(-24, 25) / 4.0, [-100, 100, -0.01, 0.01, 31.5, -31.5]])


def _activation(ck, pname, name, shape, how):
    prot = PROT[pname]()
    n = int(np.prod(shape))
    for lo in range(0, len(GRID), n):
        x = np.resize(GRID[lo: lo + n], shape)
        if how == "layer":
            layer = L.ReLU()
        elif how == "name":
            layer = L.Activation(name)
        else:
            layer = L.Activation(getattr(tfe.keras.activations, name))
        xx = give(prot, x)
        y = layer(xx)
        got = opened(prot, y)
        check_act(ck, name, got, x, 0.004, "forward")
        shape_is(ck, layer, xx, y)
        if pname == "aby3" and how != "callable":
            g = vals(shape, 5)
            grads(ck, prot, layer, g, [], act_grad(name, x, got, g), 0.01, "backward")
        ck.count(0, states=n, traces=1)


def _softmax(ck, shape):
    prot = PROT["aby3"]()
    x = vals(shape, 1)
    want = np.exp(x) / np.exp(x).sum(-1, keepdims=True)
    ck.close(opened(prot, L.Activation("softmax")(give(prot, x))), want, 0.05, "softmax")
    w = np.eye(shape[-1])
    layer = L.Dense(shape[-1], activation="softmax", use_bias=False)
    layer.build(x.shape)
    layer.set_weights([w])
    ck.close(opened(prot, layer(give(prot, x))), want, 0.05, "softmax after dense")
    ck.count(0, states=1, traces=1)


def _bn(ck, pname, shape, axis, center, scale, eps, how):
    prot = PROT[pname]()
    x = vals(shape, 1)
    ps = [1] * len(shape)
    ps[axis] = shape[axis]
    c = shape[axis]
    gam, bet, mean, var = 1 + np.arange(c) / 4.0, vals((c,), 2), vals((c,), 3), 0.5 + np.arange(c)
    layer = L.BatchNormalization(axis=axis, center=center, scale=scale, epsilon=eps)
    xx = give(prot, x)
    layer.build(xx.shape)
    if how == "start":
        gam, bet, mean, var = np.ones(c), np.zeros(c), np.zeros(c), np.ones(c)
    else:
        ws = ([gam] if scale else []) + ([bet] if center else []) + [mean, var]
        layer.set_weights(list(ws) if how == "np" else [give(prot, v, "public") for v in ws])
    y = layer(xx)
    r = lambda v: v.reshape(ps)
    want = (x - r(mean)) / np.sqrt(r(var) + eps)
    if scale:
        want = want * r(gam)
    if center:
        want = want + r(bet)
    ck.close(opened(prot, y), want, 0.02 + 0.004 * np.abs(want).max(), "forward")
    shape_is(ck, layer, xx, y)
    ck.count(0, states=1, traces=1)


# -- histories ------------------------------------------------------------------------------------

def _make(name):
    if name == "dense":
        return L.Dense(2), [(2, 3), (1, 3)], [(3, 2), (2,)], lambda x, w, c: x @ w + c
    if name == "dense-relu":
        return L.Dense(2, activation="relu"), [(2, 3), (1, 3)], [(3, 2), (2,)], lambda x, w, c: tf.nn.relu(x @ w + c)
    if name == "conv":
        return (L.Conv2D(2, 2, padding="same", data_format="channels_last"), [(1, 3, 2, 1), (2, 2, 3, 1)], [(2, 2, 1, 2), (2,)],
                lambda x, w, c: tf.nn.conv2d(x, w, 1, "SAME") + c)
    if name == "maxpool":
        return L.MaxPooling2D(2, 1, data_format="channels_last"), [(1, 3, 2, 1), (2, 2, 3, 1)], [], lambda x: tf.nn.max_pool2d(x, 2, 1, "VALID")
    if name == "gmax":
        return L.GlobalMaxPooling2D(data_format="channels_last"), [(1, 3, 2, 1), (2, 2, 3, 1)], [], lambda x: tf.reduce_max(x, [1, 2])
    if name == "relu":
        return L.ReLU(), [(2, 3), (4,)], [], lambda x: tf.nn.relu(x)
    if name == "flatten":
        return L.Flatten(), [(2, 3, 2), (1, 2, 2)], [], lambda x: tf.reshape(x, [x.shape[0], -1])
    if name == "avgpool":
        return L.AveragePooling2D(2, 1, data_format="channels_last"), [(1, 3, 2, 1), (2, 2, 3, 1)], [], lambda x: tf.nn.avg_pool2d(x, 2, 1, "VALID")


def _histories(ck, name, depth):
    """All sequences of calls with different inputs, new weights and backward passes: a backward pass belongs to
    the last call, a call uses the last weights."""
    acts = ["call0", "call1", "back", "set0", "set1"]
    if not _make_has_weights(name):
        acts = acts[:3]
    for seq in itertools.product(acts, repeat=depth):
        if seq[0] not in ("call0", "call1") or seq[-1].startswith("set") or any(a == b == "back" for a, b in zip(seq, seq[1:])):
            continue
        prot = rt.aby3(debug=False)
        layer, ins, wsh, f = _make(name)
        W = [vals(s, 9) / 4 for s in wsh]
        xs = [distinct(s, i) for i, s in enumerate(ins)]
        px = [give(prot, x) for x in xs]
        layer.build(px[0].shape)
        put = lambda ws: layer.set_weights([ws[0], ws[1].reshape(layer.weights[1].shape.as_list())])
        if wsh:
            put(W)
        last = None
        for j, a in enumerate(seq):
            what = "step %d of %s" % (j, " ".join(seq))
            if a.startswith("call"):
                i = int(a[-1])
                y = opened(prot, layer(px[i]))
                ck.close(y, np.asarray(f(tf.constant(xs[i]), *[tf.constant(w) for w in W])), 0.02, what)
                last, wl = i, list(W)
            elif a.startswith("set"):
                k = int(a[-1])
                W = [vals(s, 20 + k) / 4 for s in wsh]
                put(W)
                if last is not None:
                    last = None  # gradients after a change of weights are not defined
            elif last is not None:
                with tf.GradientTape() as t:
                    v = [tf.Variable(u) for u in [xs[last]] + wl]
                    o = f(*v)
                    g = vals(o.shape, j)
                    s = tf.reduce_sum(o * g)
                want = [np.asarray(u) for u in t.gradient(s, v)]
                gw, gx = layer.backward(give(prot, g))
                ck.close(opened(prot, gx), want[0], 0.02, what + ": input")
                for u, w in zip(gw, want[1:]):
                    ck.close(opened(prot, u).reshape(w.shape), w, 0.04, what + ": weight")
        ck.count(0, states=depth, transitions=depth, traces=1)


def _make_has_weights(name):
    return name in ("dense", "dense-relu", "conv")


def _weights_kept(ck):
    """Setting weights leaves the caller's list as it was."""
    prot = aby3()
    for mk, ws in ((lambda: L.Dense(2), [vals((3, 2)), vals((2,))]),
                   (lambda: L.Conv2D(2, 1, data_format="channels_last"), [vals((1, 1, 3, 2)), vals((2, 1, 1))]),
                   (lambda: L.DepthwiseConv2D(1, data_format="channels_last"), [vals((1, 1, 3, 1)), vals((3, 1, 1))])):
        shape = (2, 3) if ws[0].ndim == 2 else (1, 2, 2, 3)
        mine = [np.array(w) for w in ws]
        keep = list(mine)
        a, b = mk(), mk()
        x = give(prot, vals(shape, 4))
        for l in (a, b):
            l.build(x.shape)
            l.set_weights(mine)
        ck.true(len(mine) == len(keep) and all(m is k for m, k in zip(mine, keep)), "the caller's list of weights is left alone")
        ck.true(all(np.array_equal(m, w) for m, w in zip(mine, ws)), "the caller's weights are left alone")
        ck.close(opened(prot, a(x)), opened(prot, b(x)), 0.01, "layers with the same weights")
        ck.count(0, states=1, traces=1)


def run(ck):
    q = ck.quick
    for n, m in itertools.product((1, 2, 3), (1, 2, 3)):
        for act in (None, "linear", "relu", "sigmoid"):
            for bias, lazy in itertools.product((True, False), (False, True)):
                if q and act in ("relu", "sigmoid") and (n, m) not in ((2, 3), (3, 1), (1, 2)):
                    continue
                ck.case("dense/aby3/%dx%d/%s/%s%s" % (n, m, act, "bias" if bias else "", "/lazy" if lazy else ""), _dense, ck, "aby3", n, m, act, bias, lazy, "private", "np")
    for pname in ("aby3", "pond", "snn"):
        for how, kind in (("private", "private"), ("np", "public"), ("start", "private")):
            ck.case("dense/%s/%s-%s" % (pname, how, kind), _dense, ck, pname, 3, 2, None, True, False, kind, how)
    for pname in ("pond", "snn"):
        for bias in (True, False):
            for n, m in ((1, 1), (2, 3), (3, 1)):
                ck.case("dense/%s/%dx%d/%s" % (pname, n, m, bias), _dense, ck, pname, n, m, None, bias, False, "private", "np")
        if pname == "snn":
            ck.case("dense/snn/relu", _dense, ck, pname, 2, 3, "relu", True, False, "private", "np")
    sizes = ((3, 3), (4, 5), (5, 3)) if q else ((3, 3), (4, 4), (4, 5), (5, 3), (5, 5), (6, 4), (3, 7))
    for k, s, pad, fmt in itertools.product((1, 2, 3), (1, 2, 3), ("valid", "same"), ("channels_first", "channels_last")):
        for cin, f in ((1, 2), (2, 1)) if q else ((1, 1), (1, 2), (2, 1), (2, 3)):
            for hw in sizes:
                ck.case("conv/aby3/k%d/s%d/%s/%s/%d-%d/%dx%d" % ((k, s, pad, fmt, cin, f) + hw), _conv, ck, "aby3", k, s, pad, fmt, cin, f, hw, None, True, False)
    for pad, fmt, act, bias, lazy in itertools.product(("valid", "same"), ("channels_first", "channels_last"), ("relu", "sigmoid", "linear"), (True, False), (True, False)):
        ck.case("conv/aby3/%s/%s/%s/%s/%s" % (pad, fmt, act, bias, lazy), _conv, ck, "aby3", 2, 1, pad, fmt, 2, 2, (3, 4), act, bias, lazy)
    for pad, fmt, s in itertools.product(("valid", "same"), ("channels_first", "channels_last"), ((1, 2), (2, 1), (3, 2))):
        for k in (2, 3):
            for hw in ((4, 5), (5, 4), (5, 5), (4, 4)):
                ck.case("conv/aby3/%s/%s/k%d/s%dx%d/%dx%d" % ((pad, fmt, k) + s + hw), _conv, ck, "aby3", k, s, pad, fmt, 1, 2, hw, None, True, False)
    for pad, fmt, k, s in itertools.product(("valid", "same"), ("channels_first", "channels_last"), (1, 2, 3), (1, 2)):
        for cin, mult in ((1, 1), (2, 1), (2, 2), (3, 2)):
            if q and cin == 3 and k != 2:
                continue
            ck.case("depthwise/aby3/%s/%s/k%d/s%d/%d-%d" % (pad, fmt, k, s, cin, mult), _depthwise, ck, "aby3", k, s, pad, fmt, cin, mult, (4, 3), None, s == 1, "np" if k != 2 else "private")
    for pname in ("pond", "snn"):
        for k, s, pad, fmt in itertools.product((1, 2), (1, 2), ("valid", "same"), ("channels_first", "channels_last")):
            ck.case("conv/%s/k%d/s%d/%s/%s" % (pname, k, s, pad, fmt), _convf, ck, pname, k, s, pad, fmt)
    pools = (2, (1, 2), (2, 1), 3)
    for which in ("max", "avg"):
        for k, s, pad, fmt in itertools.product(pools, (None, 1, 2, (2, 1)), ("valid", "same"), ("channels_first", "channels_last")):
            for hw in ((3, 4), (4, 3)) if q else ((3, 3), (4, 4), (3, 4), (4, 3), (5, 4)):
                for sign in (0, 1) if which == "max" and pad == "same" else (0,):
                    if q and which == "max" and (hw == (4, 3)) == (fmt == "channels_first"):
                        continue
                    ck.case("pool/%s/k%s/s%s/%s/%s/%dx%d/%d" % ((which, k, s, pad, fmt) + hw + (sign,)), _pool, ck, "aby3", which, k, s, pad, fmt, hw, 2, sign)
    for pname in ("pond", "snn"):
        for k, s, pad, fmt in itertools.product((2, (1, 2)), (None, 1), ("valid", "same"), ("channels_first", "channels_last")):
            ck.case("pool/%s/k%s/s%s/%s/%s" % (pname, k, s, pad, fmt), _pool, ck, pname, "avg", k, s, pad, fmt, (3, 4), 1, 0)
    for which, fmt, keep, hw, c in itertools.product(("max", "avg"), ("channels_first", "channels_last"), (False, True), ((1, 1), (2, 3), (3, 2)), (1, 3)):
        ck.case("global/%s/%s/%s/%dx%d/%d" % ((which, fmt, keep) + hw + (c,)), _global, ck, "aby3", which, fmt, keep, hw, c)
    for pname in ("aby3", "pond", "snn"):
        for shape in ((3,), (2, 3), (2, 3, 2), (2, 2, 3, 2), (1, 2, 1, 3, 2)):
            for fmt in (None, "channels_last", "channels_first"):
                ck.case("flatten/%s/%s/%s" % (pname, "x".join(map(str, shape)), fmt), _flatten, ck, pname, shape, fmt)
        for shape in ((2, 6), (1, 4, 2), (3, 2, 2, 2)):
            ck.case("reshape/%s/%s" % (pname, "x".join(map(str, shape))), _reshape, ck, pname, shape)
    for name in ("relu", "sigmoid", "linear"):
        for shape in ((7,), (2, 4), (1, 3, 2), (2, 2, 2, 1)):
            for how in ("name", "callable") + (("layer",) if name == "relu" else ()):
                ck.case("activation/aby3/%s/%s/%s" % (name, how, "x".join(map(str, shape))), _activation, ck, "aby3", name, shape, how)
    ck.case("activation/snn/relu", _activation, ck, "snn", "relu", (2, 4), "name")
    for shape in ((2, 2), (1, 3), (3, 4)):
        ck.case("softmax/%dx%d" % shape, _softmax, ck, shape)
    for pname in ("aby3", "pond", "snn"):
        for shape, axis in (((2, 3), 1), ((2, 3, 2, 4), 1), ((2, 3, 2, 4), 3), ((1, 1, 2, 2), 3)):
            for center, scale in itertools.product((True, False), repeat=2):
                for eps in (0.001, 0.5):
                    for how in ("np", "public", "start") if pname == "aby3" else ("start",):
                        ck.case("bn/%s/%s/%d/%s%s/%s/%s" % (pname, "x".join(map(str, shape)), axis, center, scale, eps, how), _bn, ck, pname, shape, axis, center, scale, eps, how)
    for name in ("dense", "dense-relu", "conv", "maxpool", "gmax", "relu", "flatten", "avgpool"):
        ck.case("histories/%s" % name, _histories, ck, name, 4 if q else 5)
    ck.case("weights-kept", _weights_kept, ck)


def _convf(ck, pname, k, s, pad, fmt):
    """Forward only."""
    prot = PROT[pname]()
    x, w, c = vals((2, 4, 3, 2), 1), vals((k, k, 2, 2), 2) / 4, vals((2,), 3)
    layer = L.Conv2D(2, k, strides=s, padding=pad, data_format=fmt)
    xx = give(prot, cf(x, fmt))
    layer.build(xx.shape)
    layer.set_weights([w, c.reshape(2, 1, 1)])
    y = layer(xx)
    z, _ = tf_conv(x, w, c, (s, s), pad)
    ck.close(cl(opened(prot, y), fmt), z, tol_of(prot, k * k * 2), "forward")
    shape_is(ck, layer, xx, y)
    ck.count(0, states=1, traces=1)
