"""C24: losses, optimizers and training on private data do what they do in the clear."""
import contextlib
import io
import itertools

import numpy as np

from vlib import a3, rt
import tensorflow as tf
import tf_encrypted as tfe
from tf_encrypted.keras import layers as L
from tf_encrypted.keras import losses as LS
from tf_encrypted.keras import optimizers as O
from tf_encrypted.keras.models.base_model import BaseModel

from .c23 import vals

SIG = 0.0412  # bound of the sigmoid (C07)


def opened(x):
    return a3.opened(tfe.get_protocol(), x)


def priv(v):
    return tfe.define_private_variable(np.asarray(v, dtype=float))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def lib(f, z):
    """The library's own approximation of an activation (its error is C07's)."""
    return opened(f(priv(z)))


def sig_lib(z):
    return lib(tfe.sigmoid, z)


def softmax_lib(z):
    return lib(tfe.keras.activations.softmax, z)


# -- losses ---------------------------------------------------------------------------------------

def _mse(ck, shape):
    prot = rt.aby3(debug=True)
    for k in range(3):
        p, y = vals(shape, 1 + k, 4), vals(shape, 5 + k, 2)
        loss = LS.MeanSquaredError()
        P, Y = priv(p), priv(y)
        n = shape[0]
        ck.close(opened(loss(Y, P)), ((p - y) ** 2).sum(0) / n, 0.004 * n, "mean squared error")
        ck.close(opened(loss.grad(Y, P)), 2 * (p - y) / n, 0.002, "gradient of the mean squared error")
        ck.count(0, states=1, traces=1)


def _bce(ck, shape, logits, lazy, swap):
    prot = rt.aby3(debug=True)
    n = shape[0]
    size = int(np.prod(shape))
    for k in range(2):
        grid = np.linspace(-4, 4, 11) if logits else np.array([.1, .2, .35, .5, .6, .75, .9])
        p = grid[(np.arange(size) * 3 + k) % len(grid)].reshape(shape)
        y = ((np.arange(size) * 5 + k) // 2 % 2).astype(float).reshape(shape)
        if swap:
            y = np.where(y > 0, .75, .25)
        loss = LS.BinaryCrossentropy(from_logits=logits, lazy_normalization=lazy)
        P, Y = priv(p), priv(y)
        q = sig_lib(p) if logits else p
        true_q = 1 / (1 + np.exp(-p)) if logits else p
        want = (q - y) * (1 if lazy else 1 / n)
        got = opened(loss.grad(Y, P))
        ck.close(got, want, 0.002, "gradient of the binary cross entropy")
        if logits:
            ck.close(got, (true_q - y) * (1 if lazy else 1 / n), (0.002 + SIG) * (1 if lazy else 1 / n) + .002, "gradient of the binary cross entropy from logits")
        value = opened(loss(Y, P))
        lg = -(y * lib(tfe.log, q) + (1 - y) * lib(tfe.log, 1 - q))
        ck.close(value, lg.sum(0) / n, 0.01, "binary cross entropy")
        if not logits:
            ck.close(value, -(y * np.log(p) + (1 - y) * np.log(1 - p)).sum(0) / n, 0.045, "binary cross entropy against the plain one")
        ck.count(0, states=1, traces=1)


def _bce_prob_grad(ck):
    """The gradient with respect to a probability is (p-y)/(p(1-p))."""
    prot = rt.aby3(debug=True)
    p, y = np.array([[.1], [.25], [.5], [.8]]), np.array([[0.], [1], [1], [0]])
    got = opened(LS.BinaryCrossentropy().grad(priv(y), priv(p)))
    if np.abs(got - (p - y) / (p * (1 - p)) / 4).max() > .05:
        ck.fail("BinaryCrossentropy(from_logits=False).grad is the gradient with respect to the logits (p - y), not to the probabilities", key="finding:probability-gradient")
    got = opened(LS.CategoricalCrossentropy().grad(priv(np.array([[0., 1, 0]])), priv(np.array([[.25, .5, .25]]))))
    if np.abs(got - np.array([[0, -2., 0]])).max() > .05:
        ck.fail("CategoricalCrossentropy(from_logits=False).grad is the gradient with respect to the logits (p - y), not to the probabilities", key="finding:probability-gradient-cce")
    ck.count(0, states=2, traces=2)


def _cce(ck, n, c, logits, lazy, soft):
    prot = rt.aby3(debug=True)
    for k in range(2):
        z = vals((n, c), 3 + k, 4)
        z = np.clip(z, -2, 2)
        p = z if logits else np.exp(z) / np.exp(z).sum(1, keepdims=True)
        if not logits:
            p = np.clip(p, .1, .9)
        y = np.eye(c)[(np.arange(n) * 2 + k) % c]
        if soft:
            y = y * .5 + .5 / c
        loss = LS.CategoricalCrossentropy(from_logits=logits, lazy_normalization=lazy)
        P, Y = priv(p), priv(y)
        q = softmax_lib(p) if logits else p
        ck.close(opened(loss.grad(Y, P)), (q - y) * (1 if lazy else 1 / n), 0.003, "gradient of the categorical cross entropy")
        ck.close(opened(loss(Y, P)), -(y * lib(tfe.log, q)).sum() / n, 0.01 * c, "categorical cross entropy")
        if not logits:
            ck.close(opened(loss(Y, P)), -(y * np.log(p)).sum() / n, 0.05 * (2 if soft else 1), "categorical cross entropy against the plain one")
        ck.count(0, states=1, traces=1)


# -- optimizers -----------------------------------------------------------------------------------

class Ref:
    """The update rules, one instance per weight."""

    def __init__(self, cls, eps, **kw):
        self.cls, self.eps, self.kw = cls, eps, kw
        self.m = self.v = self.h = 0.0
        self.t = 0

    def step(self, w, g):
        kw = self.kw
        lr = kw.get("learning_rate", 0.01 if self.cls == "SGD" else 0.001)
        if self.cls == "SGD":
            self.v = kw.get("momentum", 0.0) * self.v + lr * g
            return w - self.v
        b1, b2 = kw.get("beta1", .9), kw.get("beta2", .999)
        self.t += 1
        self.m = b1 * self.m + (1 - b1) * g
        self.v = b2 * self.v + (1 - b2) * g * g
        if self.cls == "AMSgrad":
            self.h = np.maximum(self.h, self.v)
            return w - lr * self.m / np.sqrt(self.h + self.eps)
        return w - lr * (self.m / (1 - b1 ** self.t)) / np.sqrt(self.v / (1 - b2 ** self.t) + self.eps)


def opt_tol(cls, kw, t):
    lr = kw.get("learning_rate", .01)
    if cls == "SGD":
        return 3e-4 * (t + 1) * (1 + kw.get("momentum", 0))
    return lr * .02 * t + 3e-4 * (t + 1)


ALPHA = (-2.0, -0.5, 0.0, 0.25, 1.0, 3.0)


def _opt(ck, cls, kw, T, alpha, config=None, debug=True):
    """Every sequence of T gradients over the alphabet, one per entry of one weight; a second weight of another shape
    and a second layer get the sequences in other orders."""
    prot = rt.aby3(config=config, debug=debug)
    seqs = np.array(list(itertools.product(alpha, repeat=T)))  # (N, T)
    N = len(seqs)
    shapes = [[(N,), (2, N // 2)], [(N, 1)]]
    orders = [[np.arange(N), np.arange(N)[::-1]], [np.roll(np.arange(N), 7)]]
    w0 = [[((np.arange(N) * 7 % 33) - 16.0).reshape(s) / 4 for s in ss] for ss in shapes]
    eps = 2.0 ** -prot.fixedpoint_config.precision_fractional
    W = [[priv(w) for w in ws] for ws in w0]
    opt = getattr(O, cls)(**kw)
    opt.compile(W)
    refs = [[Ref(cls, eps, **kw) for _ in ss] for ss in shapes]
    cur = [[w.copy() for w in ws] for ws in w0]
    for t in range(T):
        for layer in (0, 1) if t % 2 else (1, 0):
            g = [seqs[o, t].reshape(s) for o, s in zip(orders[layer], shapes[layer])]
            opt.apply_gradients(W[layer], [priv(v) for v in g])
            for i in range(len(g)):
                cur[layer][i] = refs[layer][i].step(cur[layer][i], g[i])
            for l2 in (0, 1):
                for i, w in enumerate(W[l2]):
                    ck.close(opened(w.read_value()), cur[l2][i], opt_tol(cls, kw, t + 1), "step %d, layer %d, weight %d" % (t, l2, i))
    ck.count(0, states=3 * N * T, traces=N)


def _opt_skip(ck, cls, kw, n):
    """Layers updated a different number of times (every word over two layers), a layer without weights between."""
    for word in itertools.product((0, 1), repeat=n):
        prot = rt.aby3(debug=True)
        eps = 2.0 ** -prot.fixedpoint_config.precision_fractional
        cur = [np.array([1.0, -2.0]), np.array([[3.0]])]
        W = [[priv(cur[0])], [], [priv(cur[1])]]
        refs = [Ref(cls, eps, **kw), Ref(cls, eps, **kw)]
        opt = getattr(O, cls)(**kw)
        opt.compile(W)
        for t, layer in enumerate(word):
            g = (np.array([1.0, -0.5]) if layer == 0 else np.array([[2.0]])) * (1 if t % 2 else -.75)
            opt.apply_gradients(W[1], [])
            opt.apply_gradients(W[2 * layer], [priv(g)])
            cur[layer] = refs[layer].step(cur[layer], g)
        for layer in (0, 1):
            ck.close(opened(W[2 * layer][0].read_value()), cur[layer], opt_tol(cls, kw, n), "layer %d after %s" % (layer, word))
        ck.count(0, states=1, traces=1)


def _opt_get(ck):
    prot = rt.aby3(debug=True)
    for name, cls in (("sgd", O.SGD), ("amsgrad", O.AMSgrad), ("adam", O.Adam)):
        for how in (name, cls, cls(learning_rate=.5)):
            o = O.get(how)
            ck.true(isinstance(o, cls), "optimizer %r" % (how,))
        d = O.get(name)
        ck.true(d.learning_rate == (.01 if name == "sgd" else .001), "default learning rate of %s" % name)
        ck.true(d is not O.get(name), "a new optimizer each time")
        try:
            d.apply_gradients([priv([1.0])], [priv([1.0])])
        except RuntimeError:
            pass
        else:
            ck.fail("%s accepted weights it was not compiled for" % name)
        ck.count(0, states=1, traces=1)


# -- whole models ---------------------------------------------------------------------------------

class Recorder(tfe.keras.Sequential):
    """A model that remembers what each training step was given and what it returned."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.log = []

    def fit_batch(self, x, y):
        loss = super().fit_batch(x, y)
        self.log.append((opened(x), opened(y), loss.numpy() if hasattr(loss, "numpy") else loss))
        return loss


def ref_net(spec, W, x):
    """Forward pass with everything a backward pass needs."""
    trace = [x]
    i = 0
    for s in spec:
        if s[0] == "dense":
            x = x @ W[i][0] + (W[i][1] if len(W[i]) > 1 else 0)
            if s[2] == "relu":
                x = np.maximum(x, 0)
            elif s[2] == "sigmoid":
                x = sig_lib(x)
        elif s[0] == "relu":
            x = np.maximum(x, 0)
        elif s[0] == "sigmoid":
            x = sig_lib(x)
        elif s[0] == "flatten":
            x = x.reshape(len(x), -1)
        trace.append(x)
        i += 1
    return trace


def ref_back(spec, W, trace, d, lazy):
    G = [[] for _ in spec]
    for i in reversed(range(len(spec))):
        s, x, y = spec[i], trace[i], trace[i + 1]
        kind = s[2] if s[0] == "dense" else s[0]
        if kind == "relu":
            d = d * (y > 0)
        elif kind == "sigmoid":
            d = d * y * (1 - y)
        if s[0] == "dense":
            k = 1 / len(x) if lazy else 1
            G[i] = [x.T @ d * k] + ([d.sum(0) * k] if len(W[i]) > 1 else [])
            d = d @ W[i][0].T
        elif s[0] == "flatten":
            d = d.reshape(x.shape)
    return G


def ref_loss(kind, y, p):
    n = len(y)
    if kind == "mse":
        return ((p - y) ** 2).sum(0) / n, 2 * (p - y) / n
    q = sig_lib(p) if kind == "bce-logits" else softmax_lib(p) if kind == "cce-logits" else p
    if kind.startswith("bce"):
        return -(y * lib(tfe.log, q) + (1 - y) * lib(tfe.log, 1 - q)).sum(0) / n, (q - y) / n
    return -(y * lib(tfe.log, q)).sum() / n, (q - y) / n


def make_loss(kind, lazy=False):
    if kind == "mse":
        return LS.MeanSquaredError()
    cls = LS.BinaryCrossentropy if kind.startswith("bce") else LS.CategoricalCrossentropy
    return cls(from_logits=kind.endswith("logits"), lazy_normalization=lazy)


def build(spec, in_shape, lazy=False, cls=Recorder, **kw):
    m = cls(**kw)
    for k, s in enumerate(spec):
        a = {"batch_input_shape": list(in_shape)} if k == 0 else {}
        if s[0] == "dense":
            if lazy:
                a["lazy_normalization"] = True
            m.add(L.Dense(s[1], activation=s[2], use_bias=s[3], **a))
        elif s[0] == "flatten":
            m.add(L.Flatten(**a))
        else:
            m.add(L.Activation(s[0], **a) if s[0] != "relu" else L.ReLU(**a))
    return m


def start(spec, in_shape):
    W, n = [], int(np.prod(in_shape[1:])) if spec[0][0] == "flatten" else in_shape[-1]
    for k, s in enumerate(spec):
        if s[0] == "dense":
            W.append([vals((n, s[1]), 20 + k, 8.0)] + ([vals((s[1],), 40 + k, 8.0)] if s[3] else []))
            n = s[1]
        else:
            W.append([])
    return W


class RefTrain:
    def __init__(self, spec, W, cls, kw, loss, lazy):
        self.spec, self.W, self.loss, self.lazy = spec, [[w.copy() for w in ws] for ws in W], loss, lazy
        self.opt(cls, kw)

    def opt(self, cls, kw):
        eps = 2.0 ** -tfe.get_protocol().fixedpoint_config.precision_fractional
        self.refs = [[Ref(cls, eps, **kw) for _ in ws] for ws in self.W]

    def step(self, x, y):
        tr = ref_net(self.spec, self.W, x)
        value, d = ref_loss(self.loss, y, tr[-1])
        if self.lazy:
            d = d * len(x)
        G = ref_back(self.spec, self.W, tr, d, self.lazy)
        for i, g in enumerate(G):
            self.W[i] = [r.step(w, v) for r, w, v in zip(self.refs[i], self.W[i], g)]
        return value

    def predict(self, x):
        return ref_net(self.spec, self.W, x)[-1]


SPECS = {
    "linear": [("dense", 1, None, True)],
    "no-bias": [("dense", 2, None, False)],
    "relu": [("dense", 3, "relu", True), ("dense", 2, None, True)],
    "relu-layer": [("dense", 3, None, True), ("relu",), ("dense", 2, None, True)],
    "sigmoid": [("dense", 2, "sigmoid", True)],
    "sigmoid-layer": [("dense", 2, None, True), ("sigmoid",)],
    "deep": [("dense", 2, "relu", True), ("dense", 2, "sigmoid", False), ("dense", 2, None, True)],
    "flat": [("flatten",), ("dense", 2, None, True), ("relu",)],
}


def _net(ck, name, loss, cls, kw, lazy, steps, tol):
    """Sequences of training steps with batches of different sizes: losses, weights and predictions."""
    spec = SPECS[name]
    in_shape = (3, 2, 2) if name == "flat" else (3, 3)
    words = [(1, 3), (3, 1)] if steps == 2 else itertools.product((1, 3), repeat=steps)
    for sizes in words:
        prot = rt.aby3(debug=True)
        m = build(spec, in_shape, lazy)
        W = start(spec, in_shape)
        m.set_weights([[w.copy() for w in ws] for ws in W])
        m.compile(getattr(O, cls)(**kw), make_loss(loss, lazy))
        ref = RefTrain(spec, W, cls, kw, loss, lazy)
        outs = ref.predict(np.zeros((1,) + in_shape[1:])).shape[1]
        for t, b in enumerate(sizes):
            x = vals((b,) + in_shape[1:], 60 + t, 8.0)
            y = np.eye(outs)[(np.arange(b) + t) % outs] if outs > 1 else ((np.arange(b)[:, None] + t) % 2) * 1.0
            if loss == "mse":
                y = vals((b, outs), 70 + t, 4.0)
            got = m.fit_batch(priv(x), priv(y))
            want = ref.step(x, y)
            ck.close(np.asarray(got), want, tol * 2, "loss of step %d" % t)
        for i, ws in enumerate(ref.W):
            for j, w in enumerate(ws):
                ck.close(opened(m.layers[i].weights[j].read_value()), w, tol, "layer %d weight %d after batches %s" % (i, j, sizes))
        x = vals((2,) + in_shape[1:], 80, 8.0)
        ck.close(np.asarray(m.predict(priv(x))), ref.predict(x), tol * 3, "prediction after training")
        ck.count(0, states=len(sizes), traces=1)


def _fit(ck, form, n, bs, epochs, steps, feats):
    """Which batches are trained on, in which order, and what comes out."""
    prot = rt.aby3(debug=True)
    spec = [("dense", 1, None, True)]
    m = build(spec, (n, feats))
    W = start(spec, (n, feats))
    m.set_weights([[w.copy() for w in ws] for ws in W])
    kw = dict(learning_rate=.125, momentum=.5)
    m.compile(O.SGD(**kw), LS.MeanSquaredError())
    ref = RefTrain(spec, W, "SGD", kw, "mse", False)
    x, y = vals((n, feats), 3, 8.0) / 2, vals((n, 1), 4, 4.0) / 2
    b = 32 if bs is None else bs
    per = [(x[i:i + b], y[i:i + b]) for i in range(0, n, b)]
    if form == "tensors":
        with quiet():
            m.fit(priv(x), priv(y), batch_size=bs, epochs=epochs, verbose=0, steps_per_epoch=steps)
        want = [c for _ in range(epochs) for c in (per if steps is None else per[:steps])]
    else:
        seen = []

        def gen():
            for c in itertools.islice(itertools.cycle(per), 7):
                seen.append(1)
                yield priv(c[0]), priv(c[1])

        with quiet():
            m.fit(gen(), epochs=epochs, verbose=0, steps_per_epoch=steps)
        want = [c for c in itertools.islice(itertools.cycle(per), 7 if steps is None else min(7, steps * epochs))]
        if steps is not None:
            ck.true(len(seen) == len(want), "the generator was advanced %d times, not %d" % (len(seen), len(want)))
    ck.true(len(m.log) == len(want), "%d training steps, not %d" % (len(m.log), len(want)))
    for t, (got, (wx, wy)) in enumerate(zip(m.log, want)):
        ck.close(got[0], wx, 1e-3, "inputs of step %d" % t)
        ck.close(got[1], wy, 1e-3, "targets of step %d" % t)
        ck.close(got[2], ref.step(wx, wy), .02 + .01 * t, "loss of step %d" % t)
    for j in range(2):
        ck.close(opened(m.layers[0].weights[j].read_value()), ref.W[0][j], .004 * (len(want) + 1), "weight %d" % j)
    ck.count(0, states=len(want), traces=1)


class Two(BaseModel):
    """Two inputs, two outputs (a user's own model)."""

    def __init__(self, **k):
        super().__init__(**k)
        self.w = priv([[1.0], [-2.0]])
        self.steps = []

    def call(self, inputs, training=None, mask=None):
        a, b = inputs
        return [tfe.matmul(a, self.w.read_value()), a + b]

    def backward(self, d_y):
        pass

    def compile(self, optimizer=None, loss=None):
        pass

    def fit_batch(self, x, y):
        self.steps.append(([opened(v) for v in x], opened(y)))
        return tf.constant(0.0)


def _predict(ck, n, bs, feats):
    prot = rt.aby3(debug=True)
    x, b = vals((n, feats), 2, 4.0), vals((n, feats), 3, 2.0)
    w = vals((feats, 2), 5, 4.0)
    for order in itertools.product((True, False), repeat=2):
        m = tfe.keras.Sequential([L.Dense(2, use_bias=False, batch_input_shape=[n, feats])], name="given-name")
        ck.true(m.name == "given-name", "the model is called %r" % m.name)
        m.set_weights([w])
        for reveal in order:
            p = m.predict(priv(x), batch_size=bs, reveal=reveal)
            ck.true(isinstance(p, np.ndarray) if reveal else isinstance(p, tfe.protocol.TFEPrivateTensor), "reveal=%s gives %s" % (reveal, type(p)))
            ck.close(np.asarray(p) if reveal else opened(p), x @ w, .004, "prediction")
        sizes = [bs or 32]
        p = m.predict((priv(x[i:i + sizes[0]]) for i in range(0, n, sizes[0])))
        ck.close(np.asarray(p), x @ w, .004, "prediction from a generator")
        ck.count(0, states=3, traces=1)
    if feats == 2:
        two = Two()
        for reveal in (True, False, True):
            p = two.predict([priv(x), priv(b)], batch_size=bs, reveal=reveal)
            ck.true(isinstance(p, list) and len(p) == 2, "two outputs")
            for got, want in zip(p, (x @ np.array([[1.0], [-2.0]]), x + b)):
                ck.true(isinstance(got, np.ndarray) == reveal, "kind of output")
                ck.close(np.asarray(got) if reveal else opened(got), want, .004, "several outputs")
        y = vals((n, 1), 6, 4.0)
        for epochs in (1, 2):
            two.steps = []
            with quiet():
                two.fit([priv(x), priv(b)], priv(y), batch_size=bs, epochs=epochs, verbose=0)
            k = bs or 32
            want = [(x[i:i + k], b[i:i + k], y[i:i + k]) for i in range(0, n, k)] * epochs
            ck.true(len(two.steps) == len(want), "%d steps, not %d" % (len(two.steps), len(want)))
            for (gx, gy), (wx, wb, wy) in zip(two.steps, want):
                ck.close(gx[0], wx, 1e-3, "first input")
                ck.close(gx[1], wb, 1e-3, "second input")
                ck.close(gy, wy, 1e-3, "target")
        ck.count(0, states=2, traces=1)


def _evaluate(ck, n, bs, steps, c):
    prot = rt.aby3(debug=True)
    x = vals((n, 2), 2, 4.0)
    w = vals((2, c), 5, 4.0)
    k = 32 if bs is None else bs
    m = tfe.keras.Sequential([L.Dense(c, use_bias=False, batch_input_shape=[n, 2])])
    m.set_weights([w])
    p = x @ w
    for shift in range(2):
        y = np.eye(c)[(np.arange(n) + shift) % c] if c > 1 else ((np.arange(n)[:, None] + shift) % 2) * 1.0
        upto = n if steps is None else min(n, k * steps)
        acc = {"categorical_accuracy": (p[:upto].argmax(1) == y[:upto].argmax(1)).mean(), "binary_accuracy": ((p[:upto] > .5) == (y[:upto] > .5)).mean()}
        for metrics in ([], None, ["binary_accuracy"], ["categorical_accuracy"], ["binary_accuracy", "categorical_accuracy"]):
            for how in ("tensors", "generator"):
                if how == "tensors":
                    r = m.evaluate(priv(x), priv(y), batch_size=bs, steps=steps, metrics=metrics)
                else:
                    r = m.evaluate(((priv(x[i:i + k]), priv(y[i:i + k])) for i in range(0, n, k)), steps=steps, metrics=metrics)
                ck.true(set(r) == set(metrics or []), "the metrics asked for: %s" % list(r))
                for name in r:
                    ck.close(float(r[name]), acc[name], 1e-5, name)
        ck.count(0, states=10, traces=1)


def _histories(ck, depth, debug, acts, first=None):
    """All words over training, predicting, new weights and compiling again."""
    spec = SPECS["relu"]
    in_shape = (2, 3)
    W0, W1 = start(spec, in_shape), [[-w / 2 for w in ws] for ws in start(spec, in_shape)]
    x, y = vals((2, 3), 3, 8.0), vals((2, 2), 4, 4.0)
    x2 = vals((2, 3), 9, 8.0)
    for word in itertools.product(acts, repeat=depth):
        if first is not None and word[0] != first or word[-1] in ("set", "nested", "sgd", "adam"):
            continue
        prot = rt.aby3(debug=debug)
        m = build(spec, in_shape, cls=tfe.keras.Sequential)
        m.set_weights([[w.copy() for w in ws] for ws in W0])
        kw = dict(learning_rate=.125, momentum=.5)
        m.compile(O.SGD(**kw), LS.MeanSquaredError())
        ref = RefTrain(spec, W0, "SGD", kw, "mse", False)
        steps = 0
        for a in word:
            if a == "fit":
                with quiet():
                    m.fit(priv(x), priv(y), batch_size=2, verbose=0)
                ref.step(x, y)
                steps += 1
            elif a == "predict":
                ck.close(np.asarray(m.predict(priv(x2))), ref.predict(x2), .01 + .01 * steps, "prediction in %s" % (word,))
            elif a == "hidden":
                h = m.predict(priv(x2), reveal=False)
                ck.true(isinstance(h, tfe.protocol.TFEPrivateTensor), "hidden prediction is %s in %s" % (type(h), word))
                ck.close(opened(h), ref.predict(x2), .01 + .01 * steps, "hidden prediction in %s" % (word,))
            elif a == "set":
                m.set_weights([w.copy() for ws in W1 for w in ws])
                ref.W = [[w.copy() for w in ws] for ws in W1]
            elif a == "nested":
                m.set_weights([[priv(w) for w in ws] for ws in W1])
                ref.W = [[w.copy() for w in ws] for ws in W1]
            elif a == "sgd":
                m.compile(O.SGD(learning_rate=.25), LS.MeanSquaredError())
                ref.opt("SGD", dict(learning_rate=.25))
            elif a == "adam":
                kw = dict(learning_rate=.25, beta1=.5, beta2=.5)
                m.compile(O.Adam(**kw), LS.MeanSquaredError())
                ref.opt("Adam", kw)
        ck.close(np.asarray(m.predict(priv(x))), ref.predict(x), .015 + .015 * steps, "final prediction after %s" % (word,))
        ck.count(0, states=depth, traces=1)


def keras2(cls, name, **kw):
    return {"class_name": cls, "config": dict(kw, name=name, trainable=True, dtype="float32")}


INIT = {"class_name": "GlorotUniform", "config": {"seed": None}}
ZERO = {"class_name": "Zeros", "config": {}}


def _clone(ck, which, how):
    """Models made from a Keras configuration."""
    prot = rt.aby3(debug=True)

    def dense(name, units, act, bias=True, **kw):
        return keras2("Dense", name, units=units, activation=act, use_bias=bias, kernel_initializer=INIT, bias_initializer=ZERO, kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kw)

    inp = keras2("InputLayer", "in", batch_input_shape=(2, 3), sparse=False, ragged=False)
    del inp["config"]["trainable"]
    if which == "mlp":
        layers = [inp, dense("d0", 3, "relu", batch_input_shape=(2, 3)), keras2("Activation", "act", activation="linear"), dense("d1", 2, "linear", False)]
        spec = [("dense", 3, "relu", True), ("linear",), ("dense", 2, None, False)]
        shape = (2, 3)
    elif which == "no-input":
        layers = [dense("d0", 2, "linear", batch_input_shape=(2, 3)), keras2("ReLU", "r", max_value=None, negative_slope=0.0, threshold=0.0), dense("d1", 1, "sigmoid")]
        spec = [("dense", 2, None, True), ("relu",), ("dense", 1, "sigmoid", True)]
        shape = (2, 3)
    else:
        layers = [keras2("Flatten", "f", data_format="channels_last", batch_input_shape=(2, 2, 3)), dense("d", 2, "linear")]
        spec = [("flatten",), ("dense", 2, None, True)]
        shape = (2, 2, 3)
    W = start(spec, shape)
    flat = [w for ws in W for w in ws]
    config = {"name": "m", "layers": layers}

    class Model:
        def get_config(self):
            return config

        def get_weights(self):
            return flat

    if how == "clone":
        m = tfe.keras.models.clone_model(Model())
    else:
        m = tfe.keras.Sequential.from_config(config) if how == "from_config" else tfe.keras.models.model_from_config(config)
        m.set_weights(flat if how == "from_config" else W)
    ck.true(len(m.layers) == len(spec), "number of layers")
    ck.true([l.name for l in m.layers] == [l["config"]["name"] for l in layers if l["class_name"] != "InputLayer"], "names of layers")
    x = vals(shape, 11, 8.0)
    ck.close(np.asarray(m.predict(priv(x))), ref_net(spec, W, x)[-1], .01, "prediction of the cloned model")
    ck.true(len(flat) == sum(len(ws) for ws in W), "the caller's list is left alone")
    bad = {"layers": [keras2("NoSuchLayer", "x")]}
    try:
        tfe.keras.models.model_from_config(bad)
    except RuntimeError:
        pass
    else:
        ck.fail("an unsupported layer was accepted")
    ck.count(0, states=1, traces=1)


def run(ck):
    q = ck.tier == "quick"
    for shape in ((1,), (3,), (1, 1), (2, 1), (4, 2), (5, 3)):
        ck.case("loss/mse/%s" % "x".join(map(str, shape)), _mse, ck, shape)
        for logits, lazy, swap in itertools.product((False, True), (False, True), (False, True)):
            if q and swap and shape not in ((3,), (4, 2)):
                continue
            ck.case("loss/bce/%s/%s%s%s" % ("x".join(map(str, shape)), "logits" if logits else "prob", "-lazy" * lazy, "-soft" * swap), _bce, ck, shape, logits, lazy, swap)
    ck.case("loss/probability-gradient", _bce_prob_grad, ck)
    for n, c in ((1, 2), (2, 3), (4, 2), (3, 4)):
        for logits, lazy, soft in itertools.product((False, True), (False, True), (False, True)):
            if q and soft and n == 4:
                continue
            ck.case("loss/cce/%dx%d/%s%s%s" % (n, c, "logits" if logits else "prob", "-lazy" * lazy, "-soft" * soft), _cce, ck, n, c, logits, lazy, soft)
    for lr, mom in itertools.product((.01, .125, 1.0), (0.0, .5, .9)):
        for T in (1, 3, 4) if q else (1, 2, 3, 4, 5):
            ck.case("opt/sgd/%s-%s/%d" % (lr, mom, T), _opt, ck, "SGD", dict(learning_rate=lr, momentum=mom), T, ALPHA if T < 5 else ALPHA[:5:2] + (1.0,))
    ck.case("opt/sgd/h", _opt, ck, "SGD", dict(learning_rate=.125, momentum=.5), 3, ALPHA, "h")
    ck.case("opt/sgd/default", _opt, ck, "SGD", {}, 3, ALPHA)
    ck.case("opt/sgd/graph", _opt, ck, "SGD", dict(learning_rate=.125, momentum=.5), 3, ALPHA, None, False)
    for cls in ("AMSgrad", "Adam"):
        for lr, b1, b2 in ((.5, .5, .75), (.25, 0.0, .5), (.125, .75, .5), (1.0, .9, .9), (.25, .5, .9)):
            for T in (1, 3) if q else (1, 2, 3, 4):
                ck.case("opt/%s/%s-%s-%s/%d" % (cls, lr, b1, b2, T), _opt, ck, cls, dict(learning_rate=lr, beta1=b1, beta2=b2), T, ALPHA)
        ck.case("opt/%s/default" % cls, _opt, ck, cls, {}, 2, (-2.0, 0.0, 1.0, 3.0))
    for cls, kw in (("SGD", dict(learning_rate=.125, momentum=.5)), ("AMSgrad", dict(learning_rate=.25, beta1=.5, beta2=.5)), ("Adam", dict(learning_rate=.25, beta1=.5, beta2=.5))):
        ck.case("skip/%s" % cls, _opt_skip, ck, cls, kw, (4 if cls == "SGD" else 3) if q else 5)
    ck.case("opt/get", _opt_get, ck)
    sgd = dict(learning_rate=.125, momentum=.5)
    for name in SPECS:
        for loss in ("mse", "bce", "bce-logits", "cce-logits"):
            if loss == "bce" and not name.startswith("sigmoid") or loss == "cce-logits" and name == "linear" or loss != "mse" and name == "deep":
                continue
            for lazy in (False, True):
                if lazy and loss == "mse" or q and loss != "mse" and name in ("no-bias", "relu-layer") or q and lazy and name in ("sigmoid", "relu") and loss != "bce":
                    continue
                ck.case("net/%s/%s/sgd%s" % (name, loss, "-lazy" * lazy), _net, ck, name, loss, "SGD", sgd, lazy, 2 if q else 3, .012)
    for cls in ("AMSgrad", "Adam"):
        for name in ("linear", "flat") + (("relu",) if cls == "AMSgrad" else ()):
            ck.case("net/%s/mse/%s" % (name, cls), _net, ck, name, "mse", cls, dict(learning_rate=.25, beta1=.5, beta2=.5), False, 2 if q else 3, .03)
    for n, bs, epochs, steps in itertools.product((1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 6), (1, 2, 3, 8, None) if not q else (1, 2, 8, None), (1, 2, 3), (None, 1, 2)):
        if q and (epochs == 3 and steps == 2 or bs == 1 and epochs == 2 and n == 5):
            continue
        ck.case("fit/tensors/%d/%s/%d/%s" % (n, bs, epochs, steps), _fit, ck, "tensors", n, bs, epochs, steps, 1 + (n + epochs) % 3)
        if bs in (1, 2):
            ck.case("fit/generator/%d/%s/%d/%s" % (n, bs, epochs, steps), _fit, ck, "generator", n, bs, epochs, steps, 2)
    for n, bs, feats in itertools.product((1, 2, 3, 5), (1, 2, 3, 8, None), (1, 2)):
        ck.case("predict/%d/%s/%d" % (n, bs, feats), _predict, ck, n, bs, feats)
    for n, bs, steps, c in itertools.product((1, 3, 5), (1, 2, 8, None), (None, 1, 2), (1, 3)):
        if q and (n == 1 and bs in (1, 8) or steps == 2 and bs is None):
            continue
        ck.case("evaluate/%d/%s/%s/%d" % (n, bs, steps, c), _evaluate, ck, n, bs, steps, c)
    acts = ("fit", "predict", "hidden", "set", "nested", "sgd")
    for first in acts:
        ck.case("histories/eager/%s" % first, _histories, ck, 3 if q else 4, True, acts, first)
    graph = ("fit", "hidden", "sgd") if q else ("fit", "predict", "hidden", "set", "sgd")
    for first in graph:
        ck.case("histories/graph/%s" % first, _histories, ck, 2 if q else 3, False, graph, first)
    ck.case("histories/adam", _histories, ck, 2 if q else 3, True, ("fit", "adam", "set"))
    for which in ("mlp", "no-input", "flat"):
        for how in ("clone", "from_config", "nested"):
            ck.case("clone/%s/%s" % (which, how), _clone, ck, which, how)
