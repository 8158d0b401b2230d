"""C25: converted models compute what the original graphs compute."""
import contextlib
import io
import itertools
import logging

import numpy as np

from vlib import a3, rt
import tensorflow as tf
import tf_encrypted as tfe
from tf_encrypted.keras import losses as LS
from tf_encrypted.keras import optimizers as O

import onnx
from onnx import TensorProto, helper, numpy_helper
from onnx.reference import ReferenceEvaluator

from .c23 import vals, distinct

SIG = 0.0412
PLAYERS = ["server0", "server1", "server2", "weights-provider", "prediction-client"]


def setup(debug=True):
    from tf_encrypted.convert import Converter
    from tf_encrypted.protocol.aby3 import ABY3

    logging.getLogger().setLevel(logging.ERROR)
    cfg = tfe.LocalConfig(player_names=PLAYERS)
    cfg.set_debug_mode(debug)
    tfe.set_config(cfg)
    tfe.set_protocol(ABY3())
    return Converter


def priv(v):
    return tfe.define_private_variable(np.asarray(v, dtype=float))


def opened(x):
    return a3.opened(tfe.get_protocol(), x)


class Net:
    """A small ONNX graph: nodes are (op, inputs, number of outputs or names, attributes)."""

    def __init__(self, nodes, shapes, consts=None, outputs=None, opset=13, names="unique", raw=True, listed=False):
        self.nodes, self.shapes, self.consts = nodes, shapes, dict(consts or {})
        self.outputs = outputs or list(nodes[-1][2])
        self.opset, self.names, self.raw, self.listed = opset, names, raw, listed

    def build(self, consts=None, double=False):
        ft = TensorProto.DOUBLE if double else TensorProto.FLOAT
        ins = ["x%d" % i for i in range(len(self.shapes))]
        inits = []
        for k, v in (consts or self.consts).items():
            v = np.asarray(v)
            if v.dtype.kind == "f":
                v = v.astype("d" if double else "f")
            if self.raw:
                inits.append(numpy_helper.from_array(v, k))
            else:
                inits.append(helper.make_tensor(k, helper.np_dtype_to_tensor_dtype(v.dtype), v.shape, v.flatten().tolist()))
        nodes = []
        for i, (op, a, o, kw) in enumerate(self.nodes):
            name = {"unique": "n%d" % i, "none": "", "same": "n", "path": "model/layer_%d/%s:0" % (i, op)}[self.names]
            nodes.append(helper.make_node(op, a, o, name=name, **kw))
        gin = [helper.make_tensor_value_info(n, ft, s) for n, s in zip(ins, self.shapes)]
        if self.listed:
            gin = [helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)) for t in inits] + gin
        out = [helper.make_tensor_value_info(o, ft, None) for o in self.outputs]
        return helper.make_model(helper.make_graph(nodes, "g", gin, out, inits), opset_imports=[helper.make_opsetid("", self.opset)])

    def ref(self, xs, consts=None):
        if len(self.nodes) == 1 and self.nodes[0][0] in OWN:
            cs = list((consts or self.consts).values())
            return [OWN[self.nodes[0][0]](*[np.asarray(v, dtype="d") for v in xs], *cs, **self.nodes[0][3])]
        with np.errstate(all="ignore"):
            r = ReferenceEvaluator(self.build(consts, True)).run(None, {"x%d" % i: np.asarray(x, dtype="d") for i, x in enumerate(xs)})
        return [np.asarray(v) for v in r]


def own_bn(x, scale, b, mean, var, epsilon=1e-5, momentum=.9):
    sh = [1, -1] + [1] * (x.ndim - 2)
    return scale.reshape(sh) * (x - mean.reshape(sh)) / np.sqrt(var.reshape(sh) + epsilon) + b.reshape(sh)


def own_pool(how):
    def f(x, kernel_shape, strides=(1, 1), pads=(0, 0, 0, 0), count_include_pad=0, ceil_mode=0, dilations=(1, 1), auto_pad="NOTSET"):
        (k0, k1), (s0, s1), (d0, d1) = kernel_shape, strides, dilations
        if auto_pad != "NOTSET":
            pads = []
            for n, k, s in zip(x.shape[2:], kernel_shape, strides):
                t = max((-(-n // s) - 1) * s + k - n, 0)
                pads.append((t // 2, t - t // 2) if auto_pad == "SAME_UPPER" else (t - t // 2, t // 2))
            pads = [pads[0][0], pads[1][0], pads[0][1], pads[1][1]]
        z = np.pad(x, ((0, 0), (0, 0), (pads[0], pads[2]), (pads[1], pads[3])), constant_values=np.nan)
        e0, e1 = d0 * (k0 - 1) + 1, d1 * (k1 - 1) + 1
        rnd = (lambda a: int(np.ceil(a))) if ceil_mode else int
        h, w = rnd((z.shape[2] - e0) / s0) + 1, rnd((z.shape[3] - e1) / s1) + 1
        y = np.zeros(x.shape[:2] + (h, w))
        for i, j in np.ndindex(h, w):
            c = z[:, :, i * s0:i * s0 + e0:d0, j * s1:j * s1 + e1:d1]
            if how == "max":
                y[:, :, i, j] = np.nanmax(c, axis=(2, 3))
            elif count_include_pad:
                y[:, :, i, j] = np.nansum(c, axis=(2, 3)) / (k0 * k1)
            else:
                y[:, :, i, j] = np.nanmean(c, axis=(2, 3))
        return y
    return f


def own_unsqueeze(x, a=None, axes=None):
    return np.expand_dims(x, tuple(int(v) for v in (a if axes is None else axes)))


# the reference evaluator misreads momentum, asymmetric padding of maxima and several negative new axes
OWN = {"BatchNormalization": own_bn, "MaxPool": own_pool("max"), "AveragePool": own_pool("mean"), "Unsqueeze": own_unsqueeze}


def aslist(y):
    return y if isinstance(y, list) else [y]


class Nothing:
    """An optimizer that leaves the weights alone."""

    def __init__(self):
        self.seen = {}

    def compile(self, weights):
        self.weights = weights

    def apply_gradients(self, W, G):
        assert len(W) == len(G), (len(W), len(G))
        for w, g in zip(W, G):
            assert [int(d) for d in w.shape] == [int(d) for d in g.shape], "gradient of shape %s for a weight of shape %s" % (g.shape, w.shape)


def numgrad(f, xs, gs, which=None):
    """Central differences of the sum of gs * f(xs)."""
    out = []
    h = 2.0 ** -10
    for i, x in enumerate(xs):
        g = np.zeros(x.shape)
        for j in np.ndindex(*x.shape):
            v = []
            for s in (h, -h):
                y = [a.copy() for a in xs]
                y[i][j] += s
                v.append(sum((a * b).sum() for a, b in zip(f(y), gs)))
            g[j] = (v[0] - v[1]) / (2 * h)
        out.append(g)
    return out


def _net(ck, net, xs=None, tol=0.004, back=True, batches=None, gtol=None):
    Converter = setup()
    model = net.build()
    shapes = [list(s) for s in net.shapes]
    keep = [list(s) for s in shapes]
    m = Converter().convert(model, shapes if len(shapes) > 1 else shapes[0], "weights-provider")
    ck.true(shapes == keep, "the caller's shapes are left alone")
    xs = [distinct(s, i) if int(np.prod(s)) < 40 else vals(s, i, 8.0) for i, s in enumerate(net.shapes)] if xs is None else xs
    feeds = [xs]
    if batches:
        for n in batches:
            feeds.append([vals((n,) + tuple(s[1:]), 30 + i, 4.0) for i, s in enumerate(net.shapes)])
    for fed in feeds:
        want = net.ref(fed)
        ins = [priv(x) for x in fed]
        got = aslist(m.predict(ins if len(ins) > 1 else ins[0]))
        ck.true(len(got) == len(want), "number of outputs")
        for i, (a, b) in enumerate(zip(got, want)):
            ck.close(np.asarray(a), b, tol, "output %d" % i)
    if back:
        want = net.ref(xs)
        m.compile(Nothing(), LS.MeanSquaredError())
        ins = [priv(x) for x in xs]
        m.call(ins)
        gs = [vals(w.shape, 50 + i, 4.0) for i, w in enumerate(want)]
        gs = [np.clip(g, -3, 3) for g in gs]
        got = m.backward([priv(g) for g in gs])
        wg = numgrad(lambda z: net.ref(z), [np.asarray(x, dtype=float) for x in xs], gs)
        ck.true(len(got) == len(wg), "number of gradients")
        for i, (a, b) in enumerate(zip(got, wg)):
            ck.close(opened(a), b, gtol or tol * 4, "gradient of input %d" % i)
    ck.count(0, states=len(feeds) + back, traces=1)


def _refused(ck, net):
    """Either the right answer or an error, never a wrong answer."""
    Converter = setup()
    xs = [distinct(s, i) for i, s in enumerate(net.shapes)]
    want = net.ref(xs)
    try:
        m = Converter().convert(net.build(), [list(s) for s in net.shapes], "weights-provider")
        got = aslist(m.predict([priv(x) for x in xs]))
    except Exception:
        ck.count(0, states=1, traces=1)
        return
    for i, (a, b) in enumerate(zip(got, want)):
        ck.close(np.asarray(a), b, .01, "output %d" % i)
    ck.count(0, states=1, traces=1)


def _many(ck, nets, back, tol=.004):
    for net in nets:
        _net(ck, net, back=back, tol=tol)


def one(op, shapes, consts=None, nout=1, opset=13, more=(), **attrs):
    consts = dict(consts or {})
    ins = ["x%d" % i for i in range(len(shapes))] + list(consts)
    return Net([(op, ins, ["y%d" % i for i in range(nout)], attrs)], shapes, consts, opset=opset)


I = lambda *v: np.array(v, dtype=np.int64)


# -- training -------------------------------------------------------------------------------------

NETS = {
    "gemm": lambda: Net([("Gemm", ["x0", "w", "b"], ["y"], {})], [(2, 3)], {"w": vals((3, 2), 2, 8.), "b": vals((2,), 3, 8.)}),
    "gemm-transB": lambda: Net([("Gemm", ["x0", "w", "b"], ["y"], {"transB": 1})], [(2, 3)], {"w": vals((2, 3), 2, 8.), "b": vals((2,), 3, 8.)}),
    "matmul-add": lambda: Net([("MatMul", ["x0", "w"], ["h"], {}), ("Add", ["h", "b"], ["y"], {})], [(2, 3)], {"w": vals((3, 2), 2, 8.), "b": vals((2,), 3, 8.)}),
    "add-first": lambda: Net([("Add", ["b", "x0"], ["h"], {}), ("MatMul", ["h", "w"], ["y"], {})], [(2, 3)], {"b": vals((1, 3), 3, 8.), "w": vals((3, 2), 2, 8.)}),
    "mlp": lambda: Net([("Gemm", ["x0", "w", "b"], ["h"], {}), ("Relu", ["h"], ["r"], {}), ("MatMul", ["r", "v"], ["s"], {}), ("Add", ["s", "c"], ["y"], {})], [(2, 3)],
                       {"w": vals((3, 3), 2, 8.), "b": vals((3,), 3, 8.), "v": vals((3, 2), 4, 8.), "c": vals((1, 2), 5, 8.)}, names="none"),
    "residual": lambda: Net([("Gemm", ["x0", "w", "b"], ["h"], {}), ("Relu", ["h"], ["r"], {}), ("Add", ["r", "h"], ["s"], {}), ("Add", ["s", "x0"], ["y"], {})], [(2, 2)],
                            {"w": vals((2, 2), 2, 8.), "b": vals((2,), 3, 8.)}, names="same"),
    "conv": lambda: Net([("Conv", ["x0", "w", "b"], ["h"], {"pads": [0, 1, 1, 0], "strides": [1, 1], "kernel_shape": [2, 2]}), ("Relu", ["h"], ["r"], {}), ("Flatten", ["r"], ["f"], {}), ("MatMul", ["f", "v"], ["y"], {})], [(2, 1, 2, 2)],
                        {"w": vals((2, 1, 2, 2), 2, 8.), "b": vals((2,), 3, 8.), "v": vals((8, 1), 4, 16.)}),
    "conv-bias-add": lambda: Net([("Conv", ["x0", "w"], ["h"], {}), ("Add", ["h", "b"], ["s"], {}), ("Flatten", ["s"], ["y"], {})], [(2, 1, 3, 2)],
                                 {"w": vals((2, 1, 2, 2), 2, 8.), "b": vals((2, 1, 1), 3, 8.)}),
    "shared-mul": lambda: Net([("Gemm", ["x0", "w", "b"], ["h"], {}), ("Mul", ["h", "h"], ["y"], {})], [(2, 2)], {"w": vals((2, 2), 2, 8.), "b": vals((2,), 3, 8.)}),
}


def _train(ck, name, steps, lr, mom):
    """Steps of gradient descent on a converted model against finite differences on the original graph."""
    Converter = setup()
    net = NETS[name]()
    m = Converter().convert(net.build(), list(net.shapes[0]), "weights-provider")
    m.compile(O.SGD(learning_rate=lr, momentum=mom), LS.MeanSquaredError())
    consts = {k: np.asarray(v, dtype=float) for k, v in net.consts.items()}
    vel = {k: 0.0 for k in consts}
    keys = list(consts)
    x0 = vals(net.shapes[0], 60, 8.0)
    p0 = net.ref([x0])[0]
    for t in range(steps):
        x = vals(net.shapes[0], 60 + t, 8.0)
        y = vals(p0.shape, 70 + t, 8.0)
        n = len(y)

        def loss(cs):
            p = net.ref([x], dict(zip(keys, cs)))[0]
            return [((p - y) ** 2 / n).sum(0)]

        want = loss([consts[k] for k in keys])[0]
        with contextlib.redirect_stdout(io.StringIO()):
            got = m.fit_batch(priv(x), priv(y))
        ck.close(np.asarray(got), want, .01 + .01 * t, "loss of step %d" % t)
        grad = numgrad(loss, [consts[k] for k in keys], [np.ones_like(want)])
        for k, g in zip(keys, grad):
            vel[k] = mom * vel[k] + lr * g
            consts[k] = consts[k] - vel[k]
        for b in (1, 3):
            z = vals((b,) + tuple(net.shapes[0][1:]), 90 + t, 8.0)
            ck.close(np.asarray(m.predict(priv(z))), net.ref([z], consts)[0], .01 + .008 * t, "prediction after step %d" % t)
    ck.count(0, states=steps, traces=1)


# -- TensorFlow functions -------------------------------------------------------------------------

def W(*s):
    return (np.random.RandomState(5 + len(s)).randint(-8, 9, size=s) / 4).astype("f")


FUNCS = {
    "dense": (lambda x: x @ W(3, 2) + W(2), [(4, 3)]),
    "dense-relu": (lambda x: tf.nn.relu(x @ W(3, 3) + W(3)) @ W(3, 2), [(4, 3)]),
    "bias-first": (lambda x: W(3) + x, [(2, 3)]),
    "residual": (lambda x: tf.nn.relu(x) + x, [(2, 3)]),
    "two-inputs": (lambda x, y: x * y - x, [(2, 3), (2, 3)]),
    "broadcast": (lambda x, y: (x + y) * y, [(2, 3), (2, 1)]),
    "negative": (lambda x: -x, [(2, 3)]),
    "global-max": (lambda x: tf.reduce_max(x, [1, 2]), [(2, 3, 4, 2)]),
    "global-max-keep": (lambda x: tf.reduce_max(x, [1, 2], keepdims=True), [(2, 3, 4, 2)]),
    "global-mean": (lambda x: tf.reduce_mean(x, [1, 2]), [(2, 3, 4, 2)]),
    "slice": (lambda x: x[:, 1:3], [(3, 5, 4)]),
    "slice-last": (lambda x: x[..., 1:], [(3, 5, 4)]),
    "slice-batch": (lambda x: x[1:], [(3, 5, 4)]),
    "slice-negative": (lambda x: x[:, -3:-1, :2], [(3, 5, 4)]),
    "slice-strides": (lambda x: x[:, ::2, 1::2], [(3, 5, 4)]),
    "slice-reverse": (lambda x: x[:, ::-1], [(3, 5, 4)]),
    "gather": (lambda x: tf.gather(x, [2, 0], axis=1), [(3, 5, 4)]),
    "gather-one": (lambda x: tf.gather(x, 1, axis=1), [(3, 5, 4)]),
    "split": (lambda x: tf.split(x, [1, 3], axis=-1), [(3, 5, 4)]),
    "split-equal": (lambda x: tf.split(x, 2, axis=-1), [(3, 5, 4)]),
    "stack": (lambda x, y: tf.stack([x, y], axis=-1), [(3, 5), (3, 5)]),
    "stack1": (lambda x, y: tf.stack([x, y], axis=1), [(3, 5), (3, 5)]),
    "concat": (lambda x, y: tf.concat([x, y], axis=-1), [(3, 5), (3, 2)]),
    "new-axes": (lambda x: x[:, None, :, None], [(3, 5)]),
    "transpose": (lambda x: tf.transpose(x, [0, 2, 1]), [(2, 3, 4)]),
    "softmax": (lambda x: tf.nn.softmax(x / 1.0 if False else x), [(2, 3)]),
    "softmax-axis": (lambda x: tf.nn.softmax(x, axis=1), [(2, 3, 2)]),
    "sigmoid": (lambda x: tf.sigmoid(x), [(2, 3)]),
    "reshape": (lambda x: tf.reshape(x, (-1, 12)) @ W(12, 2), [(2, 3, 4)]),
    "pad": (lambda x: tf.pad(x, [[0, 0], [1, 2], [0, 1]]), [(2, 3, 2)]),
    "squeeze": (lambda x: tf.squeeze(x, [1, 3]), [(2, 1, 3, 1)]),
}
for _k, _s, _p in itertools.product((1, 2, 3), (1, 2), ("SAME", "VALID")):
    FUNCS["conv-%d-%d-%s" % (_k, _s, _p)] = (lambda x, k=_k, s=_s, p=_p: tf.nn.conv2d(x, W(k, k, 2, 3), s, p) + W(3), [(2, 5, 4, 2)])
    FUNCS["depthwise-%d-%d-%s" % (_k, _s, _p)] = (lambda x, k=_k, s=_s, p=_p: tf.nn.depthwise_conv2d(x, W(k, k, 2, 2), (1, s, s, 1), p), [(2, 5, 4, 2)])
    if _k > 1:
        FUNCS["avg-%d-%d-%s" % (_k, _s, _p)] = (lambda x, k=_k, s=_s, p=_p: tf.nn.avg_pool2d(x, k, s, p), [(2, 5, 4, 2)])
        FUNCS["max-%d-%d-%s" % (_k, _s, _p)] = (lambda x, k=_k, s=_s, p=_p: tf.nn.max_pool2d(x, k, s, p), [(2, 5, 4, 2)])


def _tf(ck, name, opset, must):
    import tf2onnx

    Converter = setup()
    f, shapes = FUNCS[name]
    xs = [np.clip(vals(s, i, 8.0), -3, 3).astype("f") for i, s in enumerate(shapes)]
    spec = [tf.TensorSpec(s, tf.float32, name="x%d" % i) for i, s in enumerate(shapes)]
    with tf.device("/job:localhost/replica:0/task:0/device:CPU:0"):
        model, _ = tf2onnx.convert.from_function(tf.function(f, input_signature=spec), input_signature=spec, opset=opset)
        want = f(*[tf.constant(x) for x in xs])
        want = [w.numpy() for w in (want if isinstance(want, (list, tuple)) else [want])]
    try:
        m = Converter().convert(model, [list(s) for s in shapes], "weights-provider")
        ins = [priv(x) for x in xs]
        got = aslist(m.predict(ins if len(ins) > 1 else ins[0]))
    except Exception as e:
        if must:
            raise
        ck.count(0, states=1, traces=1)
        return
    ck.true(len(got) == len(want), "number of outputs")
    for i, (a, b) in enumerate(zip(got, want)):
        ck.close(np.asarray(a), b, SIG if name == "sigmoid" else .02 if "softmax" in name else .004, "output %d" % i)
    ck.count(0, states=1, traces=1)


def _graph_mode(ck, name):
    """The same with the protocol in graph mode (memoized, compiled)."""
    Converter = setup(False)
    net = NETS[name]()
    m = Converter().convert(net.build(), list(net.shapes[0]), "weights-provider")
    for b in (2, 1, 3, 2):
        z = vals((b,) + tuple(net.shapes[0][1:]), 90 + b, 8.0)
        ck.close(np.asarray(m.predict(priv(z))), net.ref([z])[0], .01, "prediction of %d" % b)
    ck.count(0, states=4, traces=1)


def _provider(ck):
    """The model's weights come from the model provider, whoever it is and however it is named."""
    net = NETS["mlp"]()
    x = vals((2, 3), 1, 8.0)
    for who in (None, "prediction-client", "player"):
        Converter = setup()
        w = tfe.get_config().get_player("server0") if who == "player" else who
        m = Converter().convert(net.build(), [2, 3], w)
        ck.close(np.asarray(m.predict(priv(x))), net.ref([x])[0], .004, "prediction")
        for ws in m.weights:
            for v in ws:
                ck.true(isinstance(v, tfe.protocol.TFEPrivateTensor), "a weight is %s" % type(v))
    for bad in ("x.h5", 3):
        try:
            Converter().convert(bad, [2, 3], None)
        except (ValueError, AssertionError):
            pass
        else:
            ck.fail("converted %r" % (bad,))
    ck.count(0, states=3, traces=3)


def _file(ck):
    import os, tempfile

    net = NETS["gemm"]()
    Converter = setup()
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "m.onnx")
        onnx.save(net.build(), p)
        m = Converter().convert(p, [2, 3], "weights-provider")
    x = vals((2, 3), 1, 8.0)
    ck.close(np.asarray(m.predict(priv(x))), net.ref([x])[0], .004, "prediction of a model from a file")
    ck.count(0, states=1, traces=1)


def run(ck):
    q = ck.quick
    # element-wise
    pairs = [((2, 3), (2, 3)), ((2, 3), (2, 1)), ((2, 1), (2, 3)), ((2, 1, 3), (2, 2, 1)), ((2, 3), (1, 3)), ((2, 2, 3), (1, 3))]
    for op in ("Add", "Sub", "Mul"):
        for i, (a, b) in enumerate(pairs):
            ck.case("node/%s/%d" % (op, i), _net, ck, one(op, [a, b]), None, .006)
        ck.case("node/%s/same" % op, _net, ck, Net([(op, ["x0", "x0"], ["y"], {})], [(2, 3)]), None, .01)
    for i, (x, c) in enumerate((((2, 3), (3,)), ((2, 3), (1, 3)), ((2, 3), ()), ((2, 3), (2, 3)), ((2, 2, 3), (2, 1)), ((2, 1), (1, 3)), ((2, 2, 2, 2), (2, 1, 1)), ((3,), (2, 3)))):
        for first in (False, True):
            ins = ["c", "x0"] if first else ["x0", "c"]
            ck.case("node/Add/const%d%s" % (i, "-first" * first), _net, ck, Net([("Add", ins, ["y"], {})], [x], {"c": vals(c, 3) if c else np.array(.75)}))
            for op in ("Sub", "Mul"):
                ck.case("refused/%s/const%d%s" % (op, i, "-first" * first), _refused, ck, Net([(op, ins, ["y"], {})], [x], {"c": vals(c, 3) if c else np.array(.75)}))
    ck.case("node/Neg", _many, ck, [one("Neg", [s]) for s in ((3,), (2, 3), (2, 1, 2))], True)
    # linear
    for n, k, m in ((1, 1, 1), (2, 3, 2), (3, 2, 4)):
        ck.case("node/MatMul/%d%d%d" % (n, k, m), _net, ck, one("MatMul", [(n, k)], {"w": vals((k, m), 2)}), None, .006, True, (1, 4))
        for tb, alpha, beta, bias in itertools.product((None, 0, 1), (None, .5, 1.0), (None, 2.0), (None, (m,), (1, m), (1,), ())):
            if q and (n, k, m) != (2, 3, 2) and (alpha == .5 or bias in ((1,), ())):
                continue
            kw = {a: v for a, v in (("transB", tb), ("alpha", alpha), ("beta", beta)) if v is not None}
            c = {"w": vals((m, k) if tb else (k, m), 2)}
            if bias is not None:
                c["b"] = vals(bias, 3) if bias else np.array(.75)
            ck.case("node/Gemm/%d%d%d/%s-%s-%s-%s" % (n, k, m, tb, alpha, beta, bias), _net, ck, one("Gemm", [(n, k)], c, **kw), None, .006, tb != 0, (1,))
    ck.case("node/Gemm/transA", _net, ck, one("Gemm", [(3, 2)], {"w": vals((3, 2), 2), "b": vals((2,), 3)}, transA=1), None, .006)
    # convolutions
    pads = [None, [0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 1, 1, 1], [0, 1, 2, 0], [2, 0, 1, 1]]
    for k, s, p, hw in itertools.product((1, 2, 3), ((1, 1), (2, 2), (2, 1), None), pads, ((4, 3), (3, 3))):
        if q and (hw == (3, 3) and (s != (1, 1) or k == 1) or k == 1 and p not in (None, [0, 1, 2, 0]) or s == (2, 1) and p not in (None, [2, 0, 1, 1], [0, 0, 1, 0])):
            continue
        kw = {}
        if p is not None:
            kw["pads"] = p
        if s is not None:
            kw["strides"] = list(s)
        for group, bias in ((1, True), (1, False), (2, True)):
            if q and bias is (k == 2) and group == 1:
                continue
            for mult in (1, 2) if group == 2 else (1,):
                if q and mult == 1 and group == 2 and k == 2:
                    continue
                g = dict(kw, group=group) if group != 1 or k != 2 else kw
                c = {"w": vals((2 * mult if group == 2 else 3, 1 if group == 2 else 2, k, k), 2)}
                if bias:
                    c["b"] = vals((c["w"].shape[0],), 3)
                ck.case("node/Conv/k%d/s%s/p%s/%dx%d/g%d-%d%s" % (k, s, p, hw[0], hw[1], group, mult, "-bias" * bias), _net, ck, one("Conv", [(2, 2) + hw], c, **g), vals((1, 2) + hw, 1, 4.) if False else None, .01, group == 1 and (not q or s == (1, 1) and k > 1), (1,))
    for name, kw, c in (("dilations", dict(dilations=[2, 2]), (3, 2, 2, 2)), ("group", dict(group=2), (4, 2, 2, 2)), ("auto", dict(auto_pad="SAME_UPPER"), (3, 2, 2, 2)), ("auto-lower", dict(auto_pad="SAME_LOWER"), (3, 2, 2, 2)), ("rect", dict(), (3, 2, 1, 2))):
        ck.case("refused/Conv/%s" % name, _refused, ck, one("Conv", [(2, c[1] * kw.get("group", 1), 4, 3)], {"w": vals(c, 2)}, **kw))
    # batch normalization
    for shape, eps, mom in itertools.product(((2, 3), (2, 3, 2, 2), (1, 1, 2, 2)), (None, .5, 1e-3), (None, .25)):
        n = shape[1]
        c = {"scale": vals((n,), 2) / 2, "b": vals((n,), 3), "mean": vals((n,), 4), "var": np.abs(vals((n,), 5)) + .25}
        kw = {a: v for a, v in (("epsilon", eps), ("momentum", mom)) if v is not None}
        for opset in (9, 13):
            ck.case("node/BatchNormalization/%s/%s-%s/%d" % ("x".join(map(str, shape)), eps, mom, opset), _net, ck, one("BatchNormalization", [shape], c, opset=opset, **kw), None, .01, False)
    # pooling
    for op in ("AveragePool", "MaxPool"):
        for k, s, p, hw in itertools.product(((2, 2), (1, 2), (3, 2)), (None, (1, 1), (2, 2), (2, 1)), (None, [0, 0, 0, 0], [0, 0, 1, 0], [1, 0, 0, 0], [0, 1, 1, 1]), ((4, 3), (3, 4))):
            if p and (max(p[0], p[2]) >= k[0] or max(p[1], p[3]) >= k[1]):
                continue
            if q and (k == (1, 2) and s != (2, 1) or hw == (3, 4) and s != (1, 1) or p == [0, 0, 0, 0] and s != (2, 2)):
                continue
            kw = {"kernel_shape": list(k)}
            if s is not None:
                kw["strides"] = list(s)
            if p is not None:
                kw["pads"] = p
            for inc in (None, 0, 1) if op == "AveragePool" and p and any(p) else (None,):
                if inc is not None:
                    kw = dict(kw, count_include_pad=inc)
                for low in (False, True) if op == "MaxPool" and p and any(p) else (False,):
                    xs = [distinct((2, 2) + hw, 3)]
                    if low:
                        xs[0] = xs[0] - xs[0].max() - .25
                    ck.case("node/%s/%s/s%s/p%s/%dx%d/%s%s" % (op, k, s, p, hw[0], hw[1], inc, "-negative" * low), _net, ck, one(op, [(2, 2) + hw], None, **kw), xs, .006, not q or hw == (4, 3) and k == (2, 2), (1,))
        for name, kw in (("ceil", dict(ceil_mode=1, strides=[2, 2])), ("dilations", dict(dilations=[2, 2])), ("auto", dict(auto_pad="SAME_UPPER", strides=[2, 2])), ("auto-lower", dict(auto_pad="SAME_LOWER", strides=[2, 2]))):
            if name == "dilations" and op == "AveragePool":
                continue
            ck.case("refused/%s/%s" % (op, name), _refused, ck, one(op, [(2, 2, 5, 4)], None, kernel_shape=[2, 2], opset=13, **kw))
    for op in ("GlobalAveragePool", "GlobalMaxPool"):
        ck.case("node/%s" % op, _many, ck, [one(op, [s]) for s in ((2, 3, 1, 1), (1, 2, 3, 2), (2, 1, 2, 3))], True)
    for op in ("ReduceMean", "ReduceMax"):
        for axes, keep in itertools.product(([1, 2], [2, 1], [2, 3], [-2, -1], [-1, -2], [-3, -2], [1, -2]), (None, 0, 1)):
            kw = {} if keep is None else {"keepdims": keep}
            ck.case("node/%s/attr/%s/%s" % (op, axes, keep), _net, ck, one(op, [(2, 3, 2, 3)], None, axes=axes, **kw), None, .006)
            ck.case("node/%s/input/%s/%s" % (op, axes, keep), _net, ck, one(op, [(2, 3, 2, 3)], {"a": I(*axes)}, opset=18, **kw), None, .006)
        for axes in ([1], [3], [-1], [1, 3], [1, 2, 3], [0, 1, 2, 3], [0]):
            ck.case("refused/%s/%s" % (op, axes), _refused, ck, one(op, [(2, 3, 2, 3)], None, axes=axes))
        ck.case("refused/%s/all" % op, _refused, ck, one(op, [(2, 3, 2, 3)]))
        ck.case("refused/%s/rank3" % op, _refused, ck, one(op, [(2, 3, 2)], None, axes=[1, 2]))
    # activations
    ck.case("node/Relu", _many, ck, [one("Relu", [s]) for s in ((3,), (2, 3), (2, 1, 2), (2, 2, 1, 2))], True)
    ck.case("node/Sigmoid", _many, ck, [one("Sigmoid", [s]) for s in ((3,), (2, 3), (2, 2, 1, 2))], False, SIG)
    for shape in ((2, 3), (2, 3, 2), (2, 2, 2, 2)):
        for axis in (None,) + tuple(range(-len(shape), len(shape))):
            kw = {} if axis is None else {"axis": axis}
            ck.case("node/Softmax/%s/%s" % ("x".join(map(str, shape)), axis), _net, ck, one("Softmax", [shape], None, **kw), [np.clip(distinct(shape), -1.5, 1.5)], .02, False)
    # slicing
    rng = (-5, -2, 0, 1, 3, 4, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1, -2 ** 63 + 1)
    for axis, step in itertools.product((0, 1, 2, -1, -2), (None, 1, 2, -1, -2)):
        nets = []
        for b, e in itertools.product(rng, rng):
            if abs(b) > 2 ** 31 and (b > 0) == (step is None or step > 0) or q and (abs(b) > 2 ** 31 or abs(e) > 2 ** 31) and axis not in (1, -1):
                continue
            shape = [3, 2, 2]
            shape[axis] = 4
            n = len(range(*slice(b, e, step or 1).indices(4)))
            if n == 0:
                continue
            c = {"b": I(b), "e": I(e), "a": I(axis)}
            if step is not None:
                c["s"] = I(step)
            nets.append(one("Slice", [tuple(shape)], c))
        ck.case("node/Slice/a%d/s%s" % (axis, step), _many, ck, nets, False)
    ck.case("node/Slice/several", _many, ck, [one("Slice", [(3, 4, 2)], {"b": I(*b), "e": I(*e), **({"a": I(*a)} if a else {}), **({"s": I(*s)} if s else {})})
                                             for b, e, a, s in (((0, 1, 0), (2, 3, 2), None, None), ((1, 0), (3, 2), None, None), ((1, 0), (4, 1), (1, 2), None), ((0, 1), (1, 4), (2, 1), (1, 2)), ((-1, 3), (-4, 0), (0, 1), (-1, -2)))], False)
    # the result of a slice is used by a layer that needs its shape
    for b, e, s in ((1, 3, 1), (0, 2 ** 62, 2), (-3, -1, 1), (3, 0, -1)):
        n = len(range(*slice(b, e, s).indices(4)))
        ck.case("chain/Slice/%s-%s-%s" % (b, e, s), _net, ck, Net([("Slice", ["x0", "b", "e", "a", "s"], ["h"], {}), ("MatMul", ["h", "w"], ["y"], {})], [(3, 4)], {"b": I(b), "e": I(e), "a": I(1), "s": I(s), "w": vals((n, 2), 3)}), None, .006, False, (1, 2))
    for axis in (None, 0, 1, 2, -1, -2):
        dim = (3, 4, 2)[axis or 0]
        for idx in (np.array(1), I(0), I(1, 0), np.array([[0, 1], [1, 1]]), I(-1, 0), np.array(-1)):
            if (axis in (None, 0)) and (np.asarray(idx) < 0).any():
                continue
            kw = {} if axis is None else {"axis": axis}
            ck.case("node/Gather/%s/%s" % (axis, str(idx.tolist()).replace(" ", "")), _net, ck, one("Gather", [(3, 4, 2)], {"i": idx.astype(np.int64)}, **kw), None, .004, False)
    ck.case("chain/Gather", _net, ck, Net([("Gather", ["x0", "i"], ["h"], {"axis": 1}), ("MatMul", ["h", "w"], ["y"], {})], [(3, 4, 2)], {"i": np.array(-1), "w": vals((2, 2), 3)}), None, .006, False, (1,))
    for shape, axis, sizes in (((2, 4), 1, (1, 3)), ((2, 4), -1, (1, 3)), ((4, 3), 0, (3, 1)), ((4, 3), None, (1, 3)), ((2, 6, 2), 1, (2, 2, 2)), ((2, 3, 4), -1, (1, 1, 2)), ((2, 3), 1, (3,))):
        kw = {} if axis is None else {"axis": axis}
        ck.case("node/Split/%s/%s" % (axis, sizes), _net, ck, one("Split", [shape], {"s": I(*sizes)}, len(sizes), **kw))
        if len(set(sizes)) == 1:
            ck.case("node/Split/%s/equal%d" % (axis, len(sizes)), _net, ck, one("Split", [shape], None, len(sizes), **kw))
    ck.case("node/Split/equal", _many, ck, [one("Split", [(2, 4)], None, 2, axis=1), one("Split", [(2, 4)], None, 4, axis=-1), one("Split", [(4, 2)], None, 2), one("Split", [(2, 4)], None, 2, opset=18, axis=1, num_outputs=2)], True)
    ck.case("refused/Split", _refused, ck, one("Split", [(2, 5)], None, 2, opset=18, axis=1, num_outputs=2))
    ck.case("chain/Split", _net, ck, Net([("Split", ["x0"], ["a", "b"], {"axis": 1}), ("MatMul", ["a", "w"], ["c"], {}), ("Add", ["c", "b"], ["y"], {})], [(2, 4)], {"w": vals((2, 2), 3)}), None, .006)
    for axis in (0, 1, 2, -1, -3):
        for n in (1, 2, 3):
            shapes = []
            for i in range(n):
                s = [2, 2, 3]
                s[axis] = 1 + i
                shapes.append(tuple(s))
            ck.case("node/Concat/%d/%d" % (axis, n), _net, ck, one("Concat", shapes, None, axis=axis))
    ck.case("chain/Concat", _net, ck, Net([("Concat", ["x0", "x1", "x0"], ["h"], {"axis": -1}), ("MatMul", ["h", "w"], ["y"], {})], [(2, 2), (2, 1)], {"w": vals((5, 2), 3)}), None, .008)
    ck.case("node/Split/attribute", _many, ck, [one("Split", [(2, 4)], None, 2, opset=11, axis=1, split=[1, 3]), one("Split", [(4, 2)], None, 2, opset=11, split=[3, 1])], True)
    ck.case("refused/Concat/const", _refused, ck, Net([("Concat", ["x0", "c"], ["y"], {"axis": 1})], [(2, 2)], {"c": vals((2, 1), 3)}))
    # shapes
    for shape, to in (((2, 3, 2), (-1, 6)), ((2, 3, 2), (0, 6)), ((2, 3, 2), (0, -1)), ((2, 3, 2), (-1, 2, 3)), ((2, 3, 2), (2, 6)), ((2, 6), (-1, 2, 3)), ((2, 6), (0, 3, 2)), ((2, 6), (-1, 3)), ((2, 3, 2), (0, 0, -1)), ((2, 2), (4,)), ((2, 2), (-1,))):
        ck.case("node/Reshape/%s/%s" % ("x".join(map(str, shape)), to), _net, ck, one("Reshape", [shape], {"s": I(*to)}))
    ck.case("chain/Reshape", _many, ck, [Net([("Reshape", ["x0", "s"], ["h"], {}), ("MatMul", ["h", "w"], ["y"], {})], [(2, 3, 2)], {"s": I(*s), "w": vals((6, 2), 3, 16.)}) for s in ((-1, 6), (0, 6), (2, 6))], True, .01)
    for shape in ((2, 3), (2, 3, 2), (2, 1, 2, 2)):
        for axis in (None,) + tuple(range(-len(shape) + 1, len(shape))):
            kw = {} if axis is None else {"axis": axis}
            ck.case("node/Flatten/%s/%s" % ("x".join(map(str, shape)), axis), _net, ck, one("Flatten", [shape], None, **kw))
    for r in (2, 3, 4):
        shape = (2, 3, 4, 1)[:r] if r < 4 else (2, 1, 3, 2)
        for perm in (None,) + tuple(itertools.permutations(range(r))):
            kw = {} if perm is None else {"perm": perm}
            (ck.case("node/Transpose/%d/%s" % (r, perm), _net, ck, one("Transpose", [shape], None, **kw), None, .004, not q or r < 4) if perm is not None else ck.case("refused/Transpose/%d" % r, _refused, ck, one("Transpose", [shape])))
    for r in (1, 2, 3):
        shape = (3, 2, 2)[:r]
        for n in (1, 2):
            for axes in itertools.combinations(range(-(r + n), r + n), n):
                if len({a % (r + n) for a in axes}) < n or q and n == 2 and (axes[0] < 0) != (axes[1] < 0) and r == 3:
                    continue
                ck.case("node/Unsqueeze/%d/%s" % (r, axes), _many, ck, [one("Unsqueeze", [shape], {"a": I(*axes)}), one("Unsqueeze", [shape], None, opset=11, axes=list(axes))], r < 3)
    for shape, axes in (((2, 1, 3), (1,)), ((2, 1, 3), (-2,)), ((2, 1, 3, 1), (1, 3)), ((2, 1, 3, 1), (1,)), ((2, 1, 3, 1), (-1,)), ((2, 1, 3, 1), (-1, 1)), ((2, 1, 3, 1), None), ((1, 2, 1), (2,))):
        nets = [one("Squeeze", [shape], {"a": I(*axes)} if axes else None)]
        if axes:
            nets.append(one("Squeeze", [shape], None, opset=11, axes=list(axes)))
        ck.case("node/Squeeze/%s/%s" % ("x".join(map(str, shape)), axes), _many, ck, nets, True)
    ck.case("chain/Squeeze", _many, ck, [Net([("Unsqueeze", ["x0", "u"], ["g"], {}), ("Squeeze", ["g", "s"], ["h"], {}), ("MatMul", ["h", "w"], ["y"], {})], [(2, 3)], {"u": I(*u), "s": I(*s), "w": vals((3, 2), 3)}) for u, s in (((2,), (-1,)), ((-1,), (2,)), ((1, 3), (-1, 1)), ((1, 2), (1, 2)))], True, .006)
    for shape, p in (((2, 3), (0, 1, 0, 2)), ((2, 3), (1, 0, 2, 0)), ((2, 3), (1, 2, 0, 1)), ((2, 2, 2), (0, 1, 0, 0, 0, 2)), ((1, 2, 2, 1), (0, 0, 1, 2, 0, 1, 0, 1)), ((2, 3), (0, 0, 0, 0))):
        nets = [one("Pad", [shape], {"p": I(*p)}), one("Pad", [shape], {"p": I(*p)}, mode="constant"), one("Pad", [shape], {"p": I(*p), "v": np.array(0.0)})]
        ck.case("node/Pad/%s" % (p,), _many, ck, nets, True)
    for name, c, kw in (("value", {"p": I(0, 1, 0, 1), "v": np.array(.5)}, {}), ("reflect", {"p": I(0, 1, 0, 1)}, {"mode": "reflect"}), ("edge", {"p": I(0, 1, 0, 1)}, {"mode": "edge"})):
        ck.case("refused/Pad/%s" % name, _refused, ck, one("Pad", [(2, 3)], c, **kw))
    ck.case("chain/Pad", _net, ck, Net([("Pad", ["x0", "p"], ["h"], {}), ("Gemm", ["h", "w", "b"], ["y"], {})], [(2, 3)], {"p": I(0, 1, 0, 2), "w": vals((6, 2), 3), "b": vals((2,), 4)}), None, .01, True, (1,))
    # graphs
    base = [("Gemm", ["x0", "w", "b"], ["h"], {}), ("Relu", ["h"], ["r"], {}), ("Sub", ["r", "x1"], ["s"], {}), ("Mul", ["s", "h"], ["t"], {}), ("Neg", ["t"], ["y"], {})]
    cc = {"w": vals((3, 2), 2), "b": vals((2,), 3)}
    for names, raw, listed in itertools.product(("unique", "none", "same", "path"), (True, False), (False, True)):
        ck.case("graph/%s-%s-%s" % (names, raw, listed), _net, ck, Net(base, [(2, 3), (2, 2)], cc, names=names, raw=raw, listed=listed), None, .04)
        ck.case("graph/outputs/%s-%s-%s" % (names, raw, listed), _net, ck, Net(base[:3] + [("Add", ["r", "r"], ["y"], {})], [(2, 3), (2, 2)], cc, ["s", "y", "h"], names=names, raw=raw, listed=listed), None, .02)
    for name in NETS:
        for lr, mom in ((.125, 0.0), (.0625, .5)):
            ck.case("train/%s/%s-%s" % (name, lr, mom), _train, ck, name, 2 if q else 4, lr, mom)
        if not q or name in ("mlp", "conv", "residual"):
            ck.case("graph-mode/%s" % name, _graph_mode, ck, name)
    ck.case("provider", _provider, ck)
    ck.case("file", _file, ck)
    for name in FUNCS:
        for opset in (13, 15) if q else (9, 11, 12, 13, 14, 15, 16, 17, 18):
            if q and opset == 13 and name.split("-")[0] in ("conv", "depthwise", "avg", "max"):
                continue
            ck.case("tf/%s/%d" % (name, opset), _tf, ck, name, opset, opset >= 13)
    if q:
        for name in ("slice", "slice-last", "new-axes", "squeeze", "softmax-axis", "split", "pad", "conv-2-1-SAME", "max-2-2-SAME", "global-mean"):
            for opset in (9, 11, 18):
                ck.case("tf/%s/%d" % (name, opset), _tf, ck, name, opset, False)
