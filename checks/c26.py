"""C26: inputs, local computations and outputs run at the player they name, on exactly its arguments."""
import itertools

import numpy as np

from vlib import a3, pd, rt, secrecy, smallring
from vlib.worker import Violation
import tensorflow as tf
import tf_encrypted as tfe
from tensorflow.python.framework import op_callbacks
from tf_encrypted.player import DataOwner
from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor, ABY3PublicTensor
from tf_encrypted.protocol.pond.pond import PondMaskedTensor
from tf_encrypted.protocol.securenn import SecureNN
from tf_encrypted.tensor.fixed import fixed64_ni

ALL = range(len(rt.PLAYERS) + 1)


def setup(which, debug=True, mode="det"):
    if which == "aby3":
        return rt.aby3(debug=debug, mode=mode)
    if which == "pond64":
        return pd.pond(fixed64_ni, debug=debug, mode=mode)
    if which == "securenn":
        return pd.pond(fixed64_ni, debug=debug, mode=mode, cls=SecureNN)
    return pd.pond(debug=debug, mode=mode)


def is_aby3(prot):
    return hasattr(prot, "servers")


def opened(prot, x, what="", reveal=False):
    return (a3.opened if is_aby3(prot) else pd.opened)(prot, x, what=what, reveal=reveal)


def scale(prot):
    return float(prot.fixedpoint_config.scaling_factor)


def same(ck, prot, got, want, what):
    """Exact, up to the rounding of decimals that do not fit the fixed-point base."""
    s = scale(prot)
    if np.log2(s) % 1 == 0:
        ck.eq(got, want, what)
    else:
        ck.close(got, want, 16 / s, what)


def player(name):
    return tfe.get_config().get_player(name)


def device(name):
    return rt.PLAYERS.index(name) + 1


def helpers(prot):
    """Devices that may take part in sharing: the servers and the producer of masks."""
    if is_aby3(prot):
        return {device(s.name) for s in prot.servers}
    r = {device(prot.server_0.name), device(prot.server_1.name), device(prot.triple_source.producer.name)}
    if hasattr(prot, "server_2"):
        r.add(device(prot.server_2.name))
    return r


class Ops:
    """Which devices run operations, and where the values they read come from."""

    def __enter__(self):
        self.ran, self.read = {}, {}
        self.busy = False
        op_callbacks.add_op_callback(self._cb)
        return self

    def __exit__(self, *a):
        op_callbacks.remove_op_callback(self._cb)

    def _cb(self, op_type, inputs, attrs, outputs, op_name=None, graph=None):
        if graph is not None:
            return
        for o in outputs:
            d = rt.dev_of(o)
            if d is not None:
                self.ran.setdefault(d, set()).add(op_type)
                for i in inputs:
                    if isinstance(i, tf.Tensor):
                        s = rt.dev_of(i)
                        if s is not None and s != d:
                            self.read.setdefault(d, set()).add(s)

    def only(self, allowed, what):
        for d in self.ran:
            if d not in allowed and self.ran[d] - {"Const"}:
                raise Violation("%s: operations %s ran at %s" % (
                    what, sorted(self.ran[d])[:4], rt.PLAYERS[d - 1] if d else "nobody's device"))


def at(t, name, what):
    d = getattr(t, "device", "")
    if d and rt.dev_of(t) != device(name):
        raise Violation("%s: a value of %s is on %s" % (what, name, d))


VALS = {
    (): np.array(-1.25),
    (1,): np.array([2.5]),
    (2, 2): np.array([[0.5, -3.25], [7.0, -0.125]]),
    (1, 3): np.array([[1.5, 0.0, -2.0]]),
}


# -- inputs -------------------------------------------------------------------------------------------
FORMS = ("define", "define-player", "decorator", "keyword", "method", "public")
OUTS = ("tensor", "list", "tuple", "none")


def _call(form, name, fn, **kw):
    if form == "define":
        return tfe.define_private_input(name, fn, **kw)
    if form == "define-player":
        return tfe.define_private_input(player(name), fn, **kw)
    if form == "public":
        return tfe.define_public_input(name, fn, **kw)
    if form == "decorator":
        return tfe.local_computation(name, **kw)(fn)()
    if form == "keyword":
        return tfe.local_computation(fn)(player_name=name)

    class Owner:
        player_name = name

        @tfe.local_computation
        def provide(self):
            return fn()

    return Owner().provide()


def _inputs(ck, which, form, name):
    prot = setup(which)
    f = scale(prot)
    for outs, shape, dt in itertools.product(OUTS, VALS, (tf.float64, tf.float32, tf.int64, tf.int32)):
        for scaled in (True, False) if form in ("define", "public", "decorator") else (True,):
            if not scaled and dt.is_floating or not ck.quick and False:
                continue
            if ck.quick and (outs != "tensor") + (shape != (2, 2)) + (dt != tf.float64) > 1 + (dt == tf.int64):
                continue
            if form == "public" and outs == "none":
                continue
            what = "%s input of %s (%s %s %s, %s)" % (form, name, outs, dt.name, shape, "scaled" if scaled else "unscaled")
            v = VALS[shape] if dt.is_floating else np.round(VALS[shape] * 2).astype(np.int64)
            calls = []

            def fn():
                x = tf.constant(v, dtype=dt) + tf.cast(0, dt)
                calls.append(x)
                at(x, name, what)
                y = -x
                return {"tensor": x, "list": [x, y], "tuple": (x, y), "none": None}[outs]

            with Ops() as ops:
                kw = {} if scaled else dict(apply_scaling=False)
                r = _call(form, name, fn, **kw)
            ops.only(helpers(prot) | {device(name)}, what)
            ck.eq(len(calls), 1, what + ": calls")
            if outs == "none":
                if r is not None:
                    ck.fail("%s: something came back" % what)
                continue
            rs = [r] if outs == "tensor" else list(r)
            ck.eq(len(rs), 1 if outs == "tensor" else 2, what + ": number of results")
            for i, t in enumerate(rs):
                if t.is_scaled != scaled:
                    ck.fail("%s: is_scaled is %s" % (what, t.is_scaled))
                if form == "public" and not isinstance(t, ABY3PublicTensor) and is_aby3(prot):
                    ck.fail("%s: not public" % what)
                same(ck, prot, opened(prot, t, what), v * (-1) ** i, what)
                ck.eq(tuple(int(d) for d in t.shape), shape, what + ": shape")
            ck.count(0, states=1, traces=1)


def _bits(ck, name):
    """Boolean sharings and bits as inputs."""
    prot = setup("aby3")
    for shape in VALS:
        v = np.round(VALS[shape] * 8).astype(np.int64)
        for scaled in (False, True):
            x = prot.define_private_input(name, lambda: tf.constant(v / (scale(prot) if scaled else 1)) if scaled else tf.constant(v),
                                          apply_scaling=scaled, share_type=a3.B)
            ck.eq(a3.open_private(prot, x, "boolean input"), v, "boolean input of %s" % name)
        b = v & 1 == 1
        y = prot.define_private_input(name, lambda: tf.constant(b), apply_scaling=False, share_type=a3.B, factory=a3.BOOL)
        ck.eq(a3.open_private(prot, y, "bits"), b.astype(np.int64), "bits of %s" % name)
        ck.count(0, states=3, traces=3)


# -- arguments ----------------------------------------------------------------------------------------
def _args(prot):
    """name -> (argument, what the function must get)."""
    v = np.array([[0.5, -3.25], [7.0, -0.125]])
    w = np.array([[5, -6], [0, 1000]])
    c = tf.constant(w)
    o = object()
    r = {
        "private": (prot.define_private_variable(v), v),
        "private-unscaled": (prot.define_private_variable(w, apply_scaling=False), w),
        "public": (prot.define_public_variable(v), v),
        "public-unscaled": (prot.define_public_variable(w, apply_scaling=False), w),
        "constant": (prot.define_constant(v), v),
        "input": (prot.define_private_input("other", lambda: tf.constant(v)), v),
        "computed": (prot.define_private_variable(v) + prot.define_private_variable(v[::-1]), v + v[::-1]),
        "sliced": (prot.define_private_variable(v)[0], v[0]),
        "tensor": (c, c),
        "number": (3, 3),
        "text": ("a b", "a b"),
        "nothing": (None, None),
        "object": (o, o),
        "function": (len, len),
    }
    if is_aby3(prot):
        b = w & 1
        r["boolean"] = (prot.define_private_variable(w, apply_scaling=False, share_type=a3.B), w)
        r["boolean-scaled"] = (prot.define_private_variable(v, share_type=a3.B), v)
        r["bits"] = (prot.define_private_variable(b, apply_scaling=False, share_type=a3.B, factory=a3.BOOL), b == 1)
        r["comparison"] = (prot.define_private_variable(v) > prot.define_private_variable(v * 0), v > 0)
    else:
        r["masked"] = (prot.mask(prot.define_private_variable(v)), v)
        r["masked-unscaled"] = (prot.mask(prot.define_private_variable(w, apply_scaling=False)), w)
        r["masked-input"] = (prot.define_private_input("other", lambda: tf.constant(v), masked=True), v)
    return r


def _check_arg(ck, prot, got, want, name, what, public):
    if isinstance(want, np.ndarray):
        if not isinstance(got, tf.Tensor):
            ck.fail("%s: got %s" % (what, type(got).__name__))
        if not public:  # public values may come from any server
            at(got, name, what)
        same(ck, prot, np.asarray(got.numpy()), want, what)
    elif isinstance(want, (int, str)):
        if got != want:
            ck.fail("%s: got %r" % (what, got))
    elif got is not want:
        ck.fail("%s: got something else" % what)


def _arguments(ck, which, name, first):
    prot = setup(which)
    args = _args(prot)
    keys = list(args)
    for second in keys if first is not None else [None]:
        ks = [k for k in (first, second) if k is not None]
        for how in ("define", "decorator", "keyword", "named", "output") if not ck.quick or second in (keys[0], first) else ("define",):
            if len(ks) == 2 and ck.quick and how == "output" and second != first:
                continue
            given = [args[k][0] for k in ks]
            got = []

            def fn(*a, **kw):
                got.append((a, kw))
                s = 0.0
                for t in list(a) + list(kw.values()):
                    if isinstance(t, tf.Tensor):
                        s = s + tf.reduce_sum(tf.cast(t, tf.float64))
                return tf.constant(1.5, tf.float64) + s

            what = "%s at %s of %s" % (how, name, "+".join(ks))
            with Ops() as ops:
                if how == "define":
                    r = prot.define_local_computation(name, fn, arguments=given)
                elif how == "output":
                    r = prot.define_output(name, given if len(given) > 1 else given[0], fn)
                elif how == "decorator":
                    r = prot.local_computation(name)(fn)(*given)
                elif how == "keyword":
                    r = prot.local_computation(fn)(*given, player_name=name)
                else:
                    r = prot.local_computation(name)(fn)(*given[:-1], last=given[-1])
            # boolean results may have to be computed first
            ops.only(helpers(prot) | {device(name)}, what)
            ck.eq(len(got), 1, what + ": calls")
            a, kw = got[0]
            if how == "named":
                ck.eq(sorted(kw), ["last"], what + ": names")
                a = list(a) + [kw["last"]]
            elif kw:
                ck.fail("%s: unexpected keywords %s" % (what, sorted(kw)))
            ck.eq(len(a), len(ks), what + ": number of arguments")
            s = 1.5
            for g, k in zip(a, ks):
                _check_arg(ck, prot, g, args[k][1], name, "%s: %s" % (what, k), k.startswith(("public", "constant")))
                if isinstance(g, tf.Tensor):
                    s += np.asarray(g.numpy()).astype(np.float64).sum()
            same(ck, prot, opened(prot, r, what), np.array(s), what + ": result")
            ck.count(0, states=1, traces=1)


def _masked(ck, name, which):
    """Masked inputs: consistent masks, products of masked inputs."""
    prot = setup(which)
    for shape in VALS:
        for scaled in (True, False):
            v = VALS[shape] if scaled else np.asarray(np.round(VALS[shape] * 4)).astype(np.int64)
            with Ops() as ops:
                x = prot.define_private_input(name, lambda: tf.constant(v), masked=True, apply_scaling=scaled)
            ops.only(helpers(prot) | {device(name)}, "masked input of %s" % name)
            if not isinstance(x, PondMaskedTensor):
                ck.fail("masked input is a %s" % type(x).__name__)
            prod = device(prot.triple_source.producer.name)
            if prod != device(name) and device(name) in ops.read.get(prod, ()):
                ck.fail("masked input: the triple producer reads values of %s" % name)
            same(ck, prot, opened(prot, x, "masked input"), v, "masked input of %s" % name)
            y = prot.define_private_variable(np.asarray(v), apply_scaling=scaled)
            ck.close(opened(prot, x * y), v * v, 16 / scale(prot) if scaled else 0, "masked input times private")
            ck.close(opened(prot, x * x), v * v, 16 / scale(prot) if scaled else 0, "square of a masked input")
            same(ck, prot, opened(prot, x + y), v + v, "masked input plus private")
            ck.count(0, states=4, traces=4)


# -- chains of computations at several players --------------------------------------------------------
def _chain(ck, which, first, depth, debug):
    """A value travels from player to player, everyone adding something of its own."""
    prot = setup(which, debug=debug)
    names = rt.PLAYERS if depth < 3 or not ck.quick else ["server0", "server1", "input-provider"]
    steps = {
        "affine": lambda k: lambda x: 2 * x + k,
        "split": lambda k: lambda x: (x - k, x + 3 * k),
    }

    for rest in itertools.product(names, repeat=depth - 1):
        path = (first,) + rest
        for kinds in itertools.product(steps, repeat=len(rest)):
            x0 = np.array([[0.5, -1.0]])
            where = []

            def run():
                x = tfe.define_private_input(path[0], lambda: tf.constant(x0))
                for i, (p, kd) in enumerate(zip(rest, kinds)):
                    def fn(t, i=i, kd=kd):
                        y = steps[kd](i + 1.0)(t)
                        where.append((p, t, y if isinstance(y, tf.Tensor) else y[0]))
                        return y
                    r = tfe.define_local_computation(p, fn, arguments=[x])
                    x = r[0] + r[1] if isinstance(r, list) else r
                return x

            if debug:
                r = run()
                for p, t, y in where:
                    at(t, p, "argument at %s" % p)
                    at(y, p, "result at %s" % p)
            else:
                r = tfe.function(run)()
                for p, t, y in where:
                    for q in (t, y):
                        if q.op.device and q.op.device != player(p).device_name:
                            ck.fail("a value of %s is computed on %s" % (p, q.op.device))
            v = x0
            for i, kd in enumerate(kinds):
                y = steps[kd](i + 1.0)(v)
                v = y if isinstance(y, np.ndarray) else y[0] + y[1]
            same(ck, prot, opened(prot, r, "chain %s" % (path,)), v, "chain %s %s" % (path, kinds))
            ck.count(0, states=1, transitions=len(rest), traces=1)


# -- secrecy ------------------------------------------------------------------------------------------
def _bystanders(ck, which, owner, q, prog):
    """Everybody but the owner of a value and the player it is opened to."""
    if which == "aby3":
        for n in (1, 2, 4):
            a3.factories[n] = smallring.ring(n)

        def make():
            return rt.aby3(smallring.config(2), mode="script")
    else:
        def make():
            p = pd.pond(smallring.config(2, frac=1, ni=True), mode="script")
            it = itertools.cycle([0.25, 0.75])
            rt.TAPE.pyrandom = lambda: next(it)
            return p

    devs = [d for d in ALL if d not in (device(owner), device(q))]
    names = {d: rt.PLAYERS[d - 1] if d else "nobody's device" for d in ALL}
    masked = prog == "masked"

    def run(p, x):
        kw = dict(masked=True) if masked else {}
        y = p.define_private_input(owner, lambda: tf.constant(x), apply_scaling=False, **kw)
        if prog == "input" or masked:
            return y
        if prog == "output":
            return p.define_output(q, y, lambda t: None)
        if prog == "local":
            return p.define_local_computation(q, lambda t: t + 1, arguments=[y], apply_scaling=False)
        if prog == "twice":
            z = p.define_local_computation(owner, lambda t: 1 - t, arguments=[y], apply_scaling=False)
            return p.define_output(q, [z, y], lambda s, t: None)
        if prog == "boolean":
            y = p.define_private_input(owner, lambda: tf.constant(x), apply_scaling=False, share_type=a3.B)
            return p.define_output(q, y, lambda t: None)
        raise KeyError(prog)

    # Pond's smallest ring takes several draws per mask: two secrets tell as much as all do
    secrecy.check(ck, make, run, [np.arange(-2, 2)], devs, names, max_rows=(300000 if ck.quick else 5000000),
                  what="%s of %s at %s (%s)" % (prog, owner, q, which))


# -- data owners --------------------------------------------------------------------------------------
def _owner(ck, which, name, n, kind, depth):
    """All histories of: start another pass, next batch of one of the passes."""
    prot = setup(which)
    # every history: a sequence over {start a pass, take from pass i}; at most two passes
    hists = [()]
    for _ in range(depth):
        new = []
        for h in hists:
            passes = sum(1 for a in h if a == "start")
            if passes < 2:
                new.append(h + ("start",))
            for i in range(passes):
                new.append(h + (i,))
        hists = new
    xs = [np.array([[k + 0.5, -k]]) for k in range(n)]
    ys = [np.array([[1.0 * (k % 2)]]) for k in range(n)]
    what = "data of %s (%s, %d batches)" % (name, kind, n)
    for h in hists:
        def gen():
            for x, y in zip(xs, ys):
                t = tf.constant(x) + 0.0
                at(t, name, what)
                if kind == "x":
                    yield t
                elif kind == "tuple":
                    yield t, tf.constant(y)
                else:
                    yield [t, tf.constant(y)]

        def build():
            at(tf.constant(1.0) + 0.0, name, what)
            return gen()

        owner = DataOwner(name if (len(h) + sum(a == 0 for a in h)) % 2 else player(name), build)
        ck.eq(owner.batch_shape, (1, 2), what + ": batch_shape")
        ck.eq(owner.batch_size, 1, what + ": batch_size")
        if kind != "x":
            ck.eq(owner.num_classes, 1, what + ": num_classes")
        its, pos = [], []
        for a in h:
            if a == "start":
                its.append(iter(owner.provide_data()))
                pos.append(0)
                continue
            try:
                b = next(its[a])
            except StopIteration:
                b = None
            if (b is None) != (pos[a] >= n):
                ck.fail("%s, history %s: pass %d %s after %d batches" % (
                    what, h, a, "ends" if b is None else "goes on", pos[a]))
            if b is None:
                continue
            want = [xs[pos[a]]] if kind == "x" else [xs[pos[a]], ys[pos[a]]]
            got = [b] if kind == "x" else list(b)
            ck.eq(len(got), len(want), "%s, history %s" % (what, h))
            for g, w in zip(got, want):
                same(ck, prot, opened(prot, g, what), w, "%s, history %s" % (what, h))
            pos[a] += 1
        if tf.constant(0.0).device != rt.dev(0):
            ck.fail("%s, history %s: the default device changed" % (what, h))
        ck.count(0, states=1, transitions=len(h), traces=1)


def _refuse(ck, which):
    prot = setup(which)
    for what, f in {
        "unknown player": lambda: prot.define_private_input("stranger", lambda: tf.constant(1.0)),
        "no player": lambda: prot.local_computation(lambda: tf.constant(1.0))(),
        "number returned": lambda: prot.define_private_input("other", lambda: 3),
        "text returned": lambda: prot.define_output("other", [], lambda: "x"),
    }.items():
        try:
            f()
        except BaseException as e:
            if isinstance(e, Violation):
                raise
        else:
            ck.fail("%s is accepted (%s)" % (what, which))
        ck.count(1, states=1)


def run(ck):
    q = ck.quick
    protos = ("aby3", "pond", "pond64", "securenn")
    for which in protos:
        for name in rt.PLAYERS:
            for form in FORMS:
                if form == "public" and which == "pond100":
                    continue
                ck.case("inputs/%s/%s/%s" % (which, form, name), _inputs, ck, which, form, name, kind="inputs")
        ck.case("refuse/%s" % which, _refuse, ck, which)
    for name in rt.PLAYERS:
        ck.case("bits/%s" % name, _bits, ck, name)
        for which in protos[1:]:
            ck.case("masked/%s/%s" % (which, name), _masked, ck, name, which)
    common = ["private", "private-unscaled", "public", "public-unscaled", "constant", "input", "computed", "sliced", "tensor", "number",
              "text", "nothing", "object", "function"]
    for which in protos:
        more = ["boolean", "boolean-scaled", "bits", "comparison"] if which == "aby3" else ["masked", "masked-unscaled", "masked-input"]
        for name in rt.PLAYERS:
            for k in common + more:
                if q and which != "aby3" and name in ("other", "server1") and k not in ("private", "masked"):
                    continue
                ck.case("arguments/%s/%s/%s" % (which, name, k), _arguments, ck, which, name, k, kind="arguments")
    for which in protos:
        for name in rt.PLAYERS:
            for depth in (2, 3):
                ck.case("chain/%s/%s/%d" % (which, name, depth), _chain, ck, which, name, depth, True, kind="chain")
            ck.case("chain-graph/%s/%s" % (which, name), _chain, ck, which, name, 2, False, kind="chain-graph")
    for which in ("aby3", "pond"):
        for owner, r in itertools.product(rt.PLAYERS, repeat=2):
            if q and (owner == "other" or r == "other"):
                continue
            for prog in ("input", "output", "local", "twice") + (("boolean",) if which == "aby3" else ("masked",)):
                if prog in ("input", "masked") and r != "result-receiver":
                    continue
                ck.case("bystanders/%s/%s/%s/%s" % (which, prog, owner, r), _bystanders, ck, which, owner, r, prog, kind="bystanders")
    for which in ("aby3", "pond"):
        for name in ("input-provider", "server1", "other"):
            for n, kind in itertools.product((1, 2, 3), ("x", "tuple", "list")):
                if q and (kind == "list") != (n == 2) and kind == "list":
                    continue
                ck.case("owner/%s/%s/%d/%s" % (which, name, n, kind), _owner, ck, which, name, n, kind, 6 if q else 8, kind="owner")
