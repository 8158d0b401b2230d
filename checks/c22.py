"""C22: queues of shared values are first in first out, and served predictions come back in order."""
import itertools
import threading
import uuid
from collections import deque

import numpy as np

from vlib import pd, rt
import tensorflow as tf
from tensorflow.python.ops import gen_data_flow_ops as _gen
import tf_encrypted as tfe
from tf_encrypted.protocol.pond import Pond
from tf_encrypted.protocol.securenn import SecureNN
from tf_encrypted.serving import QueueClient, QueueServer

FX = (pd.fixed64, pd.fixed64_ni)


def _prot(cls=Pond, fx=pd.fixed64, shared=False, mode="det"):
    return pd.pond(config=fx, cls=cls, shared=shared, mode=mode, debug=False)


def _val(k, shape):
    n = int(np.prod(shape)) if len(shape) else 1
    sign = -1 if k % 2 else 1
    return np.asarray((sign * (3.0 * k + 1 + np.arange(n) / 4.0)).reshape(shape))


def _open(prot, x, what=""):
    return pd.open_any(prot, x, what)


# -- histories of one handle and of several -------------------------------------------------------

def _histories(ck, cls, fx, cap, depth, nq, handles, shape, named, shared):
    """All sequences of enqueues and dequeues over nq queues (each through any of its handles) that
    never have to wait."""
    prot = _prot(cls, fx, shared)
    xs = [prot.define_private_variable(_val(k, shape)) for k in range(depth)]
    want = [_open(prot, x) for x in xs]
    acts = [(q, h, a) for q in range(nq) for h in range(handles) for a in "ed"]
    n = st = 0
    for seq in itertools.product(acts, repeat=depth):
        level, ok = [0] * nq, True
        for q, _, a in seq:
            level[q] += 1 if a == "e" else -1
            ok = ok and 0 <= level[q] <= cap
        if not ok or seq[0][1] != 0 or seq[0][0] != 0:
            continue
        names = [uuid.uuid4().hex if named else None for _ in range(nq)]
        qs = [[tfe.queue.FIFOQueue(cap, shape, shared_name=nm) for _ in range(handles)] for nm in names]
        model = [deque() for _ in range(nq)]
        k = 0
        for j, (q, h, a) in enumerate(seq):
            if a == "e":
                qs[q][h].enqueue(xs[k])
                model[q].append(k)
                k += 1
            else:
                y = qs[q][h].dequeue()
                i = model[q].popleft()
                ck.true(y.is_scaled and tuple(y.shape) == tuple(shape), "kind and shape of a dequeued value")
                ck.eq(_open(prot, y), want[i], "step %d of %s" % (j, seq))
            for qq in range(nq):
                for hh in range(handles):
                    ck.eq(int(qs[qq][hh].size()), len(model[qq]), "size of queue %d after step %d of %s" % (qq, j, seq))
            st += 1
        # whatever is left comes out in order
        for q in range(nq):
            while model[q]:
                y = qs[q][-1].dequeue()
                ck.eq(_open(prot, y), want[model[q].popleft()], "draining queue %d after %s" % (q, seq))
        n += 1
    ck.count(0, states=st, transitions=st, traces=n, sample="%d histories" % n)


def _shapes(ck, cls, fx, shape):
    """Values of every shape, words at the ends of the ring, results of computations, and variables."""
    prot = _prot(cls, fx)
    q = tfe.queue.FIFOQueue(8, shape)
    n = int(np.prod(shape)) if len(shape) else 1
    lim = 2 ** 61 // int(prot.fixedpoint_config.scaling_factor)
    vals = [np.zeros(shape), np.ones(shape), -np.ones(shape), np.full(shape, lim), np.full(shape, -lim)]
    vals += [(np.arange(n) * 0.5 - 1).reshape(shape)]
    vals = [np.asarray(v) for v in vals]
    xs = [prot.define_private_variable(v) for v in vals]
    xs.append(prot.add(xs[1], xs[5]))
    xs.append(prot.define_private_input("input-provider", lambda: tf.constant(vals[5])))
    want = [_open(prot, x) for x in xs]
    for x in xs:
        q.enqueue(x)
    for x, w in zip(xs, want):
        y = q.dequeue()
        ck.eq(_open(prot, y), w, "shape %s" % (shape,))
        ck.eq(_open(prot, prot.add(y, y)), w * 2, "a dequeued value is computed with")
    ck.eq(int(q.size()), 0, "empty at the end")
    ck.count(0, states=2 * len(xs), transitions=2 * len(xs), traces=1)


def _reassigned(ck, cls, fx):
    """A value enqueued from a variable is the value at that time."""
    prot = _prot(cls, fx)
    for order in itertools.product("ead", repeat=5):
        q = tfe.queue.FIFOQueue(5, (2,))
        v = prot.define_private_variable(_val(0, (2,)))
        cur, model, k, ok = pd.open_any(prot, v), deque(), 1, True
        lev = 0
        for a in order:
            lev += {"e": 1, "a": 0, "d": -1}[a]
            ok = ok and lev >= 0
        if not ok:
            continue
        for a in order:
            if a == "a":
                w = prot.define_private_variable(_val(k, (2,)))
                prot.assign(v, w)
                cur = pd.open_any(prot, w)
                k += 1
            elif a == "e":
                q.enqueue(v.read_value() if hasattr(v, "read_value") else v)
                model.append(cur)
            else:
                ck.eq(_open(prot, q.dequeue()), model.popleft(), "assigning between %s" % (order,))
        ck.count(0, states=5, transitions=5, traces=1)


def _rejected(ck, cls, fx):
    """Values of another shape or kind are refused, and nothing of them stays in the queue."""
    prot = _prot(cls, fx)
    good = [prot.define_private_variable(_val(k, (2, 3))) for k in range(3)]
    want = [_open(prot, g) for g in good]
    bad = [prot.define_private_variable(_val(0, s)) for s in ((3, 2), (2,), (2, 3, 1), (1, 3), ())]
    bad += [prot.define_public_variable(_val(0, (2, 3))), np.zeros((2, 3)), tf.zeros((2, 3)), None,
            prot.define_private_variable(np.ones((2, 3), dtype=np.int64), apply_scaling=False)]
    for where in range(3):
        for b1, b2 in itertools.product(range(len(bad)), repeat=2):
            q = tfe.queue.FIFOQueue(4, (2, 3))
            for k in range(3):
                if k == where:
                    for b in (b1, b2):
                        try:
                            q.enqueue(bad[b])
                        except Exception:
                            pass
                        else:
                            ck.fail("value %d of another kind or shape was accepted" % b)
                q.enqueue(good[k])
            ck.eq(int(q.size()), 3, "size after refused values")
            for k in range(3):
                ck.eq(_open(prot, q.dequeue()), want[k], "values around refused ones %d %d" % (b1, b2))
            ck.count(0, states=8, transitions=8, traces=1)


def _placement(ck, cls, fx):
    """Each share waits on, and comes back to, its own server; neither server reads the other's."""
    prot = _prot(cls, fx)
    seen = []

    def cb(op_type, inputs, attrs, outputs, op_name=None, graph=None):
        if graph is None and op_type.startswith("Queue"):
            for t in inputs:
                if isinstance(t, tf.Tensor) and t.dtype == tf.resource:
                    hd = t.device
            for t in inputs:
                if isinstance(t, tf.Tensor) and t.dtype not in (tf.resource, tf.string):
                    seen.append((op_type, hd, t.numpy()))

    from tensorflow.python.framework import op_callbacks
    xs = [prot.define_private_variable(_val(k, (4,))) for k in range(3)]
    q = tfe.queue.FIFOQueue(3, (4,))
    op_callbacks.add_op_callback(cb)
    try:
        for x in xs:
            q.enqueue(x)
    finally:
        op_callbacks.remove_op_callback(cb)
    ck.true(len(seen) >= 6, "each share is stored")
    for x in xs:
        for s, srv in zip(x.unwrapped, (prot.server_0, prot.server_1)):
            for _, hd, v in seen:
                if np.array_equal(np.asarray(v), s.value.numpy()):
                    ck.true(hd == srv.device_name, "the share of %s waits on %s" % (srv.name, hd))
    for x in xs:
        y = q.dequeue()
        _open(prot, y, "dequeued")  # also looks at where the shares are
        for s, t in zip(x.unwrapped, y.unwrapped):
            ck.eq(t.value.numpy(), s.value.numpy(), "the share that was stored is the one that comes back")
    ck.count(0, states=6, transitions=6, traces=1)


def _functions(ck, cls, fx, depth):
    """Enqueues and dequeues inside a graph function happen in program order, on every call."""
    prot = _prot(cls, fx, mode="real")
    xs = [prot.define_private_variable(_val(k, (2,))) for k in range(depth)]
    want = [_open(prot, x) for x in xs]
    for seq in itertools.product("ed", repeat=depth):
        lev = np.cumsum([1 if a == "e" else -1 for a in seq])
        start = max(0, -int(lev.min()))
        q = tfe.queue.FIFOQueue(start + 2 * depth, (2,), shared_name=uuid.uuid4().hex)

        @tf.function
        def f():
            out, k = [], 0
            for a in seq:
                if a == "e":
                    q.enqueue(xs[k])
                    k += 1
                else:
                    out.append(q.dequeue())
            return [y.reveal().to_native() for y in out]

        model = deque()
        for k in range(start * 3 + 3):
            if k < start * 3 or len(model) < start:
                q.enqueue(xs[k % depth])
                model.append(k % depth)
            if len(model) >= start + (0 if lev[-1] >= 0 else 1):
                break
        calls = 0
        while calls < 2 and len(model) >= start and len(model) + int(lev.max()) <= start + 2 * depth:
            out = f()
            k = i = 0
            for a in seq:
                if a == "e":
                    model.append(k)
                    k += 1
                else:
                    j = model.popleft()
                    g = np.round(out[i].numpy() * prot.fixedpoint_config.scaling_factor).astype(np.int64)
                    ck.eq(g, want[j], "call %d of %s" % (calls, "".join(seq)))
                    i += 1
            calls += 1
            ck.eq(int(q.size()), len(model), "size after call %d of %s" % (calls, "".join(seq)))
        while model:
            ck.eq(_open(prot, q.dequeue()), want[model.popleft()], "draining after %s" % "".join(seq))
        ck.count(0, states=calls * depth, transitions=calls * depth, traces=1)


# -- interleavings --------------------------------------------------------------------------------

class Stop(Exception):
    pass


class Sched:
    """Runs threads one queue operation at a time, following a given list of choices."""

    def __init__(self):
        self.tls = threading.local()
        self.orig = {}
        for f in ("queue_enqueue_v2", "queue_dequeue_v2", "queue_enqueue_many_v2", "queue_dequeue_many_v2"):
            self.orig[f] = getattr(_gen, f)

    def install(self):
        for f, g in self.orig.items():
            setattr(_gen, f, self.wrap(f, g))

    def remove(self):
        for f, g in self.orig.items():
            setattr(_gen, f, g)

    def wrap(self, f, g):
        def op(handle, *a, **kw):
            me = getattr(self.tls, "me", None)
            if me is not None:
                n = 1
                if "many" in f:
                    n = int(kw.get("n", a[0])) if "dequeue" in f else int(tf.shape((a[0] if a else kw["components"])[0])[0])
                self.pause(me, ("e" if "enqueue" in f else "d", handle, n))
            return g(handle, *a, **kw)
        return op

    def pause(self, me, req):
        self.want[me] = req
        self.back.release()
        self.go[me].acquire()
        if self.dead:
            raise Stop()

    def enabled(self, cap):
        out = []
        for i, w in enumerate(self.want):
            if w is None:
                continue
            kind, handle, n = w
            if kind == "start":
                out.append(i)
                continue
            size = int(_gen.queue_size_v2(handle).numpy())
            if (kind == "e" and size + n <= cap) or (kind == "d" and size >= n):
                out.append(i)
        return out

    def run(self, bodies, cap, prefix):
        """Runs one interleaving: follows prefix, then always the first enabled thread. Returns the choices
        made, the alternatives at each point, and the order of operations per queue."""
        n = len(bodies)
        self.want = [("start", None, 0)] * n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.dead = False
        errs, order = [], {}

        def main(i):
            self.tls.me = i
            self.go[i].acquire()
            try:
                if not self.dead:
                    bodies[i]()
            except Stop:
                pass
            except BaseException as e:  # noqa
                errs.append(e)
            self.want[i] = None
            self.tls.me = None
            self.back.release()

        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        made, alts, stuck = [], [], None
        while any(w is not None for w in self.want):
            en = self.enabled(cap)
            if not en:
                stuck = "all threads wait forever"
                break
            # starting a thread is no choice: nothing happens before its first operation
            fresh = [i for i in en if self.want[i][0] == "start"]
            if fresh:
                c = fresh[0]
            else:
                c = prefix[len(made)] if len(made) < len(prefix) else en[0]
                if c not in en:
                    stuck = "the choices do not repeat"
                    break
                made.append(c)
                alts.append(en)
                kind, handle, _ = self.want[c]
                order.setdefault((kind, _hid(handle)), []).append(c)
            self.go[c].release()
            if not self.back.acquire(timeout=60):
                stuck = "an operation that has room or a value does not end"
                break
        self.dead = True
        for i in range(n):
            if self.want[i] is not None:
                self.go[i].release()
        for t in ts:
            t.join(5)
        return made, alts, order, stuck, errs


def _hid(handle):
    return (handle.device, id(handle))


def _explore(ck, cls, fx, cap, plan, limit):
    """All interleavings of producers and consumers at the granularity of operations on the two servers' queues.
    plan: list of ("p"|"c", count). Values are told apart by what they are."""
    prot = _prot(cls, fx)
    total = sum(k for a, k in plan if a == "p")
    xs = [prot.define_private_variable(_val(k, (2,))) for k in range(total)]
    want = [_open(prot, x) for x in xs]
    prods = [i for i, (a, _) in enumerate(plan) if a == "p"]
    cons = [i for i, (a, _) in enumerate(plan) if a == "c"]
    sched = Sched()
    sched.install()
    known = 0
    try:
        todo, runs, st = [()], 0, 0
        while todo:
            prefix = todo.pop()
            q = tfe.queue.FIFOQueue(cap, (2,), shared_name=uuid.uuid4().hex)
            got = {}
            bodies, base = [], 0
            for i, (a, k) in enumerate(plan):
                if a == "p":
                    def body(base=base, k=k):
                        for j in range(k):
                            q.enqueue(xs[base + j])
                    base += k
                else:
                    def body(i=i, k=k):
                        got[i] = []
                        for j in range(k):
                            got[i].append(q.dequeue())
                bodies.append(body)
            made, alts, order, stuck, errs = sched.run(bodies, cap, prefix)
            runs += 1
            st += len(made)
            for d in range(len(prefix), len(made)):
                todo.extend(tuple(made[:d]) + (o,) for o in alts[d] if o != made[d])
            if errs:
                raise errs[0]
            es = [v for (kind, _), v in order.items() if kind == "e"]
            ds = [v for (kind, _), v in order.items() if kind == "d"]
            mixed = any(v != es[0] for v in es) or any(v != ds[0] for v in ds)
            bad = stuck
            if not bad:
                # exactly once, whole, and in each producer's order at each consumer
                rest = [q.dequeue() for _ in range(int(q.size()))]
                seqs = [[_open(prot, y).tolist() for y in got[i]] for i in cons] + [[_open(prot, y).tolist() for y in rest]]
                w = [v.tolist() for v in want]
                flat = [v for s in seqs for v in s]
                if sorted(map(str, flat)) != sorted(map(str, w)):
                    bad = "got %s of %s" % (flat, w)
                elif len(prods) == 1 and len(cons) <= 1 and flat != w:
                    bad = "order %s" % flat
                else:
                    for s in seqs:
                        idx = [w.index(v) for v in s]
                        base = 0
                        for i in prods:
                            mine = [j for j in idx if base <= j < base + plan[i][1]]
                            if mine != sorted(mine):
                                bad = "order of producer %d: %s" % (i, mine)
                            base += plan[i][1]
            if bad and mixed and (len(prods) > 1 or len(cons) > 1):
                # two producers (or consumers) whose operations reach the two servers in different orders
                known += 1
                continue
            if bad:
                ck.fail("interleaving %s: %s" % (made, bad))
            if runs > limit:
                ck.fail("more interleavings than the bound")
        if known:
            ck.fail("%d of %d interleavings of concurrent %s mix shares of different values" % (known, runs, "producers" if len(prods) > 1 else "consumers"),
                    key="finding:concurrent-producers" if len(prods) > 1 else "finding:concurrent-consumers")
        ck.count(0, states=st, transitions=st, traces=runs, sample="%s capacity %d: %d interleavings" % (plan, cap, runs))
    finally:
        sched.remove()


# -- serving --------------------------------------------------------------------------------------

W = np.array([[1.0, -2.0, 0.5], [3.0, 0.25, -1.0]])


def _comps(prot):
    w = prot.define_private_variable(W)
    p = prot.define_public_variable(W)
    return {
        "same": ((2,), (2,), lambda x: x, lambda v: v),
        "double": ((2,), (2,), lambda x: x + x, lambda v: 2 * v),
        "matmul": ((1, 2), (1, 3), lambda x: prot.matmul(x, w), lambda v: v @ W),
        "public": ((2, 2), (2, 3), lambda x: prot.matmul(x, p) * 2, lambda v: v @ W * 2),
        "square": ((3,), (3,), lambda x: prot.mul(x, x), lambda v: v * v),
    }


def _serve(ck, cls, fx, comp, cap_in, cap_out, depth, clients):
    prot = _prot(cls, fx, mode="real")
    shp, out, f, g = _comps(prot)[comp]
    names = [uuid.uuid4().hex, uuid.uuid4().hex]
    kw = dict(input_queue_capacity=cap_in, input_queue_name=names[0], output_queue_capacity=cap_out, output_queue_name=names[1])
    server = QueueServer(shp, out, f, **kw)
    cl = [QueueClient(shp, out, **kw) for _ in range(clients)]
    acts = [("send", i) for i in range(clients)] + [("step", 0)] + [("recv", i) for i in range(clients)]
    tol = 0.02
    n = st = 0
    for seq in itertools.product(acts, repeat=depth):
        i = o = 0
        ok = True
        for a, _ in seq:
            if a == "send":
                i += 1
            elif a == "step":
                i -= 1
                o += 1
            else:
                o -= 1
            ok = ok and 0 <= i <= cap_in and 0 <= o <= cap_out
        if not ok:
            continue
        k, done, ins, outs = 0, 0, deque(), deque()
        for j, (a, c) in enumerate(seq + (("drain", 0),)):
            if a == "drain":
                while ins or outs:
                    if outs:
                        v = np.asarray(cl[0].receive_output())
                        ck.close(v, g(outs.popleft()), tol, "draining after %s" % (seq,))
                    else:
                        server.run(num_steps=1)
                        outs.append(ins.popleft())
            elif a == "send":
                v = _val(n % 3 + 2 * k, shp)
                cl[c].send_input(v)
                ins.append(v)
                k += 1
            elif a == "step":
                server.run(num_steps=1)
                outs.append(ins.popleft())
            else:
                v = np.asarray(cl[c].receive_output())
                ck.close(v, g(outs.popleft()), tol, "step %d of %s" % (j, seq))
            st += 1
        n += 1
    ck.count(0, states=st, transitions=st, traces=n, sample="%s: %d histories of requests" % (comp, n))


def _serve_runs(ck, cls, fx):
    """Batches of steps, a function after each step, and stopping through it."""
    prot = _prot(cls, fx, mode="real")
    shp, out, f, g = _comps(prot)["double"]
    names = [uuid.uuid4().hex, uuid.uuid4().hex]
    kw = dict(input_queue_name=names[0], output_queue_name=names[1])
    server = QueueServer(shp, out, f, **kw)
    client = QueueClient(shp, out, **kw)
    for k in range(0, 6):
        for steps in [i for i in range(k + 1)]:
            for how in ("plain", "fn", "raise", "endless"):
                if how in ("raise", "endless") and steps == 0:
                    continue
                vs = [_val(j + k, shp) for j in range(k)]
                for v in vs:
                    client.send_input(v)
                calls = []

                def fn():
                    calls.append(int(client.output_queue.size()))
                    if how != "fn" and len(calls) == steps:
                        raise StopIteration("enough")

                try:
                    if how == "plain":
                        server.run(num_steps=steps)
                    elif how == "fn":
                        server.run(num_steps=steps, step_fn=fn)
                    elif how == "raise":
                        server.run(num_steps=k + 5, step_fn=fn)
                    else:
                        server.run(step_fn=fn)
                except StopIteration:
                    ck.true(how in ("raise", "endless"), "no exception is expected")
                if how != "plain":
                    ck.eq(calls, list(range(1, steps + 1)), "the function is called once after each step (%s)" % how)
                for j in range(steps):
                    ck.close(np.asarray(client.receive_output()), g(vs[j]), 0.02, "request %d of %d, %d steps" % (j, k, steps))
                ck.eq(int(client.output_queue.size()), 0, "no more answers than steps")
                ck.eq(int(client.input_queue.size()), k - steps, "requests left")
                server.run(num_steps=k - steps)
                for j in range(steps, k):
                    ck.close(np.asarray(client.receive_output()), g(vs[j]), 0.02, "late request %d of %d" % (j, k))
                ck.count(0, states=k + 1, transitions=k + 1, traces=1)
    # requests that are refused leave no trace
    for bad in (np.zeros((3,)), np.zeros((1, 2)), [1.0, 2.0], np.float64(1)):
        try:
            client.send_input(bad)
        except Exception:
            pass
        else:
            ck.fail("a request of another shape was accepted")
        ck.eq(int(client.input_queue.size()), 0, "a refused request leaves nothing")
    # asking and waiting while the server runs
    t = threading.Thread(target=lambda: server.run(num_steps=8), daemon=True)
    t.start()
    for k in range(8):
        ck.close(np.asarray(client.run(_val(k, shp))), g(_val(k, shp)), 0.02, "request %d to a running server" % k)
    t.join(60)
    ck.true(not t.is_alive(), "the server ends after its steps")


def run(ck):
    q = ck.quick
    for cls in (Pond, SecureNN):
        for fx in FX:
            tag = "%s-%s" % (cls.__name__, "i" if fx is pd.fixed64 else "ni")
            first = cls is Pond and fx is pd.fixed64
            for cap in (1, 2, 3):
                ck.case("histories/%s/cap%d" % (tag, cap), _histories, ck, cls, fx, cap, (7 if first else 5) if q else 8, 1, 1, (2,), True, False)
            ck.case("histories2/%s/unnamed" % tag, _histories, ck, cls, fx, 2, (4 if first else 3) if q else 5, 2, 1, (2,), False, False)
            ck.case("histories2/%s/unnamed-one-device" % tag, _histories, ck, cls, fx, 2, (4 if first else 3) if q else 5, 2, 1, (2,), False, True)
            ck.case("histories2/%s/named-two-handles" % tag, _histories, ck, cls, fx, 2, 3 if q else 4, 2, 2, (2,), True, False)
            ck.case("histories/%s/one-device" % tag, _histories, ck, cls, fx, 2, 4 if q else 6, 1, 2, (), True, True)
            for shape in ((), (1,), (2,), (2, 3), (1, 1, 2), (2, 3, 2, 1)):
                ck.case("shapes/%s/%s" % (tag, "x".join(map(str, shape))), _shapes, ck, cls, fx, shape)
            ck.case("reassigned/%s" % tag, _reassigned, ck, cls, fx)
            ck.case("rejected/%s" % tag, _rejected, ck, cls, fx)
            ck.case("placement/%s" % tag, _placement, ck, cls, fx)
            for d in (1, 2, 3) if q else (1, 2, 3, 4):
                if first or d < 3 or not q:
                    ck.case("functions/%s/%d" % (tag, d), _functions, ck, cls, fx, d)
            plans = [(1, [("p", 2), ("c", 2)]), (2, [("p", 3), ("c", 3)]), (1, [("p", 3), ("c", 3)]), (3, [("p", 3), ("c", 2)])]
            if not q:
                plans += [(2, [("p", 4), ("c", 4)]), (3, [("p", 4), ("c", 4)])]
            for cap, plan in plans if first or not q else plans[:1]:
                ck.case("interleave/%s/cap%d/%s" % (tag, cap, "".join(a * k for a, k in plan)), _explore, ck, cls, fx, cap, plan, 20000)
            if first:
                for cap, plan in [(4, [("p", 1), ("p", 1)]), (4, [("p", 2), ("p", 1)]), (1, [("p", 1), ("p", 1), ("c", 2)]),
                                  (4, [("p", 2), ("c", 1), ("c", 1)])] + ([] if q else [(4, [("p", 2), ("p", 2)]), (4, [("p", 3), ("c", 2), ("c", 1)])]):
                    ck.case("interleave/%s/cap%d/%s" % (tag, cap, "-".join(a * k for a, k in plan)), _explore, ck, cls, fx, cap, plan, 50000)
            for comp in ("same", "double", "matmul", "public", "square"):
                d = 6 if q else 8
                if first or comp in ("double", "matmul") or not q:
                    ck.case("serve/%s/%s" % (tag, comp), _serve, ck, cls, fx, comp, 2, 3, d if first else 4, 1)
            if first or not q:
                ck.case("serve/%s/two-clients" % tag, _serve, ck, cls, fx, "double", 2, 2, 4 if q else 6, 2)
                ck.case("serve/%s/cap1" % tag, _serve, ck, cls, fx, "double", 1, 1, 8, 1)
            ck.case("runs/%s" % tag, _serve_runs, ck, cls, fx)
