"""C09: masks are never reused and the servers' generators stay in step."""
import itertools

import numpy as np

from vlib import a3, pd, rt
from vlib.a3 import A, B as BO
import tensorflow as tf
import tf_encrypted as tfe


# -- judging the log of draws ----------------------------------------------------------------------
class Log:
    """Draws of a session, cut into steps (one protocol call each)."""

    def __init__(self):
        self.keys = None
        self.steps = []

    def begin(self):
        self.keys = set(rt.TAPE.issued)
        rt.TAPE.draws.clear()
        rt.RECORD_DRAWS[0] = True

    def cut(self, name):
        self.steps.append((name, list(rt.TAPE.draws)))
        rt.TAPE.draws.clear()

    def end(self):
        rt.RECORD_DRAWS[0] = False


def judge(ck, log, what, key_servers=True):
    fresh = set(rt.TAPE.issued) - log.keys
    used = {}  # derived seed -> (step, params)
    params = {}
    n = 0
    for i, (name, draws) in enumerate(log.steps):
        here = {}
        for seed, shape, lo, hi, dt, d in draws:
            n += 1
            q = (shape, lo, hi, dt)
            if params.setdefault(seed, q) != q:
                ck.fail("%s: step %d (%s) draws %s from a seed that already gave %s" % (what, i, name, q, params[seed]))
            if seed in fresh:
                continue  # a seed of its own: expanding it again gives the same mask again
            if seed in used and used[seed][0] != i:
                ck.fail("%s: step %d (%s) on device %d draws from the seed that step %d (%s) already used" % (
                    what, i, name, d, used[seed][0], used[seed][1]))
            used[seed] = (i, name)
            here.setdefault(seed, []).append(d)
        for seed, ds in here.items():
            if len(ds) != len(set(ds)):
                ck.fail("%s: step %d (%s): a server draws two masks from one seed" % (what, i, name))
            if key_servers and len(ds) < 2:
                ck.fail("%s: step %d (%s): only one holder of a shared key draws (servers out of step)" % (what, i, name))
    ck.count(n, states=len(log.steps), transitions=n, traces=1)
    return n


# -- ABY3 ------------------------------------------------------------------------------------------
def P(p, v, **kw):
    return a3.private(p, v, **kw)


def ops():
    v = np.array([[3, -7], [2, 11]])
    m = {
        "mul": lambda p, e: e["x"] * e["y"],
        "square": lambda p, e: e["x"] * e["x"],
        "mul-scaled": lambda p, e: e["xs"] * e["ys"],
        "mul_trunc2": lambda p, e: p.mul_trunc2(e["xs"], e["ys"]),
        "matmul": lambda p, e: p.matmul(e["x"], e["y"]),
        "conv2d": lambda p, e: p.conv2d(e["im"], e["k"], [1, 1], "VALID"),
        "and": lambda p, e: e["bx"] & e["by"],
        "or": lambda p, e: e["bx"] | e["by"],
        "and-bit": lambda p, e: e["b"] & e["b2"],
        "ppa": lambda p, e: p.ppa(e["bx"], e["by"]),
        "ppa-sk": lambda p, e: p.ppa(e["bx"], e["by"], topology="sklansky"),
        "a2b": lambda p, e: p.a2b(e["x"]),
        "b2a": lambda p, e: p.b2a(e["bx"]),
        "b2a-single": lambda p, e: p.b2a_single(e["b"]),
        "b2a-4": lambda p, e: p.b2a(e["bx"], 4),
        "bit_extract": lambda p, e: p.bit_extract(e["x"], 5),
        "msb": lambda p, e: p.msb(e["x"]),
        "mul_ab": lambda p, e: p.mul_ab(e["x"], e["b"]),
        "mul_ab-public": lambda p, e: p.mul_ab(e["c"], e["b"]),
        "select": lambda p, e: p.select(e["b"], e["x"], e["y"]),
        "truncate": lambda p, e: p.truncate(e["x"]),
        "truncate-local": lambda p, e: p.truncate(e["x"], method="local"),
        "secureq8": lambda p, e: p.truncate_msb0(e["x"], method="secureq8", amount=3),
        "cheetah": lambda p, e: p.truncate_msb0(e["x"], method="cheetah", amount=3),
        "less": lambda p, e: e["x"] < e["y"],
        "equal_zero": lambda p, e: p.equal_zero(e["x"]),
        "maximum": lambda p, e: p.maximum(e["x"], e["y"]),
        "reduce_max": lambda p, e: p.reduce_max(e["x"], axis=1),
        "random": lambda p, e: p._gen_random_sharing([2, 2], share_type=BO),
        "reveal": lambda p, e: e["x"].reveal(),
        "share": lambda p, e: P(p, np.array([[1, 2], [3, 4]])),
        "share-bool": lambda p, e: P(p, np.array([[1, 2], [3, 4]]), share=BO),
    }
    return m


HEAVY = {"exp": lambda p, e: p.exp(e["xs"]), "reciprocal": lambda p, e: p.reciprocal(e["xs"]), "sort": lambda p, e: p.sort(e["x"], 0),
         "sigmoid": lambda p, e: p.sigmoid(e["xs"]), "log": lambda p, e: p.log(e["xs"]), "inv_sqrt": lambda p, e: p.inv_sqrt(e["xs"]),
         "argmax": lambda p, e: p.argmax(e["x"], axis=0), "maxpool": lambda p, e: p.maxpool2d(e["im"], [2, 2], [1, 1], "VALID"),
         "pow": lambda p, e: p.pow(e["x"], 5), "softmax": lambda p, e: p.softmax(e["xs"]), "relu": lambda p, e: p.relu(e["x"]),
         "equal": lambda p, e: p.equal(e["x"], e["y"]), "pow2": lambda p, e: p.polynomial(e["xs"], [1.0, 0.5, 2.0])}


def env(p):
    v = np.array([[3, -7], [2, 11]])
    w = np.array([[1, 5], [-4, 6]])
    return dict(x=P(p, v), y=P(p, w), xs=P(p, np.abs(v) / 16, scaled=True), ys=P(p, w / 8, scaled=True),
                bx=P(p, v, share=BO), by=P(p, w, share=BO), b=P(p, v & 1, share=BO, factory=a3.BOOL), b2=P(p, w & 1, share=BO, factory=a3.BOOL),
                im=P(p, np.arange(9).reshape(1, 1, 3, 3)), k=P(p, np.arange(4).reshape(2, 2, 1, 1)), c=a3.public(p, v))


def _seq(ck, seq, cfg, table):
    p = rt.aby3(cfg)
    e = env(p)
    log = Log()
    log.begin()
    log.keys = set(rt.TAPE.issued[: KEYS[cfg]])
    try:
        for n in seq:
            table[n](p, e)
            log.cut(n)
    finally:
        log.end()
    return judge(ck, log, " then ".join(seq))


KEYS = {}


def _learn_keys(cfg):
    """How many seeds building the protocol hands out: those are the shared keys."""
    rt.aby3(cfg)
    KEYS[cfg] = len(rt.TAPE.issued)


def _singles(ck, cfg, n, table):
    # three times in a row, and around a sharing
    _seq(ck, [n, n, n], cfg, table)
    t = dict(table)
    t.update(ops())
    _seq(ck, [n, "share", n, "mul", n], cfg, t)


def _pairs(ck, cfg, f):
    t = ops()
    p = rt.aby3(cfg)
    e = env(p)
    n = 0
    for g in t:
        log = Log()
        log.begin()
        log.keys = set(rt.TAPE.issued[: KEYS[cfg]])
        try:
            for s in (f, g, f):
                t[s](p, e)
                log.cut(s)
        finally:
            log.end()
        n += judge(ck, log, "%s, %s, %s" % (f, g, f))


def _long(ck, cfg):
    """One session with every operation, twice: no seed comes up again."""
    t = ops()
    t.update(HEAVY)
    names = list(t)
    _seq(ck, names + names[::-1], cfg, t)


def _reset(ck, cfg):
    """A new protocol (or a reset one) has new keys."""
    seen = set()
    for i in range(4):
        rt.use_config()
        from tf_encrypted.protocol import ABY3
        if i == 0:
            rt.set_mode("det")
            p = ABY3(fixedpoint_config=cfg)
        elif i == 1:
            p.reset()
        else:
            p = ABY3(fixedpoint_config=cfg)
        tfe.set_protocol(p)
        e = env(p)
        rt.TAPE.draws.clear()
        rt.RECORD_DRAWS[0] = True
        for n in ("mul", "a2b", "b2a", "secureq8", "mul_ab", "random"):
            ops()[n](p, e)
        rt.RECORD_DRAWS[0] = False
        now = {d[0] for d in rt.TAPE.draws}
        ck.true(not now & seen, "session %d draws from seeds of an earlier session" % i)
        seen |= now
    ck.count(len(seen), states=4, transitions=24, traces=1)


def _shares(ck):
    """Every sharing has seeds of its own, and its shares are new each time."""
    for cfg in ("low", "high"):
        for share in (A, BO):
            p = rt.aby3(cfg)
            rt.RECORD_DRAWS[0] = True
            seen = set()
            try:
                for i in range(6):
                    rt.TAPE.draws.clear()
                    v = np.array([5, 6])
                    if i % 3 == 0:
                        P(p, v, share=share)
                    elif i % 3 == 1:
                        p.define_private_input("input-provider", lambda: tf.constant(v), apply_scaling=False, share_type=share)
                    else:
                        a3.const(p, v).to_private(share)
                    now = {d[0] for d in rt.TAPE.draws}
                    ck.true(i % 3 == 2 or len(now) >= 2, "a sharing needs two masks")
                    ck.true(not now & seen, "sharing %d reuses a seed" % i)
                    seen |= now
            finally:
                rt.RECORD_DRAWS[0] = False
            ck.count(len(seen), states=6, transitions=6, traces=1)


# -- graph functions: every call draws anew ----------------------------------------------------------
GRAPH = ["mul", "matmul", "and", "a2b", "b2a", "mul_ab", "select", "secureq8", "cheetah", "truncate", "truncate-local", "less", "maximum", "b2a-single", "mul_trunc2",
         "mul-scaled", "conv2d", "ppa", "bit_extract"]


def sh(x):
    return [a3.ints(x.unwrapped[i][0]) for i in range(3)]


def _graph(ck, n, shared):
    p = rt.aby3("low", shared=shared)
    e = env(p)
    op = ops()[n]
    names = ["x", "y", "xs", "ys", "bx", "by", "b", "b2", "im", "k"]

    @tfe.function
    def f(*args):
        q = dict(zip(names, args))
        q["c"] = e["c"]
        return op(p, q), op(p, q)

    outs = []
    for _ in range(3):
        a, b = f(*[e[k] for k in names])
        outs += [sh(a), sh(b)]
    want = a3.open_any(p, a, devices=False)
    for i, j in itertools.combinations(range(len(outs)), 2):
        same = all(np.array_equal(outs[i][s], outs[j][s]) for s in range(3))
        # one-bit results can coincide by chance in 2 of 3 shares of 4 elements: ask for bits only across all runs
        if n in ("less", "and-bit", "bit_extract"):
            continue
        ck.true(not same, "runs %d and %d of %s gave the same shares" % (i, j, n))
    if n in ("less", "and-bit", "bit_extract"):
        allsame = all(np.array_equal(outs[0][s], o[s]) for o in outs for s in range(3))
        ck.true(not allsame, "all runs of %s gave the same shares" % n)
    ck.count(len(outs), states=len(outs), transitions=3, traces=3)


def _graph_share(ck):
    p = rt.aby3("low")

    @tfe.function
    def f(x):
        a = tfe.define_private_input("input-provider", lambda: tf.constant([7, 8]), apply_scaling=False)
        b = tfe.define_private_input("input-provider", lambda: tf.constant([7, 8]), apply_scaling=False)
        return a + x, b + x

    x = P(p, np.array([0, 0]))
    outs = []
    for _ in range(3):
        outs += [sh(o) for o in f(x)]
    for i, j in itertools.combinations(range(len(outs)), 2):
        for s in range(3):
            ck.true(not np.array_equal(outs[i][s], outs[j][s]), "sharings %d and %d have the same share %d" % (i, j, s))


def _graph_loop(ck, n):
    """Every step of a loop inside a function draws masks of its own, and the servers stay in step."""
    p = rt.aby3("low")
    steps = 5
    op = {"mul": lambda z: z * z, "matmul": lambda z: p.matmul(z, z), "select": lambda z: p.select(z < z, z, z), "b2a": lambda z: p.b2a(p.a2b(z), 64)}[n]

    @tfe.function
    def f(z, acc):
        def body(i, z, acc):
            z = op(z)
            row = p.define_constant(tf.one_hot(i, steps, dtype=tf.int64)[:, None, None], apply_scaling=False)
            return i + 1, z, acc + z * row
        return p.while_loop(lambda i, z, acc: i < steps, body, [tf.constant(0), z, acc])[2]

    z = P(p, np.zeros((2, 2), dtype=np.int64))
    acc = P(p, np.zeros((steps, 2, 2), dtype=np.int64))
    base = sh(acc)
    rows = []
    for _ in range(2):
        r = f(z, acc)
        ck.eq(a3.open_private(p, r), np.zeros((steps, 2, 2)), "a loop of %s" % n)
        rows += [[s[i] - b[i] for s, b in zip(sh(r), base)] for i in range(steps)]
    for i, j in itertools.combinations(range(len(rows)), 2):
        for s in range(3):
            ck.true(not np.array_equal(rows[i][s], rows[j][s]), "%s: steps %d and %d have the same share %d" % (n, i, j, s))
    ck.count(len(rows), states=len(rows), transitions=len(rows), traces=2)


# -- Pond and SecureNN -----------------------------------------------------------------------------
def pond_ops():
    t = {
        "mul": lambda p, x, y: x * y,
        "square": lambda p, x, y: p.square(x),
        "matmul": lambda p, x, y: p.matmul(x, y),
        "mask": lambda p, x, y: p.mask(x),
        "truncate": lambda p, x, y: p.truncate(x),
        "share": lambda p, x, y: p.define_private_variable(np.array([[1., 2.], [3., 4.]])),
    }
    s = dict(t)
    s.update({"msb": lambda p, x, y: p.msb(x), "relu": lambda p, x, y: p.relu(x), "select": lambda p, x, y: p.select(p.msb(y), x, y)})
    return t, s


def _pondseq(ck, which, seq):
    """Different variables and different steps never share a seed, unless the step works on the same masked value."""
    p = pd.pond() if which == "pond" else pd.pond(cls=pd.SecureNN)
    t = pond_ops()[0 if which == "pond" else 1]
    rt.RECORD_DRAWS[0] = True
    try:
        seen, params = {}, {}
        for i, n in enumerate(seq):
            rt.TAPE.draws.clear()
            x = p.define_private_variable(np.array([[1.5, -2.], [3., 0.25]]))
            y = p.define_private_variable(np.array([[-1., 2.], [0.5, 4.]]))
            p.reveal(t[n](p, x, y)) if n not in ("mask",) else t[n](p, x, y)
            for seed, shape, lo, hi, dt, d in rt.TAPE.draws:
                if seed in seen and seen[seed] != i:
                    ck.fail("%s: step %d (%s) on new values draws from a seed of step %d" % (which, i, n, seen[seed]))
                seen[seed] = i
                if params.setdefault(seed, (shape, lo, hi, dt)) != (shape, lo, hi, dt):
                    ck.fail("%s: step %d (%s): one seed gives two different masks %s and %s" % (which, i, n, params[seed], (shape, lo, hi, dt)))
        ck.count(len(seen), states=len(seq), transitions=len(seen), traces=1)
    finally:
        rt.RECORD_DRAWS[0] = False


def run(ck):
    for cfg in ("low", "high"):
        _learn_keys(cfg)
    t = ops()
    for n in t:
        for cfg in ("low", "high"):
            if cfg == "high" and n == "ppa-sk":
                continue
            ck.case("single/%s/%s" % (cfg, n), _singles, ck, cfg, n, t, kind="sequence")
    for n in HEAVY:
        ck.case("heavy/%s" % n, _singles, ck, "low", n, HEAVY, kind="sequence")
    for f in t:
        ck.case("pairs/%s" % f, _pairs, ck, "low", f, kind="sequence")
    ck.case("session", _long, ck, "low", kind="sequence")
    ck.case("reset", _reset, ck, "low", kind="sequence")
    ck.case("sharings", _shares, ck, kind="sharing")
    for n in GRAPH:
        ck.case("graph/%s" % n, _graph, ck, n, False, kind="graph")
    ck.case("graph/share", _graph_share, ck, kind="graph")
    for n in ("mul", "matmul", "select", "b2a"):
        ck.case("graph/loop-%s" % n, _graph_loop, ck, n, kind="graph")
    for w in ("pond", "securenn"):
        names = list(pond_ops()[0 if w == "pond" else 1])
        for n in names:
            ck.case("%s/%s" % (w, n), _pondseq, ck, w, [n, n] + names, kind="pond")
    if not ck.quick:
        for f, g in itertools.product(t, repeat=2):
            ck.case("triples/%s/%s" % (f, g), lambda f=f, g=g: [_seq(ck, [f, g, h, f], "low", t) for h in t], kind="sequence")
