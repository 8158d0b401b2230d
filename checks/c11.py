"""C11: neither Pond server nor the triple producer learns private values."""
import itertools

import numpy as np

from vlib import pd, rt, secrecy, smallring
import tensorflow as tf
from tf_encrypted.protocol.pond.pond import PondPrivateTensor

PARTIES = [1, 2, 3, 0]
NAMES = {1: "server 0", 2: "server 1", 3: "the triple producer", 0: "the machine where unplaced operations run"}
SWAPS = {"0": [0.25], "1": [0.75], "01": [0.25, 0.75], "10": [0.75, 0.25], "001": [0.25, 0.25, 0.75]}


def dom(k):
    return np.arange(-(1 << (k - 1)), 1 << (k - 1)) if k > 1 else np.array([0, 1])


class hidden:
    """The owner of a value shares it: what happens meanwhile on the default device is the owner's own view."""

    def __enter__(self):
        rt.VIEWS.blind.add(0)

    def __exit__(self, *a):
        rt.VIEWS.blind.discard(0)


def P(p, v, scaled=False):
    with hidden():
        x = pd.private(p, v)
    x.is_scaled = scaled
    return x


def M(p, v):
    return p.mask(P(p, v))


def U(p, v):
    return pd.public(p, np.asarray(v))


def col(v, *more):
    return np.stack([v] + list(more), axis=1)


def mat(x, y):
    return col(x, y)[:, None, :]


OPS = {
    "share": (3, lambda p, x: P(p, x), 1),
    "add": (2, lambda p, x, y: P(p, x) + P(p, y), 2),
    "add-public": (2, lambda p, x: P(p, x) + U(p, [1]), 1),
    "public-add": (2, lambda p, x: U(p, [1]) + P(p, x), 1),
    "add-number": (2, lambda p, x: P(p, x) + 1, 1),
    "sub": (2, lambda p, x, y: P(p, x) - P(p, y), 2),
    "sub-public": (2, lambda p, x: P(p, x) - U(p, [1]), 1),
    "public-sub": (2, lambda p, x: U(p, [1]) - P(p, x), 1),
    "neg": (2, lambda p, x: P(p, x).negative(), 1),
    "mask": (3, lambda p, x: M(p, x), 1),
    "mask-vec": (2, lambda p, x, y: M(p, col(x, y)), 2),
    "mul": (2, lambda p, x, y: P(p, x) * P(p, y), 2),
    "mul3": (3, lambda p, x, y: P(p, x) * P(p, y), 2, (-4, 3)),
    "mul-mp": (2, lambda p, x, y: M(p, x) * P(p, y), 2),
    "mul-pm": (2, lambda p, x, y: P(p, x) * M(p, y), 2),
    "mul-public": (2, lambda p, x: P(p, x) * U(p, [-1]), 1),
    "public-mul": (2, lambda p, x: U(p, [-1]) * P(p, x), 1),
    "masked-public": (2, lambda p, x: M(p, x) * U(p, [-1]), 1),
    "mul-same": (2, lambda p, x: (lambda s: s * s)(P(p, x)), 1),
    "mul-chain": (1, lambda p, x, y, z: P(p, x) * P(p, y) * P(p, z), 3),
    "mul-twice": (2, lambda p, x, y: (lambda a, b: (a * b, a * a, b * b))(P(p, x), P(p, y)), 2, (-2, 1)),
    "square": (2, lambda p, x: p.square(P(p, x)), 1),
    "square-mul": (2, lambda p, x: (lambda s: p.square(s) * s)(P(p, x)), 1),
    "mul-vector": (1, lambda p, x, y: P(p, col(x, y)) * P(p, col(y, x)), 2),
    "mul-broadcast": (1, lambda p, x, y, z: P(p, x[:, None]) * P(p, col(y, z)), 3),
    "mul-broadcast-left": (1, lambda p, x, y, z: P(p, col(y, z)) * P(p, x[:, None]), 3),
    "matmul": (1, lambda p, x, y, z: p.matmul(P(p, col(x, y)), P(p, np.array([[1, 0], [1, 1]]))), 3),
    "matmul-batch": (1, lambda p, x, y, z: p.matmul(P(p, mat(x, y)), P(p, col(z, x)[:, :, None])), 3),
    "matmul-public": (2, lambda p, x, y: p.matmul(P(p, col(x, y)), U(p, [[1, -1], [0, 1]])), 2),
    "matmul-masked-public": (1, lambda p, x, y: p.matmul(M(p, col(x, y)), U(p, [[1, -1], [0, 1]])), 2),
    "public-matmul": (2, lambda p, x, y: p.matmul(U(p, [[[1, -1], [0, 1]]]), P(p, col(x, y)[:, :, None])), 2),
    "conv2d": (1, lambda p, x, y: p.conv2d(P(p, col(x, y, x, y).reshape(-1, 1, 2, 2)), P(p, np.ones((1, 1, 1, 1), dtype=np.int64)), (1, 1), "VALID"), 2),
    "conv2d-masked": (1, lambda p, x, y: p.conv2d(M(p, col(x, y, x, y).reshape(-1, 1, 2, 2)), P(p, np.ones((1, 1, 1, 1), dtype=np.int64)), (1, 1), "VALID"), 2),
    "sum": (2, lambda p, x, y: p.reduce_sum(P(p, col(x, y)), axis=1), 2),
    "cumsum": (2, lambda p, x, y: p.cumsum(P(p, col(x, y)), axis=1), 2),
    "transpose": (2, lambda p, x, y: p.transpose(P(p, mat(x, y)), [0, 2, 1]), 2),
    "reshape": (2, lambda p, x, y: p.reshape(P(p, mat(x, y)), [len(x), 2]), 2),
    "concat": (2, lambda p, x, y: p.concat([P(p, x[:, None]), P(p, y[:, None])], axis=1), 2),
    "stack": (2, lambda p, x, y: p.stack([P(p, x), P(p, y)], axis=1), 2),
    "split": (2, lambda p, x, y: p.split(P(p, col(x, y)), 2, axis=1), 2),
    "slice": (2, lambda p, x, y: P(p, col(x, y))[:, 0], 2),
    "gather": (2, lambda p, x, y: p.gather(P(p, col(x, y)), [1, 0], axis=1), 2),
    "pad": (2, lambda p, x, y: p.pad(P(p, col(x, y)), [(0, 0), (1, 0)]), 2),
    "expand": (2, lambda p, x: p.expand_dims(P(p, x), axis=1), 1),
    "squeeze": (2, lambda p, x: p.squeeze(P(p, x[:, None]), axis=[1]), 1),
    "identity": (2, lambda p, x: p.identity(P(p, x)), 1),
    "masked-transpose": (1, lambda p, x, y: p.transpose(M(p, mat(x, y)), [0, 2, 1]), 2),
    "masked-split": (1, lambda p, x, y: p.split(M(p, col(x, y)), 2, axis=1), 2),
    "masked-concat": (1, lambda p, x, y: p.concat([M(p, x[:, None]), M(p, y[:, None])], axis=1), 2),
    "masked-stack": (1, lambda p, x, y: p.stack([M(p, x), M(p, y)], axis=1), 2),
    "masked-slice": (1, lambda p, x, y: M(p, col(x, y))[:, 0], 2),
    "masked-gather": (1, lambda p, x, y: p.gather(M(p, col(x, y)), [1, 0], axis=1), 2),
    "masked-squeeze": (2, lambda p, x: p.squeeze(M(p, x[:, None]), axis=[1]), 1),
    "masked-expand": (2, lambda p, x: p.expand_dims(M(p, x), axis=1), 1),
    "masked-neg-mul": (1, lambda p, x, y: p.negative(M(p, x)) * M(p, y), 2),
    "masked-strided": (1, lambda p, x, y: p.strided_slice(M(p, col(x, y)), [0, 0], [len(x), 1], [1, 1]), 2),
    "masked-reshape": (1, lambda p, x, y: p.reshape(M(p, mat(x, y)), [len(x), 2]), 2),
    "assign": (2, lambda p, x, y: p.assign(P(p, x), P(p, y)), 2),
    "read": (2, lambda p, x: P(p, x).read_value(), 1),
    "trunc-local": (4, lambda p, x: p.truncate(P(p, x, True)), 1),
    "mul-scaled": (3, lambda p, x: (lambda s: s * s)(P(p, x, True)), 1),
    "mul-scaled-public": (3, lambda p, x: P(p, x, True) * p.define_constant(np.array([-0.5])), 1),
    "batch_to_space": (1, lambda p, x, y: p.space_to_batch(P(p, np.tile(x[None, :, None, None], (1, 1, 2, 1))), [1, 2], [[0, 0], [0, 0]]), 2),
}


def _setup(k, sw):
    def setup():
        p = pd.pond(smallring.config(k, frac=1, ni=True), mode="script")
        it = itertools.cycle(SWAPS[sw])
        rt.TAPE.pyrandom = lambda: next(it)
        return p

    return setup


def _op(ck, n, sw):
    k, prog, ns = OPS[n][:3]
    d = dom(k) if len(OPS[n]) < 4 or not ck.quick else OPS[n][3]
    full, skipped = secrecy.check(ck, _setup(k, sw), prog, [d] * ns, PARTIES, NAMES, max_rows=(600000 if ck.quick else 20000000),
                                  assigns=2 if ck.quick else 8, what=n)


REVEALS = {
    "reveal": (lambda p, x, y: (p.reveal(P(p, x)), P(p, y) * P(p, y)), lambda x, y: x),
    "reveal-sum": (lambda p, x, y: p.reveal(P(p, x) + P(p, y)), lambda x, y: (x + y) % 4),
    "reveal-product": (lambda p, x, y: p.reveal(P(p, x) * P(p, y)), lambda x, y: (x * y) % 4),
    "reveal-square": (lambda p, x, y: (p.reveal(p.square(P(p, x))), P(p, y) * P(p, x)), lambda x, y: (x * x) % 4),
    "reveal-slice": (lambda p, x, y: p.reveal(P(p, col(x, y))[:, 0]), lambda x, y: x),
    "reveal-masked": (lambda p, x, y: p.reveal(M(p, x) + P(p, y)), lambda x, y: (x + y) % 4),
}


def _reveal(ck, n, sw):
    """The servers learn the revealed value and no more; the producer learns nothing."""
    prog, group = REVEALS[n]
    d = dom(2)
    secrecy.check(ck, _setup(2, sw), prog, [d, d], [1, 2, 0], NAMES, group=group, max_rows=1500000 if ck.quick else 20000000, what=n)
    secrecy.check(ck, _setup(2, sw), prog, [d, d], [3], NAMES, max_rows=1500000 if ck.quick else 20000000, what=n)


# -- one private input after another: masks are independent ------------------------------------------
STEPS = {
    "mul": lambda p, a, b: a * b,
    "square": lambda p, a, b: p.square(a),
    "matmul": lambda p, a, b: p.matmul(p.reshape(a, [-1, 1, 1]), p.reshape(b, [-1, 1, 1])),
    "mask-sum": lambda p, a, b: p.mask(a + b) * p.mask(b),
    "public": lambda p, a, b: (a * U(p, [3])) * b,
    "neg": lambda p, a, b: p.square(p.negative(a)),
}


def _pair(ck, f, g):
    def prog(p, x, y):
        a, b = P(p, x), P(p, y)
        STEPS[f](p, a, b)
        STEPS[g](p, b, a)

    secrecy.check(ck, _setup(1, "01"), prog, [(0, 1)] * 2, PARTIES, NAMES, max_rows=600000 if ck.quick else 20000000,
                  assigns=2 if ck.quick else 6, what="%s then %s" % (f, g))


# -- interactive truncation hides statistically: measure the distance exactly --------------------------
def _truncate(ck, frac, integral, gap):
    cfg = smallring.config(8, frac=frac, base=3, integral=integral, gap=gap)
    D = cfg.bound_double_precision
    secs = [-D, -D + 1, -1, 0, 1, D // 2, D - 1]
    bits = int(np.ceil(np.log2(D))) + 1 + gap
    shares = np.arange(-128, 128, 5 if ck.quick else 1)

    rt.arm_views()

    def views(v):
        r, s1 = [m.reshape(-1) for m in np.meshgrid(np.arange(1 << bits), shares, indexing="ij")]
        B = len(r)
        p = pd.pond(cfg, mode="script")
        f = p.tensor_factory
        with tf.device(p.server_0.device_name):
            x0 = f.tensor(v - s1)
        with tf.device(p.server_1.device_name):
            x1 = f.tensor(s1)
        rt.TAPE.batch = B
        rt.TAPE.default = lambda c: r
        rt.VIEWS.reset(B, [1, 2, 3, 0])
        rt.VIEWS.on = True
        try:
            p.truncate(PondPrivateTensor(p, x0, x1, True))
        finally:
            rt.VIEWS.on = False
        return {d: rt.VIEWS.hash[d].copy() for d in (1, 2, 3, 0)}, r, s1

    got = [(v,) + views(v) for v in secs]
    n = 0
    for (v, h, r, s1), (w, g, _, _) in itertools.combinations(got, 2):
        for d in (2, 3, 0):
            a, b = np.sort(h[d]), np.sort(g[d])
            ua, ca = np.unique(a, return_counts=True)
            ub, cb = np.unique(b, return_counts=True)
            da, db = dict(zip(ua.tolist(), ca.tolist())), dict(zip(ub.tolist(), cb.tolist()))
            dist = sum(abs(da.get(t, 0) - db.get(t, 0)) for t in set(da) | set(db)) / 2.0 / len(a)
            lim = abs(v - w) / float(1 << bits) if d == 2 else 0.0
            ck.true(dist <= lim + 1e-12, "truncation: what %s sees of %d and of %d differs by %.4f, more than %.4f" % (NAMES[d], v, w, dist, lim))
            n += len(a)
        # server 0 sees its share and its own draws only: for every share the view is a function of the draws
        sa = {}
        for t, q, u in zip((v - s1) % 256, r, h[1]):
            sa[(int(t), int(q))] = u
        for t, q, u in zip((w - s1) % 256, r, g[1]):
            if (int(t), int(q)) in sa:
                if sa[(int(t), int(q))] != u:
                    ck.fail("truncation: server 0 sees more than its share and its mask")
    ck.count(n, states=n, transitions=n, traces=len(secs))


# -- inputs of clients ----------------------------------------------------------------------------------
def _input(ck, masked, sw):
    """A private input is shared at its owner: the others see shares (and masks) only."""
    cols = {}

    def prog(p, x):
        import tf_encrypted as tfe
        y = p.define_private_input("input-provider", lambda: tf.constant(x), apply_scaling=False, masked=masked)
        return y * y

    secrecy.check(ck, _setup(2, sw), prog, [dom(2)], PARTIES, NAMES, max_rows=2000000, what="private input")


def run(ck):
    for n in OPS:
        for sw in ("0", "1") if ck.quick else SWAPS:
            ck.case("op/%s/%s" % (n, sw), _op, ck, n, sw, kind="op")
    for n in REVEALS:
        for sw in ("0", "1"):
            ck.case("reveal/%s/%s" % (n, sw), _reveal, ck, n, sw, kind="reveal")
    for f, g in itertools.product(STEPS, repeat=2):
        ck.case("pair/%s/%s" % (f, g), _pair, ck, f, g, kind="pair")
    for a in ((1, 1, 0), (1, 0, 1), (1, 0, 2)):
        ck.case("truncate/%d/%d/%d" % a, _truncate, ck, *a, kind="truncate")
    for sw in ("0", "1"):
        ck.case("input/%s" % sw, _input, ck, False, sw, kind="input")
