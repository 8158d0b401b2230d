"""C13: none of the three SecureNN parties learns private values."""
import numpy as np

from vlib import pd, rt, secrecy, smallring, words
from checks.c11 import P, M, U, col, dom, hidden, PARTIES, NAMES
import tensorflow as tf
from tf_encrypted.protocol.pond.pond import PondPublicTensor, PondPrivateTensor
from tf_encrypted.protocol.securenn.odd_tensor import oddint32_factory, oddint64_factory
from tf_encrypted.tensor.native import native_factory

NAMES = {1: "server 0", 2: "server 1", 3: "server 2", 0: NAMES[0]}
PRIME = {2: 5, 3: 5, 4: 7}


def _setup(k, flip):
    cfg = smallring.config(k, frac=0, integral=0)

    def setup():
        p = pd.pond(cfg, cls=pd.SecureNN, mode="script", odd_factory=smallring.odd(k), prime_factory=native_factory(tf.int64, PRIME[k]))
        rt.TAPE.pyrandom = lambda: {"0": 0.25, "1": 0.75}[flip]
        return p

    return setup


OPS = {
    "msb": (2, lambda p, x: p.msb(P(p, x)), 1),
    "msb3": (3, lambda p, x: p.msb(P(p, x)), 1),
    "msb-masked": (2, lambda p, x: p.msb(M(p, x)), 1),
    "lsb": (2, lambda p, x: p.lsb(p.cast_backing(P(p, x), p.odd_factory)), 1),
    "nonneg": (2, lambda p, x: p.non_negative(P(p, x)), 1),
    "less": (2, lambda p, x, y: p.less(P(p, x), P(p, y)), 2),
    "less-public": (2, lambda p, x: p.less(P(p, x), U(p, [1])), 1),
    "greater": (2, lambda p, x, y: p.greater(P(p, x), P(p, y)), 2),
    "less_equal": (2, lambda p, x, y: p.less_equal(P(p, x), P(p, y)), 2),
    "greater_equal": (2, lambda p, x, y: p.greater_equal(P(p, x), P(p, y)), 2),
    "select": (2, lambda p, b, x: p.select(P(p, b), P(p, x), P(p, 1 - x)), 2, [(0, 1), None]),
    "and": (2, lambda p, x, y: p.bitwise_and(P(p, x), P(p, y)), 2, [(0, 1)] * 2),
    "or": (2, lambda p, x, y: p.bitwise_or(P(p, x), P(p, y)), 2, [(0, 1)] * 2),
    "xor": (2, lambda p, x, y: p.bitwise_xor(P(p, x), P(p, y)), 2, [(0, 1)] * 2),
    "not": (2, lambda p, x: p.bitwise_not(P(p, x)), 1, [(0, 1)]),
    "relu": (2, lambda p, x: p.relu(P(p, x)), 1),
    "maximum": (2, lambda p, x, y: p.maximum(P(p, x), P(p, y)), 2),
    "reduce_max": (2, lambda p, x, y: p.reduce_max(P(p, col(x, y)), axis=1), 2),
    "argmax": (2, lambda p, x, y: p.argmax(P(p, col(x, y)), axis=1), 2),
}


def _op(ck, n, flip, who):
    k, prog, ns = OPS[n][:3]
    doms = [dom(k)] * ns
    if len(OPS[n]) > 3:
        doms = [d if e is None else np.array(e) for d, e in zip(doms, OPS[n][3])]
    if n in ("argmax", "reduce_max", "maximum", "less", "greater", "less_equal", "greater_equal", "relu"):
        doms = [np.array([-1, 1])] * ns if ck.quick else doms
    full, skipped = secrecy.check(ck, _setup(k, flip), prog, doms, [who], NAMES, max_rows=(3000000 if ck.quick else 40000000),
                                  assigns=2 if ck.quick else 6, what=n)
    ck.true(not skipped, "the space of %s grew beyond the bound: %s" % (n, skipped))


# -- masks of the odd ring ---------------------------------------------------------------------------
def _odd_uniform(ck, bits):
    """Every word but -1 stands for one value, and the sampler maps the words it draws to values one to one."""
    f = {32: oddint32_factory, 64: oddint64_factory}[bits]
    H = 1 << (bits - 1)
    W = sorted({int(w) for c in (0, H - 8, -H, H // 2, -H // 2) for w in range(c - 20, c + 20) if -H < w < H - 1} | set(words.words(bits, 1)) - {-H, H - 1})
    rt.use_config()
    rt.set_mode("script")
    rt.TAPE.batch = len(W)
    rt.TAPE.default = lambda c: np.array(W, dtype=np.int64)
    t = f.sample_uniform([len(W)])
    v = np.asarray(t.value).astype(np.int64).tolist()
    sizes = set(rt.TAPE.domains.values())
    ck.true(sizes and min(sizes) >= (1 << bits) - 2, "the sampler draws from the whole range: %s" % sizes)
    ck.eq(len(set(v)), len(W), "different draws give different values (draws %s)" % [w for w in W if v.count(v[W.index(w)]) > 1][:4])
    ck.true(-1 not in v, "-1 is no value")
    u = f.sample_uniform([len(W)])
    ck.count(len(W), states=len(W), transitions=len(W), traces=1)


HEAVY = ("msb3", "maximum", "argmax", "reduce_max")


def run(ck):
    for bits in (32, 64):
        ck.case("odd-uniform/%d" % bits, _odd_uniform, ck, bits, kind="odd-uniform")
    for n in OPS:
        for flip in "01":
            for who in PARTIES:
                if n in HEAVY and ck.quick and who in (1, 2):
                    continue
                if n == "msb3" and (ck.quick or who != 1 or flip != "0"):
                    continue
                ck.case("op/%s/%s/%d" % (n, flip, who), _op, ck, n, flip, who, kind="op")
