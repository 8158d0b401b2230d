"""C17: secure randomness is in range, reproducible by its seed, and unbiased."""
import fcntl
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from vlib import rt  # noqa: F401
import tensorflow as tf
from tf_encrypted.operations import secure_random as sr

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def build(ck):
    """The kernels' sources with the keystream in our hands; None if the sources do not build this way."""
    d = os.path.join(ck.scratch, "random_kernel")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "k.so")
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(so) and not os.path.exists(so + ".failed"):
            src = os.path.join(REPO, "operations", "secure_random")
            ccs = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cc"))
            cmd = ["g++", "-shared", "-fPIC", "-O2", os.path.join(HERE, "kernel", "stub_sodium.cc")] + ccs + ["-o", so + ".tmp", "-I/opt/vp/compat/include", "-I" + src]
            cmd += tf.sysconfig.get_compile_flags() + tf.sysconfig.get_link_flags() + ["-std=gnu++17", "-lsodium", "-Wl,-Bsymbolic", "-Wl,--allow-multiple-definition"]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                open(so + ".failed", "w").write(p.stdout)
            else:
                os.rename(so + ".tmp", so)
    return so if os.path.exists(so) else None


def _kernel(ck, part):
    so = build(ck)
    if so is None:
        print("kernel sources do not build with the scripted keystream:", open(os.path.join(ck.scratch, "random_kernel", "k.so.failed")).read()[-2000:])
        return
    p = subprocess.run([sys.executable, os.path.join(HERE, "kernel", "random_kernel.py"), so, part, "quick" if ck.quick else "thorough"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except (IndexError, ValueError):
        ck.true(False, "the kernels do not survive %s: exit code %d: %s" % (part, p.returncode, p.stderr[-500:]))
        return
    if not r["controlled"]:
        print("the kernels do not read the scripted keystream: %s not decided" % part)
        return
    for w in r["problems"][:10]:
        ck.true(False, w)
    ck.true(True, part)
    ck.count(r["states"], states=r["states"], transitions=r["states"], traces=r["states"])


# -- the library as users see it ----------------------------------------------------------------------------
DT = {tf.int8: 8, tf.int16: 16, tf.int32: 32, tf.int64: 64}


def seed(i=0):
    return tf.constant((np.arange(8) * 7919 + 12345 * i + 1).astype(np.int32))


def _det(ck):
    """A function of seed and parameters only; whatever the shape, the thread, the mode, the calls in between."""
    n = 0
    for dt, bits in DT.items():
        h = 1 << (bits - 1)
        for lo, hi in ((-h, h - 1), (0, 2), (0, 100), (-5, 77), (0, h // 3 * 2)):
            draw = lambda s, k=seed(): sr.seeded_random_uniform(s, minval=lo, maxval=hi, dtype=dt, seed=k).numpy()
            for size in (1, 2, 7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 129, 1000, 4097):
                a = draw([size])
                for _ in range(2):
                    sr.random_uniform([5], minval=0, maxval=9, dtype=dt)
                    sr.secure_seed()
                    draw([33], seed(5))
                    ck.eq(draw([size]), a, "%s in [%d, %d): the same seed again" % (dt, lo, hi))
                ck.true(a.min() >= lo and a.max() < hi, "%s in [%d, %d): range" % (dt, lo, hi))
                ck.eq(tuple(a.shape), (size,), "shape")
                g = tf.function(lambda k: sr.seeded_random_uniform([size], minval=lo, maxval=hi, dtype=dt, seed=k)) if size in (17, 1000) else None
                if g is not None:
                    ck.eq(g(seed()).numpy(), a, "%s in [%d, %d): the same seed in a graph" % (dt, lo, hi))
                    ck.eq(g(seed()).numpy(), a, "%s in [%d, %d): the same seed in a graph" % (dt, lo, hi))
                n += 1
            ck.eq(draw([6, 4]).reshape(-1), draw([24]), "the shape does not matter")
            ck.eq(draw([2, 3, 4]).reshape(-1), draw([24]), "the shape does not matter")
            ck.eq(draw(tf.constant([24], tf.int64)), draw([24]), "the type of the shape does not matter")
    for size in (1, 2, 3, 4, 5, 100):
        lo, hi = tf.constant([0, -(1 << 63)], tf.int64), tf.constant([-1, (1 << 63) - 1], tf.int64)
        a = sr.i128_seeded_random_uniform([size], seed(), lo, hi).numpy()
        ck.eq(sr.i128_seeded_random_uniform([size], seed(), lo, hi).numpy(), a, "128 bits: the same seed again")
    ck.count(0, states=n, transitions=3 * n, traces=n)


def _seeds(ck):
    """Every bit of the seed matters."""
    base = seed().numpy()
    seen = {}
    for i in range(257):
        k = base.copy()
        if i < 256:
            k.view(np.uint32)[i // 32] ^= np.uint32(1 << (i % 32))
        v = sr.seeded_random_uniform([8], minval=-2 ** 63, maxval=2 ** 63 - 1, dtype=tf.int64, seed=tf.constant(k)).numpy()
        w = sr.i128_seeded_random_uniform([4], tf.constant(k), tf.constant([0, -(1 << 63)], tf.int64), tf.constant([-1, (1 << 63) - 1], tf.int64)).numpy()
        for name, x in (("64", v), ("128", w.reshape(-1))):
            for p, e in enumerate(x):
                ck.true((name, int(e)) not in seen, "seeds that differ in bit %s give overlapping streams" % i)
                seen[(name, int(e))] = i
    ck.count(0, states=257, transitions=257, traces=257)


def _fresh(ck):
    """Unseeded draws and keys are new at every execution, also inside graphs, loops and repeated calls."""
    def many(n):
        return sr.random_uniform([n], minval=-2 ** 63, maxval=2 ** 63 - 1, dtype=tf.int64)

    def many128(n):
        return sr.i128_random_uniform([n], tf.constant([0, -(1 << 63)], tf.int64), tf.constant([-1, (1 << 63) - 1], tf.int64))

    def four():
        return many(4)

    def two_seeds():
        return tf.concat([sr.secure_seed(), sr.secure_seed()], 0)

    def mixed():
        return tf.concat([many(3), many(3), tf.reshape(many128(3), [-1]), tf.reshape(many128(3), [-1])], 0)

    def from_seeds():
        return tf.concat([sr.seeded_random_uniform([4], minval=-2 ** 63, maxval=2 ** 63 - 1, dtype=tf.int64, seed=sr.secure_seed()) for _ in range(3)], 0)

    def loop():
        return tf.while_loop(lambda i, a: i < 5, lambda i, a: (i + 1, tf.concat([a, four()], 0)), [tf.constant(0), four()],
                             shape_invariants=[tf.TensorShape([]), tf.TensorShape([None])])[1]

    def branch():
        return tf.cond(tf.reduce_sum(four()) != 0, lambda: tf.concat([four(), four()], 0), lambda: four())

    for name, fn in (("draws", four), ("keys", two_seeds), ("several", mixed), ("streams of fresh keys", from_seeds), ("loop", loop), ("branch", branch)):
        seen = []
        g, outer = tf.function(fn), None
        outer = tf.function(lambda: tf.concat([g(), g()], 0))
        for mode, call in (("eager", fn), ("graph", g), ("nested graph", outer), ("graph again", tf.function(fn)), ("no optimiser", g)):
            for _ in range(5):
                v = [int(x) for x in call().numpy().reshape(-1)]
                seen += v
                ck.true(len(set(seen)) == len(seen), "%s: %s repeat values" % (name, mode))
                ck.count(0, states=1, transitions=1, traces=1)
    # keys drawn in a graph optimised by TensorFlow keep being drawn
    @tf.function
    def h():
        s = sr.secure_seed()
        a = sr.seeded_random_uniform([4], minval=-2 ** 63, maxval=2 ** 63 - 1, dtype=tf.int64, seed=s)
        b = sr.seeded_random_uniform([4], minval=-2 ** 63, maxval=2 ** 63 - 1, dtype=tf.int64, seed=s)
        return a, b
    old = None
    for _ in range(5):
        a, b = h()
        ck.eq(a.numpy(), b.numpy(), "one key gives one stream")
        ck.true(old is None or not np.array_equal(old, a.numpy()), "a key drawn in a graph repeats")
        old = a.numpy()


def _bad(ck):
    """Requests that make no sense are refused."""
    for dt, (lo, hi) in itertools.product(DT, ((0, 0), (5, 5), (5, 4), (1, -1))):
        for fn in (lambda: sr.random_uniform([3], minval=lo, maxval=hi, dtype=dt), lambda: sr.seeded_random_uniform([3], minval=lo, maxval=hi, dtype=dt, seed=seed())):
            try:
                fn()
                ck.true(False, "the empty range [%d, %d) of %s is accepted" % (lo, hi, dt))
            except (tf.errors.InvalidArgumentError, ValueError):
                ck.true(True, "")
    for s in (np.arange(7), np.arange(9), np.arange(16).reshape(2, 8)):
        try:
            sr.seeded_random_uniform([3], minval=0, maxval=5, dtype=tf.int32, seed=tf.constant(s.astype(np.int32)))
            ck.true(False, "a seed of shape %s is accepted" % (s.shape,))
        except (tf.errors.InvalidArgumentError, ValueError):
            ck.true(True, "")
    for dt in (tf.float32, tf.uint8, tf.bool):
        try:
            sr.random_uniform([3], minval=0, maxval=5, dtype=dt)
            ck.true(False, "samples of %s" % dt)
        except (ValueError, TypeError, tf.errors.OpError):
            ck.true(True, "")
    ck.eq(tuple(sr.secure_seed().shape), (8,), "shape of a seed")
    ck.count(0, states=20, transitions=20, traces=20)


def run(ck):
    ck.case("kernel/weights8", _kernel, ck, "weights8")
    ck.case("kernel/weights16", _kernel, ck, "weights16")
    ck.case("kernel/wide", _kernel, ck, "wide")
    for b in (8, 32, 64, 16):
        ck.case("kernel/reuse%d" % b, _kernel, ck, "reuse%d" % b)
    ck.case("kernel/unseeded", _kernel, ck, "unseeded")
    ck.case("deterministic", _det, ck)
    ck.case("seeds", _seeds, ck)
    ck.case("fresh", _fresh, ck)
    ck.case("refused", _bad, ck)
