"""Drives the random kernels, built from /repo's sources with kernel/stub_sodium.cc in place of the keystream.

random_kernel.py SO PART TIER: prints one JSON object {problems, states, controlled}.
Runs in a process of its own: the library under test registers the same operations as the ordinary one."""
import ctypes
import itertools
import json
import sys

import numpy as np
import tensorflow as tf

so, part, tier = sys.argv[1:4]
quick = tier == "quick"
ops = tf.load_op_library(so)
lib = ctypes.CDLL(so)
problems, states = [], 0

T = {8: np.int8, 16: np.int16, 32: np.int32, 64: np.int64}
U = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}


def bad(what):
    if len(problems) < 40:
        problems.append(what)


def script(words, tail, bits):
    """The keystream: these words, then `tail` for ever."""
    if bits == 128:
        s = b"".join(int(w).to_bytes(16, "little") for w in words)
        t = int(tail).to_bytes(16, "little")
    else:
        s = np.asarray(words, dtype=U[bits]).tobytes()
        t = np.asarray([tail], dtype=U[bits]).tobytes()
    lib.ctl_script(s, ctypes.c_uint64(len(s)), t, ctypes.c_uint64(len(t)))


KEY = np.arange(8, dtype=np.int32)


def i128(v):
    return tf.constant(np.array([v & ((1 << 64) - 1), (v >> 64) & ((1 << 64) - 1)], dtype=np.uint64).view(np.int64))


def seeded(n, lo, hi, bits, key=KEY):
    if bits == 128:
        z = ops.i128_secure_seeded_random_uniform([n], key, i128(lo), i128(hi)).numpy()
        return [(int(a[1]) << 64) + (int(a[0]) & ((1 << 64) - 1)) for a in z]
    return ops.secure_seeded_random_uniform([n], key, tf.constant(lo, dtype=T[bits]), tf.constant(hi, dtype=T[bits])).numpy()


def uses():
    n = lib.ctl_uses(None, ctypes.c_uint64(0))
    b = (ctypes.c_uint64 * (3 * n))()
    lib.ctl_uses(b, ctypes.c_uint64(n))
    return [tuple(b[3 * i:3 * i + 3]) for i in range(n)]


def controlled():
    """Do the kernels read the keystream this harness controls? (If not, nothing here applies.)"""
    lib.ctl_reset()
    for w in (5, 77):
        script([w] * 16, w, 64)
        if list(seeded(8, 0, 1 << 20, 64)) != [w] * 8:
            return False
    return True


def weights(bits, ranges):
    """All words of this width at once: every value of the range gets the same number of them."""
    global states
    n = 1 << bits
    words = np.arange(n)
    for lo, hi in ranges:
        r = hi - lo
        outs = []
        for tail in (0, 1):
            script(words, tail, bits)
            outs.append(seeded(n, lo, hi, bits).astype(np.int64))
        a, b = outs
        if min(a.min(), b.min()) < lo or max(a.max(), b.max()) >= hi:
            bad("int%d in [%d, %d): a sample lies outside the range" % (bits, lo, hi))
            continue
        # a rejected word is replaced by the tail, which is 0 in one run and 1 in the other
        rejected = (a != b) if r > 1 else np.zeros(n, dtype=bool)
        c = np.bincount(a[~rejected] - lo, minlength=r)
        if c.min() != c.max() or c.min() == 0:
            bad("int%d in [%d, %d): the words do not fall on the values evenly: %d to %d words per value" % (bits, lo, hi, c.min(), c.max()))
        if rejected.sum() >= r:
            bad("int%d in [%d, %d): %d words are rejected" % (bits, lo, hi, rejected.sum()))
        states += n


def wide(bits, ranges):
    """Wide words: at the ends of the zone of accepted words, which must be a multiple of the range."""
    global states
    m = 1 << bits
    for lo, hi in ranges:
        r = hi - lo
        z = m - m % r  # first word of the incomplete last stretch
        cand = {0, 1, 2, r - 1, r, r + 1, z - 1, z - 2, z - r, z - r - 1, z, z + 1, z + 2, m - 1, m - 2, m // 2, m // 2 - 1, m // 2 + 1, z // 2, 12345}
        for k in (8, 16, 31, 32, 33, 63, 64, 65, 96):
            cand.update((1 << k, (1 << k) - 1, (1 << k) + 1))
        for k in (1, 2, 3, 7, z // r - 1, z // r // 2):
            cand.update((k * r, k * r - 1, k * r + 1))
        words = sorted(w for w in cand if 0 <= w < m)
        outs = []
        for tail in (0, 1):
            script(words, tail, bits)
            outs.append([int(v) for v in seeded(len(words), lo, hi, bits)])
        acc = {}
        for w, a, b in zip(words, *outs):
            if not (lo <= a < hi and lo <= b < hi):
                bad("int%d in [%d, %d): word %d gives %d" % (bits, lo, hi, w, a))
            elif a == b or r == 1:
                acc[w] = a - lo
        states += len(words)
        # the accepted words are an initial segment whose length is a multiple of the range
        rej = [w for w in words if w not in acc]
        if not acc or (rej and min(rej) < max(acc)):
            bad("int%d in [%d, %d): rejected words lie below accepted ones" % (bits, lo, hi))
            continue
        top, low = max(acc), min(rej) if rej else m
        if not any((k * r > top) and (k * r <= low) for k in (low // r, top // r + 1)):
            bad("int%d in [%d, %d): words up to %d are accepted and %d is not: no multiple of the range" % (bits, lo, hi, top, low))
        for w, v in acc.items():
            if v != w % r:
                # any other even assignment would do, but not one that sends neighbours in a stretch to one value
                if acc.get(w + 1) == v or acc.get(w - 1) == v:
                    bad("int%d in [%d, %d): neighbouring words give the same value" % (bits, lo, hi))
        vals = [acc[w] for w in acc if w < r]
        if len(set(vals)) != len(vals):
            bad("int%d in [%d, %d): two words of one stretch give the same value" % (bits, lo, hi))


def reuse(bits):
    """However rejected words fall, no word of the keystream serves twice."""
    global states
    if bits == 8:
        lo, hi, ids = 0, 127, 127
    else:
        lo, hi, ids = 0, (1 << (bits - 1)) - 1, 1 << 30
    per = 64 * 8 // bits
    lens = sorted({1, 2, 3, per - 1, per, per + 1, 2 * per - 1, 2 * per, 2 * per + 1} | ({5 * per + 3} if not quick else set()))
    if bits == 8:
        lens = [1, 2, 3, 30, 31, 32]
    reject = (1 << bits) - 1  # all ones: in the incomplete last stretch for these ranges
    for n in lens:
        # positions of rejected words: among the first n, then among the words that follow
        first = [()] + [(i,) for i in range(n)] + [c for c in itertools.combinations(range(0, n, max(1, n // 5)), 2)]
        after = [0, 1, 2, per - 2, per - 1, per, per + 1, 2 * per - 2, 2 * per - 1, 2 * per, 2 * per + 1, 3 * per]
        for f in first:
            for skip in (after if f else [0]):
                base = (n + per - 1) // per * per
                total = base + skip + 10 * per
                if bits == 8:
                    total = 127
                    if base + skip + 2 > total or n + skip > 60:
                        continue
                w = [i % ids for i in range(total)]
                for i in f:
                    w[i] = reject
                # the words that follow: the first `skip` of them are rejected too, wherever the kernel takes them from
                for i in range(base, min(base + per * 2 + skip, total)):
                    if i - base < skip or base + per <= i < base + per + skip:
                        w[i] = reject
                script(w, 3, bits)
                out = [int(v) for v in seeded(n, lo, hi, bits)]
                states += 1
                if len(set(out)) != n:
                    bad("int%d: %d samples, rejected %s and %d more: a word of the keystream serves twice" % (bits, n, f, skip))
                kept = [i for i in range(n) if i not in f]
                if [out[i] for i in kept] != [i % ids for i in kept]:
                    # the words that were not rejected are distinct as well, whatever their order
                    if len({out[i] for i in kept}) != len(kept):
                        bad("int%d: %d samples, rejected %s: words lost" % (bits, n, f))


def unseeded():
    """However the work is spread over threads, every stretch has entropy of its own and every entry is written."""
    global states
    for bits, n in itertools.product((64,), [1, 2, 7, 1000, 9999, 10 ** 5, 10 ** 6 + 3] + ([] if quick else [10 ** 7])):
        for rep in range(2 if quick else 10):
            lib.ctl_reset()
            lib.ctl_named()
            z = ops.secure_random_uniform([n], tf.constant(0, tf.int64), tf.constant(1 << 62, tf.int64)).numpy()
            states += 1
            if len(np.unique(z)) != n:
                bad("random_uniform of %d values: %d of them repeat" % (n, n - len(np.unique(z))))
            if len(np.unique(z >> 40)) != len({u[0] for u in uses()}):
                bad("random_uniform of %d values: not all key material reaches the result" % n)
            lib.ctl_reset()
            lib.ctl_named()
            z = ops.i128_secure_random_uniform([n], i128(0), i128(1 << 126)).numpy()
            if len(np.unique(z[:, 0])) != n or len(np.unique(z[:, 1])) != n:
                bad("i128_random_uniform of %d values: some repeat" % n)
    lib.ctl_reset()
    lib.ctl_named()
    for bits in (8, 16, 32):
        for n in (1, 1000, 10 ** 6):
            for _ in range(3):
                lib.ctl_reset()
                ops.secure_random_uniform([n], tf.constant(-5, T[bits]), tf.constant(6, T[bits]))
                keys = [u[0] for u in uses()]
                states += 1
                if len(set(keys)) != len(keys):
                    bad("random_uniform int%d: two stretches share their key" % bits)
    # a key of its own for every call, and for every call of secure_seed
    lib.ctl_reset()
    ks = [ops.secure_seed().numpy().tobytes() for _ in range(50)]
    if len(set(ks)) != 50 or any(len(k) != 32 for k in ks):
        bad("secure_seed repeats")
    e = (ctypes.c_uint64 * 200)()
    k = lib.ctl_entropy(e, ctypes.c_uint64(200))
    if k < 50 or any(e[i] < 32 for i in range(min(k, 200))):
        bad("secure_seed draws less entropy than it has bytes")


def keyed():
    """The keystream is the one of the key given: all of its bytes, in their order."""
    global states
    lib.ctl_named()
    for i in range(2):
        key = np.zeros(8, dtype=np.int32)
        key[i] = 77
        lib.ctl_reset()
        seeded(100, 0, 1 << 62, 64, key)
        states += 1
        want = int.from_bytes(key.tobytes()[:8], "little")
        if {u[0] for u in uses()} != {want}:
            bad("the keystream is not that of the seed")
    lib.ctl_reset()
    seeded(1000, 0, 1 << 62, 64)
    # two equal calls read the same stretch
    u = uses()
    lib.ctl_reset()
    seeded(1000, 0, 1 << 62, 64)
    if u != uses():
        bad("two equal calls read different stretches of the keystream")


ok = controlled()
if ok:
    if part == "weights8":
        weights(8, [(lo, hi) for lo in range(-128, 127) for hi in range(lo + 1, 128) if not quick or lo in (-128, -127, -1, 0, 1, 100) or hi in (127, 0, 1) or (hi - lo) % 16 == lo % 16])
    elif part == "weights16":
        sizes = sorted(set(range(1, 300 if quick else 3000)) | {(1 << k) + d for k in range(1, 17) for d in (-2, -1, 0, 1, 2)} | set(range(1000, 65536, 1009 if quick else 101)) | {(1 << 16) // k + d for k in range(1, 20) for d in (-1, 0, 1)})
        weights(16, [(lo, lo + s) for s in sizes if 0 < s < 1 << 16 for lo in (-32768, -5, 0) if lo + s <= 32767])
    elif part == "wide":
        for bits in (32, 64, 128):
            h = 1 << (bits - 1)
            sizes = {1, 2, 3, 5, 7, 10, 11, 100, 107, 255, 256, 257, 1000, 65537, h, h + 1, h - 1, h + h // 2, h + h // 2 + 1, 2 * h - 1, 2 * h - 2, h // 3 * 4, 3 * (h // 2)}
            for k in range(1, bits):
                sizes.update(((1 << k) - 1, 1 << k, (1 << k) + 1))
            rs = [(lo, lo + s) for s in sorted(sizes) if 0 < s < 2 * h for lo in (-h, -h + 1, -s // 2, -1, 0, 1, h - 1 - s) if lo >= -h and lo + s <= h - 1]
            wide(bits, rs)
    elif part.startswith("reuse"):
        reuse(int(part[5:]))
    elif part == "unseeded":
        unseeded()
        keyed()
print(json.dumps(dict(problems=problems, states=states, controlled=ok)))
