"""C18: datasets on disk read back exactly what was written."""
import itertools
import os
import tempfile

import numpy as np

from vlib import a3, rt
import tensorflow as tf
import tf_encrypted as tfe
from tf_encrypted.operations import dataset as ds

CFGS = {"64": "l", "128": "h"}


def fresh(ck):
    return tempfile.mkdtemp(dir=ck.scratch)


def rec(i, shape):
    """The i-th record: rows nobody else has, both signs."""
    n = int(np.prod(shape))
    v = (np.arange(n, dtype=np.float64) + 1 + i * n) * np.where(np.arange(n) % 2, -1, 1)
    return (v / 8).reshape(shape)


def opened(ck, p, x, what):
    from tf_encrypted.protocol.aby3.aby3_tensors import ABY3PrivateTensor
    ck.true(isinstance(x, ABY3PrivateTensor) and x.is_scaled and x.share_type == a3.A, "%s is a private fixed-point tensor" % what)
    a3.shares_of(p, x, what)
    return np.asarray(x.reveal().to_native())


# -- histories of writes and appends, against lists of records -----------------------------------------
def _histories(ck, cfg, depth, part, parts, graph=False):
    """All sequences of write/append over two files; afterwards every way of reading."""
    p = rt.aby3(CFGS[cfg])
    d = fresh(ck)
    shape = (2, 3)
    ops = [("w", 0), ("a", 0), ("w", 1), ("a", 1)]
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(ops, repeat=n)]
    pool = [p.define_private_variable(rec(i, shape)) for i in range(depth)]
    steps = {}

    def write(x, f, a):
        if not graph:
            return p.write(x, f, append=a)
        k = (id(x), f, a)
        if k not in steps:
            steps[k] = tf.function(lambda: p.write(x, f, append=a))
        steps[k]()

    for n, s in enumerate(seqs):
        if n % parts != part:
            continue
        names = [os.path.join(d, "f%d" % j if graph else "h%d_%d" % (n, j)) for j in range(2)]
        model = [None, None]
        if graph:
            for f in os.listdir(d):
                os.unlink(os.path.join(d, f))
        for i, (o, j) in enumerate(s):
            write(pool[i], names[j], o == "a")
            model[j] = [rec(i, shape)] if o == "w" or model[j] is None else model[j] + [rec(i, shape)]
        sources = [(0,), (1,), (0, 1), (1, 0), (0, 0), (0, 1, 0)]
        for src in sources:
            if any(model[j] is None for j in src) or (ck.quick and len(s) < depth and len(src) > 1):
                continue
            want = [r for j in src for r in model[j]]
            for per in range(1, len(want) + 1):
                if len(want) % per or (ck.quick and per not in (1, 2, len(want))):
                    continue
                arg = [names[j] for j in src] if len(src) > 1 or n % 2 else names[src[0]]
                it = tfe.read(arg, file_batch=shape[0], output_shape=[shape[0] * per, shape[1]], buffer_num=1 + n % 2)
                for epoch in range(2):
                    for b in range(len(want) // per):
                        if epoch and b > 1:
                            break
                        got = opened(ck, p, next(it), "%s %s" % (s, src))
                        ck.eq(got, np.concatenate(want[b * per:(b + 1) * per]), "history %s read %s by %d, epoch %d batch %d" % (s, src, per, epoch, b))
        ck.count(0, states=len(s) + 1, transitions=len(s), traces=1)


# -- shapes ---------------------------------------------------------------------------------------------
def _shapes(ck, cfg):
    p = rt.aby3(CFGS[cfg])
    d = fresh(ck)
    k = 0
    for shape in [(1,), (4,), (1, 1), (2, 3), (3, 1), (2, 2, 2), (1, 2, 3, 2), (6, 5)]:
        for nrec in (1, 2, 3, 4):
            f = os.path.join(d, "s%d" % k)
            k += 1
            rows = []
            for i in range(nrec):
                p.write(p.define_private_variable(rec(i, shape)), f, append=i > 0)
                rows.append(rec(i, shape))
            rows = np.concatenate(rows)
            for per in [q for q in range(1, nrec + 1) if nrec % q == 0]:
                out = [shape[0] * per] + list(shape[1:])
                outs = [out]
                if per * shape[0] % 2 == 0:
                    outs.append([out[0]] + list(shape[1:])[::-1])
                for o in outs:
                    o0 = list(o)
                    it = tfe.read([f], file_batch=shape[0], output_shape=o)
                    it2 = tfe.read([f], file_batch=shape[0], output_shape=o, buffer_num=3)
                    for b in range(2 * (nrec // per)):
                        w = rows[(b % (nrec // per)) * out[0]:][:out[0]].reshape(o0)
                        ck.eq(opened(ck, p, next(it), "rows"), w, "records of shape %s read as %s, batch %d" % (shape, o0, b))
                    ck.eq(opened(ck, p, next(it2), "rows"), rows[:out[0]].reshape(o0), "second reader of shape %s as %s" % (shape, o0))
                    ck.count(0, states=1, traces=1)


def _words(ck, cfg):
    """Every word survives: shares of boundary values, products, and tensors computed from read ones."""
    p = rt.aby3(CFGS[cfg], mode="det")
    d = fresh(ck)
    n = 64 if cfg == "64" else 128
    f = p.fixedpoint_config.precision_fractional if hasattr(p.fixedpoint_config, "precision_fractional") else p.fixedpoint_config.precision_total
    v = []
    for e in range(0, 20):
        for s in (1, -1):
            v += [s * 2.0 ** e, s * (2.0 ** e - 2.0 ** -8), s * 2.0 ** (e - 20 if e < 12 else -8)]
    v = np.array(v).reshape(-1, 4)
    for kind in ("variable", "input", "sum", "product"):
        if kind == "input":
            x = tfe.define_private_input("input-provider", lambda: tf.constant(v))
        else:
            x = p.define_private_variable(v)
        if kind == "sum":
            x = x + x
        if kind == "product":
            x = x * 2
        name = os.path.join(d, "%s" % kind)
        x.write(name)
        it = tfe.read(name, file_batch=v.shape[0], output_shape=list(v.shape))
        y = next(it)
        for i in range(3):
            for j in range(2):
                ck.eq(a3.ints(y.unwrapped[i][j]), a3.ints(x.unwrapped[i][j]), "share %d%d of a %s" % (i, j, kind))
        ck.eq(a3.open_private(p, y), a3.open_private(p, x), "words of a %s" % kind)
        z = y * 3 + next(it)
        ck.close(np.asarray(z.reveal().to_native()), np.asarray(x.reveal().to_native()) * 4, 2.0 ** -6, "computing with what was read")
        # and another round through the disk
        y.write(name + "b")
        ck.eq(a3.open_private(p, next(tfe.read(name + "b", v.shape[0], list(v.shape)))), a3.open_private(p, x), "written twice")
        ck.count(0, states=v.size, traces=1)


# -- faults -----------------------------------------------------------------------------------------------
def _faults(ck):
    """A write that cannot reach the disk is reported, whichever of the six files fails and however it fails."""
    p = rt.aby3("l")
    d = fresh(ck)
    x = p.define_private_variable(rec(0, (2, 2)))
    n = 0
    for append in (False, True):
        for how in ("directory", "full"):
            for i in range(3):
                for j in range(2):
                    for graph in (False, True):
                        f = os.path.join(d, "z%d" % n)
                        n += 1
                        bad = "%s_share%d%d" % (f, i, j)
                        if how == "directory":
                            os.mkdir(bad)
                        else:
                            os.symlink("/dev/full", bad)
                        try:
                            if graph:
                                tf.function(lambda: p.write(x, f, append=append))()
                            else:
                                p.write(x, f, append=append)
                        except tf.errors.OpError:
                            pass
                        else:
                            ck.fail("writing share %d%d failed (%s, append=%s, graph=%s) and nothing was raised" % (i, j, how, append, graph))
                        ck.count(1, states=1)
    for append in (False, True):
        try:
            p.write(x, os.path.join(d, "no/such/dir/f"), append=append)
        except tf.errors.OpError:
            pass
        else:
            ck.fail("writing below a missing directory raised nothing")
        ck.count(1, states=1)


def _torn(ck):
    """A share file cut after any byte gives the complete records before the cut or an error, never other rows."""
    p = rt.aby3("l")
    d = fresh(ck)
    f = os.path.join(d, "t")
    shape = (1, 2)
    for i in range(2):
        p.write(p.define_private_variable(rec(i, shape)), f, append=i > 0)
    whole = {}
    for i in range(3):
        for j in range(2):
            whole[i, j] = open("%s_share%d%d" % (f, i, j), "rb").read()
    size = len(whole[0, 0])
    ck.true(all(len(v) == size for v in whole.values()), "share files of one size")
    for cut in range(1, size):
        g = os.path.join(d, "c%d" % cut)
        for (i, j), v in whole.items():
            with open("%s_share%d%d" % (g, i, j), "wb") as h:
                h.write(v[:cut])
        it = tfe.read(g, file_batch=1, output_shape=[1, 2])
        got = []
        try:
            for _ in range(2):
                got.append(opened(ck, p, next(it), "torn"))
        except (tf.errors.OpError, StopIteration, RuntimeError):
            pass
        for k, r in enumerate(got):
            ck.eq(r, rec(0, shape), "row %d of files cut at byte %d" % (k, cut))
        ck.true(not got or 2 * cut >= size, "complete records only (cut at %d)" % cut)
        ck.count(0, states=1)


# -- plain records ------------------------------------------------------------------------------------------
def _plain(ck):
    d = fresh(ck)
    ops = [("w", 0), ("a", 0), ("w", 1), ("a", 1), ("d", 0)]
    contents = [b"", b"x", bytes(range(256)), b"\0" * 4096, os.path.basename(d).encode() * 1000, b"\xff" * 70000]
    n = 0
    for depth in (1, 2, 3) if ck.quick else (1, 2, 3, 4, 5):
        for s in itertools.product(ops, repeat=depth):
            names = [os.path.join(d, "p%d_%d" % (n, j)) for j in range(2)]
            n += 1
            model = [None, None]
            for i, (o, j) in enumerate(s):
                c = contents[(n + i) % len(contents)]
                if o == "d":
                    ds.write_record(names[j], c)  # the default: append
                else:
                    ds.write_record(names[j], c, append=o == "a")
                model[j] = [c] if o == "w" or model[j] is None else model[j] + [c]
            for j in range(2):
                if model[j] is not None:
                    got = [t.numpy() for t in tf.data.TFRecordDataset([names[j]])]
                    ck.true(got == model[j], "records of file %d after %s" % (j, s))
            ck.count(0, states=depth + 1, transitions=depth, traces=1)
            for f in names:
                if os.path.exists(f):
                    os.unlink(f)


def _mnist(ck, train):
    """Horizontal and vertical splits, images and labels held by different players: rows stay together."""
    from tf_encrypted.keras.datasets import MnistDataset
    from tf_encrypted.keras.datasets import mnist as m
    cwd = os.getcwd()
    n = 23
    x = ((np.arange(n * 784) * 7 + np.arange(n * 784) // 784) % 251).astype(np.uint8).reshape(n, 28, 28)
    y = (np.arange(n) * 3 % 10).astype(np.uint8)
    x[:, 0, 0] = x[:, 14, 0] = np.arange(n)  # rows can be told apart, in either half
    # the other half of the data must not show up
    other = (x[:5] ^ 255, (y[:5] + 1) % 10)
    load = m.mnist.load_data
    m.mnist.load_data = lambda *a, **k: ((x, y), other) if train else (other, (x, y))
    try:
        for bs in (1, 4, 5, 23):
            for split in (None, slice(0, 23), slice(3, 20), (slice(None), slice(0, 14)), (slice(None), slice(14, 28))):
                wx, wy = x, y
                if isinstance(split, slice):
                    wx, wy = x[split], y[split]
                elif split is not None:
                    wx = x[split]
                if bs > len(wx):
                    continue
                os.chdir(fresh(ck))

                def make(**kw):
                    d = MnistDataset(batch_size=bs, train=train)
                    d = d if split is None else d[split]
                    return d, d.generator_builder(**kw)()
                d, both = make()
                _, images = make(label=False)
                _, labels = make(image=False)
                _, again = make()
                ck.eq(d.batch_shape, [bs] + list(wx.shape[1:]) + [1], "batch shape")
                per = len(wx) // bs
                for epoch in range(3 if train else 1):
                    seen = []
                    for b in range(per):
                        (i, l), i2, l2, (i3, l3) = next(both), next(images), next(labels), next(again)
                        what = "%s batch of %d, %s, epoch %d" % (split, bs, b, epoch)
                        ck.eq(i2.numpy(), i.numpy(), "images alone: " + what)
                        ck.eq(l2.numpy(), l.numpy(), "labels alone: " + what)
                        ck.eq(i3.numpy(), i.numpy(), "images of another reader: " + what)
                        ck.eq(l3.numpy(), l.numpy(), "labels of another reader: " + what)
                        ck.eq(i.shape.as_list(), d.batch_shape, "shape")
                        for r in range(bs):
                            k = int(round(float(i[r, 0, 0, 0]) * 255))
                            at = [t for t in range(len(wx)) if wx[t, 0, 0] == k]
                            ck.true(len(at) == 1, "a row of the data: " + what)
                            ck.close(i[r].numpy()[..., 0], wx[at[0]] / 255.0, 1e-6, "image: " + what)
                            ck.eq(l[r].numpy(), np.eye(10)[wy[at[0]]], "label: " + what)
                            seen.append(k)
                    ck.true(len(set(seen)) == len(seen) == per * bs, "every row at most once per epoch")
                    ck.count(0, states=len(seen), traces=1)
                if not train:
                    try:
                        next(both)
                        ck.fail("test data go on after the last batch")
                    except StopIteration:
                        pass
    finally:
        m.mnist.load_data = load
        os.chdir(cwd)


def run(ck):
    q = ck.quick
    for i in range(4 if q else 8):
        ck.case("histories/64/%d" % i, _histories, ck, "64", 3 if q else 5, i, 4 if q else 64)
    for i in range(2 if q else 4):
        ck.case("histories/128/%d" % i, _histories, ck, "128", 2 if q else 4, i, 2 if q else 16)
    if not q:
        for i in range(8, 64):
            ck.case("histories/64/%d" % i, _histories, ck, "64", 5, i, 64)
        for i in range(4, 16):
            ck.case("histories/128/%d" % i, _histories, ck, "128", 4, i, 16)
    ck.case("histories-graph/64", _histories, ck, "64", 2 if q else 3, 0, 1, True)
    for c in CFGS:
        ck.case("shapes/" + c, _shapes, ck, c)
        ck.case("words/" + c, _words, ck, c)
    ck.case("faults", _faults, ck)
    ck.case("torn", _torn, ck)
    ck.case("plain", _plain, ck)
    for t in (True, False):
        ck.case("mnist/%s" % ("train" if t else "test"), _mnist, ck, t)
