"""C16: the bit-manipulation kernels compute what their names say."""
import itertools

import numpy as np

from vlib import rt, words  # noqa: F401 (rt brings the compatibility layer in)
import tensorflow as tf
from tf_encrypted.operations import aux
from tf_encrypted.tensor import int8factory, int16factory, int32factory, int64factory

F = {8: int8factory, 16: int16factory, 32: int32factory, 64: int64factory}
T = {8: np.int8, 16: np.int16, 32: np.int32, 64: np.int64}
U = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}


def domain(n, level):
    if n <= 16:
        return np.arange(-(1 << (n - 1)), 1 << (n - 1)).astype(T[n])
    return np.array(words.words(n, level), dtype=T[n])


def bit(u, i):
    return (u >> u.dtype.type(i)) & u.dtype.type(1)


def gather(x, start, stride, n):
    """Bits start, start + stride, ... packed toward bit zero."""
    u = x.view(U[n])
    o = np.zeros_like(u)
    for i, d in enumerate(range(start, n, stride)):
        o |= bit(u, d) << U[n](i)
    return o.view(T[n])


def _gather(ck, n):
    x = domain(n, 2 if not ck.quick else 1)
    X = F[n].tensor(x)
    k = 0
    for stride in range(1, n + 2):
        for start in range(0, n + 1):
            if n == 64 and ck.quick and (start > 8 and start % 8 > 1 and start % stride) and stride > 5:
                continue
            w = gather(x, start, stride, n)
            ck.eq(np.asarray(X.bit_gather(start, stride).value), w, "bit_gather(%d, %d)" % (start, stride), [x])
            k += 1
    ck.count(0, states=k * len(x), transitions=k * len(x), traces=k)


def _split(ck, n):
    x = domain(n, 1)
    shapes = [(len(x),), (1,), (3, 5), (2, 3, 4), (1, 1), (7, 1, 2), ()]
    for stride in [s for s in range(1, n + 1) if n % s == 0]:
        for sh in shapes:
            v = np.array(x[-int(np.prod(sh)):]).reshape(sh) if sh != () else np.array(x[0])
            z = F[n].tensor(v).bit_split_and_gather(stride)
            w = np.stack([gather(v.reshape(-1), i, stride, n).reshape(sh) for i in range(stride)])
            ck.eq(tuple(z.shape), w.shape, "shape of bit_split_and_gather(%d)" % stride)
            ck.eq(np.asarray(z.value), w, "bit_split_and_gather(%d) of %s" % (stride, sh), [x])
    # sizes that the kernel spreads over its threads
    for size in ([10 ** 5, 99991] if ck.quick else [10 ** 5, 99991, 10 ** 6, 3 * 10 ** 6 + 7]):
        v = np.resize(x, size)
        for stride in (2, 8) + ((n,) if not ck.quick else ()):
            z = np.asarray(F[n].tensor(v).bit_split_and_gather(stride).value)
            w = np.stack([gather(v, i, stride, n) for i in range(stride)])
            ck.eq(z, w, "bit_split_and_gather(%d) of %d values" % (stride, size))
    ck.count(0, states=len(shapes) * len(x), transitions=len(shapes) * len(x), traces=len(shapes))


def _reverse(ck):
    x = domain(64, 2)
    u = x.view(np.uint64)
    w = np.zeros_like(u)
    for i in range(64):
        w |= bit(u, i) << np.uint64(63 - i)
    X = int64factory.tensor(x)
    ck.eq(np.asarray(X.bit_reverse().value), w.view(np.int64), "bit_reverse", [x])
    ck.eq(np.asarray(X.bit_reverse().bit_reverse().value), x, "bit_reverse twice", [x])
    w = np.zeros_like(x)
    for i in range(64):
        w ^= np.where(bit(u, i) != 0, i, 0)
    ck.eq(np.asarray(X.xor_indices().value), w, "xor_indices", [x])
    for sh in ((), (1,), (2, 3), (2, 1, 3)):
        k = int(np.prod(sh))
        ck.eq(tuple(int64factory.tensor(x[:k].reshape(sh)).bit_reverse().shape), sh, "shape of bit_reverse")
        ck.eq(tuple(int64factory.tensor(x[:k].reshape(sh)).xor_indices().shape), sh, "shape of xor_indices")
    ck.count(0, states=2 * len(x), transitions=2 * len(x), traces=2)


def _graph(ck):
    """In a graph: same values, and the static shape is the shape that comes out."""
    for n, sh in itertools.product((8, 16, 32, 64), [(3,), (2, 3), (1, 2, 2), ()]):
        x = np.resize(domain(n, 1), int(np.prod(sh))).reshape(sh)
        for stride in (2, n):
            known = []

            @tf.function
            def g(a):
                s, t = aux.bit_split_and_gather(a, stride=stride), aux.bit_gather(a, 1, stride)
                known.append((s.shape, t.shape))
                return s, t

            s, t = g(tf.constant(x))
            ck.eq(s.numpy(), np.stack([gather(x.reshape(-1), i, stride, n).reshape(sh) for i in range(stride)]), "bit_split_and_gather in a graph")
            ck.eq(t.numpy(), gather(x.reshape(-1), 1, stride, n).reshape(sh), "bit_gather in a graph")
            ck.true(known[-1][0].is_compatible_with(s.shape) and known[-1][1].is_compatible_with(t.shape), "shapes known in the graph: %s" % (known,))
    ck.count(0, states=32, transitions=32, traces=32)


def run(ck):
    for n in (8, 16, 32, 64):
        ck.case("gather/%d" % n, _gather, ck, n)
        ck.case("split/%d" % n, _split, ck, n)
    ck.case("reverse", _reverse, ck)
    ck.case("graph", _graph, ck)
