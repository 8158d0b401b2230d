"""Z_{2^k} with two's complement representatives, as a tensor factory for the protocols.

Every operation is done by the library's own native 64-bit tensors and the result is brought
back to k bits, so protocol code meets the same interface as in production."""
import numpy as np
import tensorflow as tf

from . import rt
from tf_encrypted.tensor import factories
from tf_encrypted.tensor import int64factory
from tf_encrypted.tensor.factory import AbstractFactory, AbstractTensor, AbstractConstant, AbstractVariable
from tf_encrypted.tensor.fixed import FixedpointConfig

_BASE = int64factory
_NT = type(_BASE.tensor(np.array([0])))  # native tensor class


def make(k):
    M, H = 1 << k, 1 << (k - 1)

    def norm(v):
        v = tf.cast(v, tf.int64)
        return tf.bitwise.bitwise_and(v + H, M - 1) - H

    def _low(n):
        # unsigned k-bit value as a native tensor
        return _BASE.tensor(tf.bitwise.bitwise_and(n.value, M - 1))

    def un(x):
        if isinstance(x, Tensor):
            return x._n
        if isinstance(x, int) and not isinstance(x, bool):
            return _BASE.tensor(np.array(((x + H) % M) - H))
        if isinstance(x, (list, tuple)):
            return type(x)(un2(v) for v in x)
        return x

    def un2(x):
        if isinstance(x, Tensor):
            return x._n
        return x

    def wrap(r):
        if isinstance(r, _NT):
            return Tensor(_BASE.tensor(norm(r.value)))
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(v) for v in r)
        return r

    class Factory(AbstractFactory):
        def tensor(self, v, encode=True):
            return Tensor(_BASE.tensor(norm(self._enc(v))))

        def constant(self, v, encode=True):
            return Constant(_BASE.tensor(norm(self._enc(v))))

        def variable(self, v, encode=True):
            t = v.value if isinstance(v, AbstractTensor) else norm(self._enc(v))
            return Variable(tf.Variable(t, dtype=tf.int64, trainable=False))

        def _enc(self, v):
            if isinstance(v, AbstractTensor):
                v = v.value
            if isinstance(v, (int, float)):
                v = np.array(int(v))
            if isinstance(v, np.ndarray):
                if v.dtype == object:
                    v = np.array([int(t) % M for t in v.reshape(-1)], dtype=np.int64).reshape(v.shape)
                return tf.constant(v.astype(np.int64))
            return tf.cast(v, tf.int64)

        @property
        def native_type(self):
            return tf.int64

        @property
        def nbits(self):
            return k

        @property
        def modulus(self):
            return M

        @property
        def min(self):
            return -H

        @property
        def max(self):
            return H - 1

        def _sample(self, shape, seed, lo=None, hi=None):
            lo = -H if lo is None else lo
            hi = H if hi is None else hi
            if rt.TAPE.mode == "script":
                return Tensor(_BASE.tensor(rt.TAPE.draw(shape, seed, lo, hi, tf.int64)))
            v = rt.TAPE.secure_seeded_random_uniform(
                shape, seed, tf.constant(lo, tf.int64), tf.constant(hi, tf.int64))
            return Tensor(_BASE.tensor(v))

        def sample_uniform(self, shape, minval=None, maxval=None):
            return self._sample(shape, rt.TAPE.secure_seed(), minval, maxval)

        def sample_seeded_uniform(self, shape, seed, minval=None, maxval=None):
            return self._sample(shape, seed, minval, maxval)

        def sample_bounded(self, shape, bitlength):
            return self._sample(shape, rt.TAPE.secure_seed(), 0, 1 << bitlength)

        def sample_bits(self, shape):
            return self.sample_bounded(shape, 1)

        def __getattr__(self, name):
            f = getattr(_BASE, name)

            def call(*a, **kw):
                return wrap(f(*[un2(v) if not isinstance(v, (list, tuple)) else un(v) for v in a],
                              **{q: un2(v) if not isinstance(v, (list, tuple)) else un(v) for q, v in kw.items()}))

            return call

        def stack(self, xs, axis=0):
            return wrap(_BASE.stack([x._n for x in xs], axis=axis))

        def concat(self, xs, axis):
            return wrap(_BASE.concat([x._n for x in xs], axis=axis))

        def zeros(self, shape):
            return Tensor(_BASE.tensor(tf.zeros(shape, tf.int64)))

        def ones(self, shape):
            return Tensor(_BASE.tensor(norm(tf.ones(shape, tf.int64))))

    class Tensor(AbstractTensor):
        def __init__(self, n):
            self._n = n

        @property
        def value(self):
            return self._n.value

        @property
        def shape(self):
            return self._n.shape

        @property
        def device(self):
            return self._n.device

        @property
        def factory(self):
            return FACTORY

        def to_native(self):
            return self._n.value

        def identity(self):
            return Tensor(self._n.identity())

        def cast(self, factory):
            if factory is FACTORY:
                return self
            return factory.tensor(self.value)

        def logical_rshift(self, b):
            return wrap(_low(self._n).right_shift(b))

        def bits(self, factory=None, bitsize=None):
            f = factory or FACTORY
            n = k if bitsize is None else bitsize
            v = tf.stack([tf.bitwise.bitwise_and(tf.bitwise.right_shift(self.value, i), 1) for i in range(n)], axis=-1)
            return f.tensor(v)

        def bit_split_and_gather(self, stride):
            r = _low(self._n).bit_split_and_gather(stride)
            return wrap(r)

        def bit_gather(self, start, stride):
            return wrap(_low(self._n).bit_gather(start, stride))

        def bit_reverse(self):
            v = _low(self._n).bit_reverse()
            return wrap(v.logical_rshift(64 - k))

        def equal_zero(self, factory=None):
            return (factory or FACTORY).tensor(tf.cast(tf.equal(self.value, 0), tf.int64))

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            f = getattr(self._n, name)
            if not callable(f):
                return f
            plain = name in (
                "left_shift", "right_shift", "reshape", "transpose", "gather", "split", "expand_dims", "squeeze",
                "reverse", "strided_slice", "truncate", "reduce_sum", "reduce_max", "cumsum", "mod", "scatter_nd",
                "conv2d", "im2col", "im2patches", "patches2im", "batch_to_space", "space_to_batch",
            )

            def call(*a, **kw):
                g = un2 if plain else un
                return wrap(f(*[g(v) for v in a], **{q: g(v) for q, v in kw.items()}))

            return call

        def __getitem__(self, s):
            return wrap(self._n[s])

        def __lshift__(self, b):
            return wrap(self._n << b)

        def __rshift__(self, b):
            return wrap(self._n >> b)

        def __mod__(self, b):
            return wrap(self._n % b)

        def __neg__(self):
            return wrap(-self._n)

        def __invert__(self):
            return wrap(~self._n)

    def _mk(op):
        def f(self, other):
            return wrap(getattr(self._n, op)(un(other)))

        return f

    for op in ("__add__", "__sub__", "__mul__", "__or__", "__xor__", "__and__"):
        setattr(Tensor, op, _mk(op))
    Tensor.__radd__ = lambda self, o: wrap(un(o) + self._n)
    Tensor.__rsub__ = lambda self, o: wrap(un(o) - self._n)
    Tensor.__rmul__ = lambda self, o: wrap(un(o) * self._n)

    class Constant(Tensor, AbstractConstant):
        pass

    class Variable(Tensor, AbstractVariable):
        def __init__(self, var):
            super().__init__(_BASE.tensor(var.read_value()))
            self.variable = var

        def assign(self, value):
            v = value.value if isinstance(value, AbstractTensor) else norm(FACTORY._enc(value))
            return self.variable.assign(v)

        def read_value(self):
            return Tensor(_BASE.tensor(self.variable.read_value()))

    FACTORY = Factory()
    return FACTORY


_made = {}


def ring(k):
    if k not in _made:
        _made[k] = make(k)
    return _made[k]


def config(k, frac=1, base=2, integral=1, gap=0, ni=False):
    """Registers the small ring and returns a fixed-point configuration that selects it."""
    key = 1000 + k
    factories[key] = ring(k)
    return FixedpointConfig(scaling_base=base, nbits=key, precision_integral=integral, precision_fractional=frac,
                            matmul_threshold=16, truncation_gap=gap, use_noninteractive_truncation=ni)


_odd = {}


def odd(k):
    """Z_{2^k - 1} with the same conventions as the library's odd tensors: k-bit two's complement words, -1 standing for 0."""
    if k in _odd:
        return _odd[k]
    M, H = (1 << k) - 1, 1 << (k - 1)

    def word(v):
        # residue -> k-bit two's complement word
        return tf.where(v >= H, v - (M + 1), v)

    def pos(w):
        return tf.where(w < 0, w + (M + 1), w) % M

    class OddFactory:
        modulus = M
        native_type = tf.int64
        nbits = k

        def tensor(self, v):
            v = tf.cast(v, tf.int64)
            return OddTensor(word(pos(tf.bitwise.bitwise_and(v + H, M) - H)))

        def sample_uniform(self, shape, minval=None, maxval=None):
            assert minval is None and maxval is None
            return OddUniform(shape, rt.TAPE.secure_seed())

    class OddTensor(AbstractTensor):
        def __init__(self, v):
            self._v = v

        factory = property(lambda self: FACTORY)
        value = property(lambda self: self._v)
        shape = property(lambda self: self._v.shape)
        device = property(lambda self: self._v.device)

        def identity(self):
            return OddTensor(tf.identity(self.value))

        def __getitem__(self, s):
            return OddTensor(self.value[s])

        def add(self, o):
            return OddTensor(word((pos(self.value) + pos(o.value)) % M))

        def sub(self, o):
            return OddTensor(word((pos(self.value) - pos(o.value)) % M))

        __add__, __sub__ = add, sub

        def bits(self, factory=None):
            v = self.value
            b = tf.stack([tf.bitwise.bitwise_and(tf.bitwise.right_shift(v, i), 1) for i in range(k)], axis=-1)
            return (factory or FACTORY).tensor(b)

        def cast(self, factory):
            return self if factory is FACTORY else factory.tensor(self.value)

    class OddUniform(OddTensor):
        """Like the library's: only the key travels, whoever uses the value expands it."""

        def __init__(self, shape, seed):
            self._shape, self._seed = shape, seed

        shape = property(lambda self: tf.TensorShape(self._shape))
        device = property(lambda self: None)

        @property
        def value(self):
            return word(tf.cast(rt.TAPE.secure_seeded_random_uniform(
                self._shape, self._seed, tf.constant(0, tf.int64), tf.constant(M, tf.int64)), tf.int64))

    FACTORY = OddFactory()
    _odd[k] = FACTORY
    return FACTORY
