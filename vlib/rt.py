"""Runtime of the harness: TensorFlow with one logical CPU per party, the owned randomness
(`tape`), recording of what each party sees (`views`), and the tf_encrypted import."""
import os
import random as _pyrandom
import sys

import numpy as np
import tfe_tf_compat  # noqa: F401
import tensorflow as tf
from tensorflow.python.framework import op_callbacks

NDEV = 8
tf.config.set_logical_device_configuration(
    tf.config.list_physical_devices("CPU")[0], [tf.config.LogicalDeviceConfiguration()] * NDEV
)
tf.config.threading.set_inter_op_parallelism_threads(1)
tf.config.threading.set_intra_op_parallelism_threads(2)


def dev(i):
    return "/job:localhost/replica:0/task:0/device:CPU:%d" % i


def dev_of(t):
    d = getattr(t, "device", "") or ""
    return int(d.rsplit(":", 1)[1]) if "CPU:" in d else -1


SEED_STRIDE = 1 << 12


class Tape:
    """All randomness of the library.

    mode 'real'   : the real generator, real entropy.
    mode 'det'    : the real seeded generator, but seeds come from a counter (reproducible).
    mode 'script' : a seed is an identity; (seed, stream position) is a column whose values per
                    row of the batch are given by `columns`, default `default`.
    """

    def __init__(self):
        self.mode = "real"
        self.real = None
        self.reset()

    def reset(self, start=1):
        self.next_seed = start
        self.columns = {}
        self.default = None
        self.batch = None
        self.draws = []  # (seedkey, shape, lo, hi, dtype name, device)
        self.domains = {}
        self.pyrandom = None
        self.unseeded = 0
        self.issued = []  # every seed handed out

    # -- seeds
    def secure_seed(self, name=None):
        if self.mode == "real" or not tf.executing_eagerly():
            return self.real.secure_seed(name=name)
        n = self.next_seed
        self.next_seed += 1
        if self.mode == "det":
            rs = np.random.RandomState((n * 7919 + SALT) % (2**31 - 1))
            s = rs.randint(-(2**31), 2**31 - 1, size=8, dtype=np.int64).astype(np.int32)
            self.issued.append(tuple(int(v) for v in s))
            return tf.constant(s)
        s = tf.constant(np.full(8, n * SEED_STRIDE, dtype=np.int32))
        return s

    # -- draws
    def secure_seeded_random_uniform(self, shape, seed, minval, maxval, name=None):
        if self.mode != "script" or not tf.executing_eagerly():
            r = self.real.secure_seeded_random_uniform(shape, seed, minval, maxval, name=name)
            if tf.executing_eagerly() and RECORD_DRAWS[0]:
                self.note(seed, r, int(minval), int(maxval))
            return r
        dtype = minval.dtype
        lo, hi = int(minval), int(maxval)
        return self.draw(shape, seed, lo, hi, dtype)

    def note(self, seed, r, lo, hi):
        self.draws.append((tuple(int(v) for v in np.asarray(seed).reshape(-1)), tuple(r.shape), lo, hi, r.dtype.name, dev_of(r)))

    def draw(self, shape, seed, lo, hi, dtype):
        """A scripted draw of values in [lo, hi)."""
        shape = [int(d) for d in (shape.as_list() if hasattr(shape, "as_list") else np.asarray(shape).reshape(-1))]
        nb = dtype.size * 8
        if hi - lo == 2**nb - 1:
            # the library asks for [min, max) where it means the whole ring
            hi += 1
        key = tuple(int(v) for v in np.asarray(seed).reshape(-1))
        size = hi - lo
        ax = shape.index(self.batch) if self.batch in shape else None
        rest = [d for i, d in enumerate(shape) if i != ax]
        n = int(np.prod(rest)) if rest else 1
        full = size == 2**nb
        cols = []
        scalar = True
        for j in range(n):
            c = (key, j)
            self.domains[c] = max(self.domains.get(c, 0), size)
            if c in self.columns:
                w = self.columns[c]
            else:
                w = self.default(c) if self.default else 0
            if np.ndim(w) == 0:
                w = (int(w) - lo) % size + lo
            else:
                w = np.asarray(w, dtype=np.int64)
                if ax is None:
                    w = (int(w[0]) - lo) % size + lo
                else:
                    scalar = False
                    if size >= 2**62 and not full:
                        w = np.clip(w, lo, hi - 1)
                    elif not full:
                        w = (w - lo) % size + lo
            cols.append(w)
        if scalar:
            a = np.array(cols, dtype=np.int64).reshape(rest)
            if ax is not None:
                a = np.broadcast_to(np.expand_dims(a, ax), shape)
        else:
            cols = [np.full(self.batch, w, dtype=np.int64) if np.ndim(w) == 0 else w for w in cols]
            a = np.stack(cols, axis=-1).reshape([self.batch] + rest)
            a = np.moveaxis(a, 0, ax)
        r = tf.constant(a, dtype=dtype)
        if RECORD_DRAWS[0]:
            self.draws.append((key, tuple(shape), lo, hi, dtype.name, dev_of(r)))
        VIEWS.saw_seed(dev_of(r), seed)
        return r

    def secure_random_uniform(self, shape, minval, maxval, name=None):
        self.unseeded += 1
        if self.mode == "real" or not tf.executing_eagerly():
            return self.real.secure_random_uniform(shape, minval, maxval, name=name)
        return self.secure_seeded_random_uniform(shape, self.secure_seed(), minval, maxval, name=name)

    def i128_secure_seeded_random_uniform(self, shape, seed, minval, maxval, name=None):
        r = self.real.i128_secure_seeded_random_uniform(shape, seed, minval, maxval)
        if tf.executing_eagerly() and RECORD_DRAWS[0]:
            self.note(seed, r, 0, 0)
        return r

    def i128_secure_random_uniform(self, shape, minval, maxval, name=None):
        self.unseeded += 1
        if self.mode == "real" or not tf.executing_eagerly():
            return self.real.i128_secure_random_uniform(shape, minval, maxval)
        return self.i128_secure_seeded_random_uniform(shape, self.secure_seed(), minval, maxval)


SALT = 0
RECORD_DRAWS = [False]
TAPE = Tape()


class _Proxy:
    _names = (
        "secure_seed", "secure_seeded_random_uniform", "secure_random_uniform",
        "i128_secure_seeded_random_uniform", "i128_secure_random_uniform",
    )

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, name):
        if name in _Proxy._names:
            return getattr(TAPE, name)
        return getattr(self._mod, name)


_real_load = tf.load_op_library


def _load(path):
    mod = _real_load(path)
    if "secure_random_module" in os.path.basename(path):
        TAPE.real = mod
        return _Proxy(mod)
    return mod


class Views:
    """Records, per party device, a running hash per row of every tensor that an operation on
    that device reads, and which seeds the device has seen."""

    def __init__(self):
        self.on = False
        self.blind = set()
        self.reset(0)

    def reset(self, batch, watch=()):
        self.batch = batch
        self.watch = set(watch)
        self.hash = {d: np.zeros(batch, dtype=np.uint64) for d in self.watch}
        self.seeds = {d: set() for d in self.watch}
        self.msgs = {d: 0 for d in self.watch}
        self.unplaced = 0
        self.skip = False
        self.log = None

    def saw_seed(self, d, seed):
        if not self.on or d not in self.watch or d in self.blind:
            return
        self.seeds[d].add(int(np.asarray(seed).reshape(-1)[0]) // SEED_STRIDE)

    def add(self, d, a, src):
        h = self.hash[d]
        B = self.batch
        if a.dtype == np.bool_:
            a = a.astype(np.int64)
        if not np.issubdtype(a.dtype, np.integer):
            if np.issubdtype(a.dtype, np.floating):
                a = a.astype(np.float64).view(np.int64) if a.ndim else a.astype(np.float64).reshape(1).view(np.int64)
            else:
                return
        if a.shape == (8,) and a.dtype == np.int32 and TAPE.mode == "script":
            self.seeds[d].add(int(a[0]) // SEED_STRIDE)
            return
        if B not in a.shape:
            if a.size >= B:
                self.unplaced += 1
            return
        ax = a.shape.index(B)
        b = np.moveaxis(a, ax, 0).reshape(B, -1).astype(np.int64).view(np.uint64)
        with np.errstate(over="ignore"):
            for j in range(b.shape[1]):
                h = _mix(h * np.uint64(0x9E3779B97F4A7C15) + b[:, j])
        self.hash[d] = h
        if src != d:
            self.msgs[d] += 1
            if self.log is not None:
                self.log.append((src, d, np.moveaxis(a, ax, 0)))

    def callback(self, op_type, inputs, attrs, outputs, op_name=None, graph=None):
        if not self.on or graph is not None or self.skip:
            return
        ds = {dev_of(o) for o in outputs if hasattr(o, "device")}
        ds &= self.watch
        ds -= self.blind
        if not ds:
            return
        d = ds.pop()
        self.skip = True
        try:
            for t in inputs:
                if isinstance(t, tf.Tensor) and t.dtype not in (tf.resource, tf.variant, tf.string):
                    self.add(d, t.numpy(), dev_of(t))
        finally:
            self.skip = False


def _mix(x):
    x = x ^ (x >> np.uint64(33))
    with np.errstate(over="ignore"):
        x = x * np.uint64(0xFF51AFD7ED558CCD)
        x = x ^ (x >> np.uint64(29))
        x = x * np.uint64(0xC4CEB9FE1A85EC53)
    return x ^ (x >> np.uint64(32))


VIEWS = Views()

tf.load_op_library = _load
import tensorflow.python.framework.load_library as _ll  # noqa: E402

_ll.load_op_library = _load

_orig_random = _pyrandom.random


def _random():
    p = TAPE.pyrandom
    if p is None:
        return _orig_random()
    return p()


_pyrandom.random = _random

TAPE.mode = "real"
import tf_encrypted as tfe  # noqa: E402
from tf_encrypted.config import Config  # noqa: E402
from tf_encrypted.player import Player  # noqa: E402
import tf_encrypted.protocol.protocol as _prot_mod  # noqa: E402

VIEWS_ARMED = [False]


def arm_views():
    if not VIEWS_ARMED[0]:
        op_callbacks.add_op_callback(VIEWS.callback)
        VIEWS_ARMED[0] = True


def disarm_views():
    if VIEWS_ARMED[0]:
        op_callbacks.remove_op_callback(VIEWS.callback)
        VIEWS_ARMED[0] = False


class DevConfig(Config):
    """Every player on a device of its own (device 0 belongs to nobody)."""

    def __init__(self, names, debug=True, shared=False):
        super().__init__(debug)
        self._players = []
        for i, n in enumerate(names):
            self._players.append(Player(name=n, index=i, device_name=dev(0 if shared else i + 1)))

    @property
    def players(self):
        return self._players

    def get_player(self, name_or_player):
        if isinstance(name_or_player, Player):
            return name_or_player
        for p in self._players:
            if p.name == name_or_player:
                return p
        return None

    def get_players(self, names):
        if isinstance(names, str):
            names = [n.strip() for n in names.split(",")]
        return [p for p in self._players if p.name in names]


PLAYERS = ["server0", "server1", "server2", "input-provider", "result-receiver", "other"]


def clear_cache():
    nodes = getattr(_prot_mod, "nodes", None)
    if hasattr(nodes, "clear"):
        nodes.clear()


def use_config(debug=True, shared=False, names=None):
    cfg = DevConfig(names or PLAYERS, debug=debug, shared=shared)
    tfe.set_config(cfg)
    clear_cache()
    return cfg


def set_mode(mode, start=1):
    TAPE.reset(start)
    TAPE.mode = mode
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    np.random.seed(seed)
    _pyrandom.seed(seed)


def aby3(config=None, debug=True, shared=False, mode="det"):
    use_config(debug=debug, shared=shared)
    set_mode(mode)
    from tf_encrypted.protocol import ABY3
    p = ABY3(fixedpoint_config=config)
    tfe.set_protocol(p)
    return p


def signed(v, nbits):
    """Python/numpy-object reduction to the signed representative."""
    m = 1 << nbits
    h = m >> 1
    f = np.vectorize(lambda t: ((int(t) + h) % m) - h, otypes=[object])
    return f(v)
