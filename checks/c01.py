"""C01: sharing and revealing round-trips on consistent shares."""
import numpy as np
import tensorflow as tf

from vlib import a3, explore, pd, rt, smallring, words
from vlib.worker import Violation
from tf_encrypted.protocol import ABY3
from tf_encrypted.tensor import factories


def run(ck):
    aby3_small(ck)
    aby3_wide(ck)
    aby3_entries(ck)
    pond_small(ck)
    pond_entries(ck)


# -- ABY3, whole ring x whole tape ---------------------------------------------
def aby3_small(ck):
    ks = (2, 3, 4, 5) if ck.quick else (2, 3, 4, 5, 6)
    for k in ks:
        for share in (a3.A, a3.B):
            ck.case("aby3-small/k%d/%s" % (k, share), _aby3_small, ck, k, share)
    for bits in (1,):
        ck.case("aby3-bool-exhaustive", _aby3_bool, ck)


def _taped(setup, prog, secrets, dom=None, limit=1 << 21):
    """Runs prog on every secret with every tape, whatever draws it makes (columns are discovered): protocol, secrets, tape columns, result."""
    cols = [c for c, _ in explore.discover(setup, prog, 1, [secrets[0]])]
    ext = dom if dom is not None else [0, 1]
    while len(secrets) * len(ext) ** len(cols) > limit:
        cols = cols[:-1]
    allc = words.product(secrets, *[ext] * len(cols))
    prot = setup()
    rt.TAPE.batch = len(allc[0])
    for c, v in zip(cols, allc[1:]):
        rt.TAPE.columns[c] = v
    return prot, allc[0], allc[1:], prog(prot, allc[0])


def _aby3_small(ck, k, share):
    dom = np.arange(1 << k) - (1 << (k - 1))
    prot, secret, tape, x = _taped(lambda: rt.aby3(smallring.config(k), mode="script"), lambda p, v: a3.private(p, v, share=share), dom, dom)
    v = a3.open_private(prot, x, "share")
    ck.eq(v, secret, "reveal(share(x))", [secret] + tape)
    s = a3.shares_of(prot, x)
    used = set(zip(*(t.tolist() for t in s)))
    n = 1 << k
    ck.true(len(used) == n**3, "not every sharing of every value is reachable: %d of %d" % (len(used), n**3))
    ck.count(0, states=len(secret), transitions=2 * len(secret), traces=len(secret))
    back = a3.ints(x.reveal().unwrapped[0])
    ck.eq(back, secret, "tensor.reveal()", [secret])


def _aby3_bool(ck):
    prot, secret, tape, x = _taped(lambda: rt.aby3(mode="script"), lambda p, v: p.define_private_variable(
        np.asarray(v).astype(bool), apply_scaling=False, share_type=a3.B, factory=a3.BOOL), [0, 1], [0, 1])
    n = len(secret)
    ck.eq(a3.open_private(prot, x), secret, "bool", [secret] + tape)
    ck.count(0, states=n, transitions=n, traces=n)


# -- ABY3, production rings ------------------------------------------------------
MASKS = [0, 1, -1, 2**63 - 1, -(2**63), 0x5555555555555555, -(2**62)]


def aby3_wide(ck):
    for share in (a3.A, a3.B):
        for m0 in MASKS:
            ck.case("aby3-64/%s/mask%x" % (share, m0 & (2**64 - 1)), _aby3_64, ck, share, m0)
        ck.case("aby3-128/%s" % share, _aby3_128, ck, share)
        for f, n in ((tf.int8, 8), (tf.int16, 16), (tf.int32, 32)):
            ck.case("aby3-native%d/%s" % (n, share), _aby3_n, ck, share, f, n)


def _aby3_64(ck, share, m0):
    W = words.words(64, 1 if ck.quick else 2)
    secret, m1 = words.pairs(W, MASKS)
    prog = lambda p, v: a3.private(p, v, share=share)
    cols = [c for c, _ in explore.discover(lambda: rt.aby3(mode="script"), prog, 1)]
    prot = rt.aby3(mode="script")
    rt.TAPE.batch = len(secret)
    for i, c in enumerate(cols):
        rt.TAPE.columns[c] = m1.astype(np.int64) if i % 2 else m0
    x = prog(prot, secret)
    ck.eq(a3.open_private(prot, x), secret.astype(np.int64), "reveal(share(x))", [secret, m1])
    r = prot.reveal(x).to_native().numpy()
    ck.eq(r, secret.astype(np.int64), "decoded", [secret])
    ck.count(0, states=len(secret), transitions=len(secret), traces=len(secret))


def _aby3_128(ck, share):
    W = np.array(words.words(128, 1 if ck.quick else 2), dtype=object)
    prot = rt.aby3("high", mode="det")
    x = a3.private(prot, W, share=share)
    ck.eq(a3.open_private(prot, x), W, "reveal(share(x))", [W])
    ck.count(0, states=len(W), transitions=len(W), traces=len(W))


def _aby3_n(ck, share, dt, n):
    W = np.arange(-128, 128) if n == 8 else np.array(words.words(n), dtype=np.int64)
    prot = rt.aby3(mode="det")
    x = prot.define_private_variable(W, apply_scaling=False, share_type=share, factory=factories[dt])
    ck.eq(a3.open_private(prot, x), W, "reveal(share(x))", [W])
    ck.count(0, states=len(W), transitions=len(W), traces=len(W))


# -- every way of entering a value ---------------------------------------------
def fixed_values(f, integral):
    """Rationals on and off the fixed-point grid, over the whole range."""
    s = 2.0**f
    v = [0.0, 1.0, -1.0, 0.5, -0.5, 1 / s, -1 / s, 3 / s, -3 / s, 1.5 / s, -1.5 / s, 0.1, -0.1, 1 / 3, -2 / 3]
    for i in range(integral):
        v += [2.0**i, -(2.0**i), 2.0**i - 1 / s, -(2.0**i) + 1 / s, 2.0**i + 0.37, -(2.0**i) - 0.37]
    return np.array(v)


def aby3_entries(ck):
    for hp in ("low", "high"):
        for form in ("private-np", "private-tf", "private-tf32", "public-np", "public-tf", "const-np", "const-tf", "const-py",
                     "private-input", "public-input", "private-input-list", "private-from-private", "public-from-public",
                     "private-int", "const-int"):
            for share in (a3.A, a3.B):
                if share == a3.B and not form.startswith("private"):
                    continue
                ck.case("aby3-entry/%s/%s/%s" % (hp, form, share), _aby3_entry, ck, hp, form, share)


def _aby3_entry(ck, hp, form, share):
    prot = rt.aby3(hp)
    fc = prot.fixedpoint_config
    f = fc.precision_fractional
    v = fixed_values(f, fc.precision_integral)
    if form.endswith("tf32"):
        v = v.astype(np.float32).astype(np.float64)
    scale = 2**f
    if form.endswith("-int"):
        v = np.array([0, 1, -1, 5, -7, 1023, -1024, 2**20, -(2**20) - 1], dtype=np.int64)
        want_raw = v
        scaled = False
    else:
        # the encoding truncates toward zero
        want_raw = np.array([int(t * scale) for t in v])
        scaled = True
    got = []
    kw = dict(share_type=share) if form.startswith("private") else {}
    if form in ("private-np",):
        got = [prot.define_private_variable(v, **kw)]
    elif form == "private-tf":
        got = [prot.define_private_variable(tf.constant(v), **kw)]
    elif form == "private-tf32":
        got = [prot.define_private_variable(tf.constant(v.astype(np.float32)), **kw)]
    elif form == "public-np":
        got = [prot.define_public_variable(v)]
    elif form == "public-tf":
        got = [prot.define_public_variable(tf.constant(v))]
    elif form == "const-np":
        got = [prot.define_constant(v)]
    elif form == "const-tf":
        got = [prot.define_constant(tf.constant(v))]
    elif form == "const-py":
        for t, w in zip(v, want_raw):
            c = prot.define_constant(float(t))
            ck.eq(a3.open_any(prot, c), np.array(w), "constant %r" % t)
            ck.close(c.to_native().numpy(), w / scale, 0, "decoded")
        ck.count(0, states=len(v), transitions=len(v), traces=len(v))
        return
    elif form == "private-input":
        got = [prot.define_private_input("input-provider", lambda: tf.constant(v), **kw)]
    elif form == "public-input":
        got = [prot.define_public_input("input-provider", lambda: tf.constant(v))]
    elif form == "private-input-list":
        got = prot.define_private_input("input-provider", lambda: [tf.constant(v), tf.constant(v)], **kw)
    elif form == "private-from-private":
        got = [prot.define_private_variable(prot.define_private_variable(v, **kw), **kw)]
    elif form == "public-from-public":
        got = [prot.define_public_variable(prot.define_public_variable(v))]
    elif form == "private-int":
        got = [prot.define_private_variable(v, apply_scaling=False, **kw)]
    elif form == "const-int":
        got = [prot.define_constant(v, apply_scaling=False)]
    for g in got:
        ck.true(g.is_scaled == scaled, "is_scaled is %s" % g.is_scaled)
        ck.eq(a3.open_any(prot, g, form, devices=form != "public-input"), want_raw, form, [v])
        pub = prot.reveal(g) if isinstance(g, a3.ABY3PrivateTensor) else g
        dec = pub.to_native().numpy()
        want = want_raw / scale if scaled else want_raw
        ck.close(dec, want, 0, form + " decoded", [v])
        if hasattr(g, "read_value"):
            ck.eq(a3.open_any(prot, g.read_value(), form), want_raw, form + " read_value", [v])
    ck.count(0, states=len(v), transitions=len(v), traces=len(v))


# -- Pond -----------------------------------------------------------------------
def pond_small(ck):
    for cls in ("Pond", "SecureNN"):
        for k in (2, 4, 6) if ck.quick else (2, 4, 6, 8):
            for swap in (0, 1):
                ck.case("%s-small/k%d/swap%d" % (cls.lower(), k, swap), _pond_small, ck, cls, k, swap)
    for swap in (0, 1):
        for cfg in ("low", "high"):
            ck.case("pond-wide/%s/swap%d" % (cfg, swap), _pond_wide, ck, cfg, swap)


def _pond_small(ck, cls, k, swap):
    dom = np.arange(1 << k) - (1 << (k - 1))
    def setup():
        p = pd.pond(smallring.config(k, frac=0, integral=0), mode="script", cls=pd.Pond if cls == "Pond" else pd.SecureNN)
        rt.TAPE.pyrandom = lambda: 0.25 if swap == 0 else 0.75
        return p

    prot, secret, tape, x = _taped(setup, pd.private, dom, dom)
    cols = [secret] + tape
    ck.eq(pd.open_private(prot, x), cols[0], "reveal(share(x))", cols)
    s0, s1 = (pd.ints(t) for t in x.unwrapped)
    used = set(zip(s0.tolist(), s1.tolist()))
    ck.true(len(used) == 4**k, "not every sharing of every value is reachable")
    ck.count(0, states=len(cols[0]), transitions=len(cols[0]), traces=len(cols[0]))


def _pond_wide(ck, cfg, swap):
    prot = pd.pond(cfg)
    rt.TAPE.pyrandom = lambda: 0.25 if swap == 0 else 0.75
    W = np.array(words.words(64), dtype=np.int64)
    x = pd.private(prot, W)
    ck.eq(pd.open_private(prot, x), W.astype(object), "reveal(share(x))", [W])
    # decoding is promised for values within the single precision bound
    b = prot.fixedpoint_config.bound_single_precision
    V = np.array([w for w in words.words(64) if -b < w < b], dtype=np.int64)
    r = prot.reveal(pd.private(prot, V)).to_native().numpy()
    ck.eq(r.astype(np.int64), V, "decoded", [V])
    ck.count(0, states=len(W) + len(V), transitions=len(W), traces=len(W))


def pond_entries(ck):
    for cls in ("Pond", "SecureNN"):
        for cfg in ("low", "high", "64_ni", "100_ni"):
            if cls == "SecureNN" and cfg not in ("low", "64_ni"):
                continue
            for form in ("private-np", "private-tf", "public-np", "public-tf", "const-np", "private-input", "public-input",
                         "private-from-public", "private-from-private", "public-from-public", "private-int", "mask"):
                ck.case("pond-entry/%s/%s/%s" % (cls, cfg, form), _pond_entry, ck, cls, cfg, form)


CFG = {"low": "low", "high": "high", "64_ni": pd.fixed64_ni, "100_ni": pd.fixed100_ni}


def _pond_entry(ck, cls, cfg, form):
    for swap in (0, 1):
        prot = pd.pond(CFG[cfg], cls=getattr(pd, cls))
        rt.TAPE.pyrandom = lambda: 0.25 if swap == 0 else 0.75
        fc = prot.fixedpoint_config
        sc = fc.scaling_factor
        lim = fc.scaling_base**fc.precision_integral
        v = np.array([0.0, 1.0, -1.0, 0.5, -0.5, 1 / sc, -1 / sc, 1.5 / sc, -1.5 / sc, 0.1, -0.1, 1 / 3, -2 / 3])
        big = [lim / 2 ** i for i in range(1, 8)]
        v = np.concatenate([v, big, [-b for b in big], [lim - 1.0, -lim + 1.0]])
        raw = np.array([int(t * sc) for t in v])
        scaled = True
        if form == "private-np":
            g = prot.define_private_variable(v)
        elif form == "private-tf":
            g = prot.define_private_variable(tf.constant(v))
        elif form == "public-np":
            g = prot.define_public_variable(v)
        elif form == "public-tf":
            g = prot.define_public_variable(tf.constant(v))
        elif form == "const-np":
            g = prot.define_constant(v)
        elif form == "private-input":
            g = prot.define_private_input("input-provider", lambda: tf.constant(v))
        elif form == "public-input":
            g = prot.define_public_input("input-provider", lambda: tf.constant(v))
        elif form == "private-from-public":
            g = prot.define_private_variable(prot.define_public_variable(v))
        elif form == "private-from-private":
            g = prot.define_private_variable(prot.define_private_variable(v))
        elif form == "public-from-public":
            g = prot.define_public_variable(prot.define_public_variable(v))
        elif form == "mask":
            g = prot.mask(prot.define_private_variable(v))
        elif form == "private-int":
            v = np.array([0, 1, -1, 77, -88, 1000, -1000])
            raw, scaled = v, False
            g = prot.define_private_variable(v, apply_scaling=False)
        ck.true(g.is_scaled == scaled, "is_scaled")
        ck.eq(pd.open_any(prot, g, form), raw.astype(object), form, [v])
        pub = g if isinstance(g, pd.PondPublicTensor) else prot.reveal(g)
        ck.close(pub.to_native().numpy(), raw / sc if scaled else raw, 1e-9, form + " decoded", [v])
        if hasattr(g, "read_value"):
            ck.eq(pd.open_any(prot, g.read_value(), form), raw.astype(object), form + " read_value", [v])
        ck.count(0, states=len(v), transitions=len(v), traces=len(v))
