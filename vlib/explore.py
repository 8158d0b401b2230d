"""Exhaustive exploration of the random tape of a program.

A program is run once to discover which draws it makes (its columns: seed, stream position, size of
the range). Then every assignment of the secrets is run with every tape (when the product fits
max_rows) or with every tape that deviates from a base tape in at most `dev` columns."""
import itertools

import numpy as np

from . import rt

DISC = 11


class Space:
    """Index space: product of column domains, addressed by mixed radix."""

    def __init__(self, doms):
        self.doms = [np.asarray(d, dtype=np.int64) for d in doms]
        self.n = 1
        for d in self.doms:
            self.n *= len(d)

    def rows(self, lo, hi):
        idx = np.arange(lo, hi, dtype=np.int64)
        out = []
        for d in reversed(self.doms):
            out.append(d[idx % len(d)])
            idx = idx // len(d)
        return out[::-1]


def discover(setup, prog, nsec, init=None):
    prot = setup()
    rt.TAPE.batch = DISC
    z = [np.full(DISC, 0 if init is None else init[i], dtype=np.int64) for i in range(nsec)]
    prog(prot, *z)
    cols = list(rt.TAPE.domains.items())
    return cols


def _dom(size, k=None):
    h = size // 2
    return np.arange(-h, size - h)


def tapes(cols, max_tapes, dev=1):
    """A list of (fixed {col: value}, varying [(col, domain)]) covering the tape space."""
    total = 1
    for _, s in cols:
        total *= s
        if total > max_tapes:
            break
    if total <= max_tapes:
        return [({}, [(c, _dom(s)) for c, s in cols])], True
    out = []
    for base in (0, -1, 1):
        b = {c: base for c, _ in cols}
        for d in range(1, dev + 1):
            for sub in itertools.combinations(cols, d):
                out.append((b, [(c, _small(s, 64 if dev == 1 else 16)) for c, s in sub]))
    return out, False


def _small(s, full=16):
    if s <= full:
        return _dom(s)
    h = s // 2
    return np.array(sorted({0, 1, -1, h - 1, -h, h // 2, -h // 2, 3, -h + 1}), dtype=np.int64)


def run(setup, prog, secret_doms, judge, max_rows=600000, dev=1, chunk=300000, init=None):
    """judge(outputs, secrets) raises on a wrong row. Returns (rows, columns, complete)."""
    cols = discover(setup, prog, len(secret_doms), init)
    nsec = 1
    for d in secret_doms:
        nsec *= len(d)
    plans, complete = tapes(cols, max(1, max_rows // nsec), dev)
    rows = 0
    for fixed, varying in plans:
        sp = Space(list(secret_doms) + [d for _, d in varying])
        for lo in range(0, sp.n, chunk):
            hi = min(sp.n, lo + chunk)
            vals = sp.rows(lo, hi)
            B = hi - lo
            if B <= 16:  # keep the batch distinguishable from other axes
                vals = [np.resize(v, 17) for v in vals]
                B = 17
            prot = setup()
            rt.TAPE.batch = B
            for c, v in fixed.items():
                rt.TAPE.columns[c] = v
            for (c, _), v in zip(varying, vals[len(secret_doms):]):
                rt.TAPE.columns[c] = v
            sec = vals[: len(secret_doms)]
            out = prog(prot, *sec)
            judge(prot, out, sec, vals)
            rows += hi - lo
    return rows, len(cols), complete


def deviations(cols, dev, bases=(0, -1, 1), full=16):
    """All tapes that deviate from a base tape in at most dev columns, as one matrix (rows x columns)."""
    out = []
    n = len(cols)
    for base in bases:
        out.append(np.full((1, n), base, dtype=np.int64))
        for d in range(1, dev + 1):
            for sub in itertools.combinations(range(n), d):
                sp = Space([_small(cols[i][1], full) for i in sub])
                m = np.full((sp.n, n), base, dtype=np.int64)
                for i, v in zip(sub, sp.rows(0, sp.n)):
                    m[:, i] = v
                out.append(m)
    return np.concatenate(out)


def cross(secret_doms, m):
    """Every secret with every row of m: (secret columns, matrix)."""
    sp = Space(list(secret_doms) + [np.arange(len(m))])
    v = sp.rows(0, sp.n)
    return v[:-1], m[v[-1]]


def run_matrix(setup, prog, sec, m, cols, judge, chunk=200000):
    """Runs rows (sec[i][r], tape m[r]) in batches."""
    n = len(m)
    for lo in range(0, n, chunk):
        idx = np.arange(lo, min(n, lo + chunk))
        if len(idx) <= 16:
            idx = np.resize(idx, 17)
        prot = setup()
        rt.TAPE.batch = len(idx)
        for j, (c, _) in enumerate(cols):
            rt.TAPE.columns[c] = m[idx, j]
        s = [v[idx] for v in sec]
        judge(prot, prog(prot, *s), s, s + [m[idx, j] for j in range(len(cols))])
    return n
