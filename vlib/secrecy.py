"""Exhaustive comparison of what a party sees.

A program is run once to learn which random draws it makes and which seeds each watched device gets to know. Then
all secrets are run with all tapes (if the product fits), or, per device, with all values of the draws that the
device does not know, for several values of the draws it knows. The multiset of the device's views must be the same
for every secret (of a group: `group(secrets)` labels secrets that may be told apart)."""
import itertools

import numpy as np

from . import explore, rt
from .worker import Violation

CHUNK = 1 << 17


def _dom(s):
    h = s // 2
    return np.arange(-h, s - h)


def _pattern(i, c, s):
    """The i-th assignment of a known draw."""
    if i < 3:
        return (0, -1, 1)[i]
    return int((hash((c, i)) // 7) % s) - s // 2


def discover(setup, prog, doms, devs, init=None):
    rt.arm_views()
    rt.VIEWS.reset(explore.DISC, devs)
    rt.VIEWS.on = True
    try:
        prot = setup()
        rt.TAPE.batch = explore.DISC
        prog(prot, *[np.full(explore.DISC, d[0] if init is None else init[i], dtype=np.int64) for i, d in enumerate(doms)])
    finally:
        rt.VIEWS.on = False
    cols = list(rt.TAPE.domains.items())
    return cols, {d: set(rt.VIEWS.seeds[d]) for d in devs}


def _run(setup, prog, doms, varying, fixed, devs, seen, acc, stats):
    """Runs secrets x varying columns; adds to acc[d][secret] the fingerprint of the views."""
    sp = explore.Space(list(doms) + [_dom(s) for _, s in varying])
    nsec = int(np.prod([len(d) for d in doms]))
    per = sp.n // nsec
    B = min(CHUNK, max(17, sp.n))
    for lo in range(0, sp.n, B):
        idx = np.minimum(np.arange(lo, lo + B), sp.n - 1)
        n = min(B, sp.n - lo)
        vals = []
        k = idx
        for d in reversed(sp.doms):
            vals.append(d[k % len(d)])
            k = k // len(d)
        vals = vals[::-1]
        rt.VIEWS.reset(B, devs)
        rt.VIEWS.on = True
        try:
            prot = setup()
            rt.TAPE.batch = B
            rt.TAPE.columns.update(fixed)
            for (c, _), v in zip(varying, vals[len(doms):]):
                rt.TAPE.columns[c] = v
            prog(prot, *vals[: len(doms)])
        finally:
            rt.VIEWS.on = False
        if set(rt.TAPE.domains) - set(fixed) - {c for c, _ in varying}:
            raise Violation("the draws a program makes depend on the values")  # control flow that depends on secrets
        sec = idx[:n] // per
        for d in devs:
            if rt.VIEWS.seeds[d] - seen[d]:
                raise Violation("the keys a party gets to know depend on the values")
            h = rt.VIEWS.hash[d][:n].copy()
            with np.errstate(over="ignore"):
                for (c, _), v in zip(varying, vals[len(doms):]):
                    if c[0][0] // rt.SEED_STRIDE in seen[d]:
                        h = rt._mix(h * np.uint64(0x9E3779B97F4A7C15) + v[:n].astype(np.int64).view(np.uint64))
                np.add.at(acc[d][0], sec, rt._mix(h + np.uint64(1)))
                np.add.at(acc[d][1], sec, rt._mix(h ^ np.uint64(0xABCDEF)))
            stats["msgs"] = max(stats.get("msgs", 0), rt.VIEWS.msgs[d])
        stats["rows"] = stats.get("rows", 0) + n


def idle(setup, prog, doms, unknown, fixed, d, seen, n=1024):
    """Unknown draws that nothing the device reads depends on: for n spread-out assignments of secrets and draws, replacing
    the draw by its other values never changes the view. They need not be enumerated. Nor need draws that are sent to the
    device as they are: the view contains them, so all others can be enumerated for one value of them at a time."""
    out = []
    rs = np.random.RandomState(7)
    sec = [dm[rs.randint(0, len(dm), n)] for dm in doms]
    base = [_dom(s)[rs.randint(0, s, n)] for _, s in unknown]
    rows, tag = [], []
    for i, (_, s) in enumerate(unknown):
        for t in range(1, min(s, 4)):
            alt = [b.copy() for b in base]
            h = s // 2
            alt[i] = (alt[i] + h + t) % s - h
            rows.append(alt)
            tag.append(i)
    allr = [base] + rows
    B = n * len(allr)
    rt.VIEWS.reset(B, [d])
    rt.VIEWS.log = []
    rt.VIEWS.on = True
    try:
        prot = setup()
        rt.TAPE.batch = B
        rt.TAPE.columns.update(fixed)
        for i, (c, _) in enumerate(unknown):
            rt.TAPE.columns[c] = np.concatenate([r[i] for r in allr])
        prog(prot, *[np.tile(v, len(allr)) for v in sec])
    finally:
        rt.VIEWS.on = False
    h = rt.VIEWS.hash[d].reshape(len(allr), n)
    log, rt.VIEWS.log = rt.VIEWS.log, None
    live = {i for i, r in zip(tag, h[1:]) if (r != h[0]).any()}
    sent = set()
    for a in log:
        a = np.asarray(a[2]).reshape(B, -1)[:n].astype(np.int64)
        for i in live - sent:
            for j in range(a.shape[1]):
                if ((a[:, j] - base[i]) % unknown[i][1] == 0).all():
                    sent.add(i)
                    break
    return [unknown[i] for i in range(len(unknown)) if i not in live or i in sent]


def check(ck, setup, prog, doms, devs, names=None, group=None, max_rows=400000, assigns=4, what="", init=None):
    """devs: device numbers of the parties that must learn nothing."""
    doms = [np.asarray(d, dtype=np.int64) for d in doms]
    cols, seen = discover(setup, prog, doms, devs, init)
    nsec = int(np.prod([len(d) for d in doms]))
    secs = list(itertools.product(*[[int(v) for v in d] for d in doms]))
    labels = [group(*s) for s in secs] if group else [0] * nsec
    total = nsec
    for _, s in cols:
        total *= s
    stats, done, skipped = {}, [], []

    def judge(d, acc, how):
        ref = {}
        for i, l in enumerate(labels):
            f = (int(acc[0][i]), int(acc[1][i]))
            if l not in ref:
                ref[l] = (f, i)
            elif ref[l][0] != f:
                raise Violation("%s: what %s sees tells secrets %s and %s apart (%s)" % (
                    what, names[d] if names else "device %d" % d, secs[ref[l][1]], secs[i], how))
        done.append(d)

    def fresh():
        return [np.zeros(nsec, dtype=np.uint64), np.zeros(nsec, dtype=np.uint64)]

    full = total <= max_rows
    if full:
        acc = {d: fresh() for d in devs}
        _run(setup, prog, doms, cols, {}, devs, seen, acc, stats)
        for d in devs:
            judge(d, acc[d], "all tapes")
    else:
        for d in devs:
            known = [(c, s) for c, s in cols if c[0][0] // rt.SEED_STRIDE in seen[d]]
            unknown = [(c, s) for c, s in cols if c[0][0] // rt.SEED_STRIDE not in seen[d]]
            n = nsec
            for _, s in unknown:
                n *= s
            for i in range(assigns if n * assigns <= max_rows or n > max_rows else 1):
                fixed = {c: _pattern(i, c, s) for c, s in known}
                vary, m = unknown, n
                if n > max_rows:
                    # which draws are idle may depend on the draws the party knows
                    drop = idle(setup, prog, doms, unknown, fixed, d, seen)
                    vary = [u for u in unknown if u not in drop]
                    fixed.update({c: _pattern(3, c, s) for c, s in drop})
                    m = nsec
                    for _, s in vary:
                        m *= s
                    if m * (i + 1) > max_rows:
                        if i == 0:
                            skipped.append((d, m))
                        break
                acc = {d: fresh()}
                _run(setup, prog, doms, vary, fixed, [d], seen, acc, stats)
                judge(d, acc[d], "assignment %d of the draws it knows, all of the draws it does not" % i)
    rows = stats.get("rows", 0)
    ck.count(rows, states=rows, transitions=rows * max(1, len(cols)), traces=rows)
    ck.tapes[ck.label] = dict(rows=rows, columns=len(cols), complete=full, tapes="all" if full else "all unknown draws",
                              views=len(devs), skipped=[str(s) for s in skipped], messages=stats.get("msgs", 0))
    return full, skipped
