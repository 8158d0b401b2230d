"""One shard of a check."""
import importlib
import json
import os
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    pass


class Ck:
    """Collects what a check covered and what it found."""

    def __init__(self, pid, tier, out, cur, only=None):
        self.pid, self.tier, self.out, self.cur, self.only = pid, tier, out, cur, only
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        i, n = os.environ.get("VERIF_SHARD", "0/1").split("/")
        self.shard, self.nshards = int(i), int(n)
        self.scratch = os.environ.get("VERIF_SCRATCH", "/tmp")
        self.idx = 0
        self.start = int(os.environ.get("VERIF_FROM", "0"))
        self.violations = []
        self.counts = dict(cases=0, evaluations=0, distinct=0, states=0, transitions=0, traces=0)
        self.by_kind = {}
        self.samples = []
        self.label = None
        self.kind = ""
        self.times = {}
        self.tapes = {}

    # -- cases ----------------------------------------------------------------
    def case(self, label, fn, *args, key=None, kind=None, **kw):
        """Runs fn as one case, if it belongs to this shard. Any exception is a violation:
        every case is made of calls that the properties promise to work."""
        mine = self.idx % self.nshards == self.shard and self.idx >= self.start
        self.idx += 1
        if not mine or (self.only and self.only not in label):
            return
        with open(self.cur, "w") as f:
            f.write("%d %s" % (self.idx - 1, label))
        self.label, self.kind = label, kind or label.split("/")[0].split("[")[0]
        self.counts["cases"] += 1
        t = time.time()
        try:
            fn(*args, **kw)
        except Violation as e:
            self._violate(key or label, str(e))
        except BaseException as e:  # noqa
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            self._violate(key or label, "exception: %s\n%s" % (e, traceback.format_exc()[-3500:]))
        self.times[label] = time.time() - t
        if os.environ.get("VERIF_VERBOSE"):
            print("case %s %.2fs" % (label, time.time() - t), flush=True)
        self.label = None
        if len(self.violations) > 200:
            self.done()
            sys.exit(0)

    def _violate(self, key, detail):
        self.violations.append(dict(key=key, case=self.label or key, detail=detail))
        self.done(False)
        if os.environ.get("VERIF_STOP") and not key.startswith("finding:"):  # for trying out changes: the first violation is enough
            open(os.environ["VERIF_STOP"], "w").close()

    def fail(self, msg, key=None):
        if key is not None:
            self._violate(key, msg)
            return
        raise Violation(msg)

    # -- counting -------------------------------------------------------------
    def count(self, evaluations=0, distinct=None, states=0, transitions=0, traces=0, sample=None):
        self.counts["evaluations"] += int(evaluations)
        self.counts["distinct"] += int(evaluations if distinct is None else distinct)
        self.counts["states"] += int(states)
        self.counts["transitions"] += int(transitions)
        self.counts["traces"] += int(traces)
        self.by_kind[self.kind] = self.by_kind.get(self.kind, 0) + int(evaluations)
        if sample is not None and len(self.samples) < 4:
            self.samples.append(sample)

    def tape(self, setup, prog, doms, oracle, opener, max_rows=600000, dev=1, what="", init=None):
        """Every secret x every tape (see vlib.explore), compared with an oracle on the secrets."""
        from . import explore

        def judge(prot, out, sec, vals):
            want = oracle(*sec)
            if not isinstance(out, (list, tuple)):
                out, want = [out], [want]
            for i, (o, w) in enumerate(zip(out, want)):
                self.eq(opener(prot, o), w, "%s output %d" % (what, i), vals)

        rows, cols, complete = explore.run(setup, prog, doms, judge, max_rows, dev, init=init)
        self.count(0, states=rows, transitions=rows * max(1, cols), traces=rows)
        self.tapes[self.label] = dict(rows=rows, columns=cols, complete=complete)
        return rows

    def tape_within(self, setup, prog, doms, bounds, opener, max_rows=600000, dev=1, what="", init=None):
        """As tape, but the opened output must lie in [lo, hi] = bounds(*secrets); rows where lo > hi are don't-cares."""
        from . import explore

        def judge(prot, out, sec, vals):
            lo, hi = bounds(*sec)
            self.within(opener(prot, out), lo, hi, what, vals)

        rows, cols, complete = explore.run(setup, prog, doms, judge, max_rows, dev, init=init)
        self.count(0, states=rows, transitions=rows * max(1, cols), traces=rows)
        self.tapes[self.label] = dict(rows=rows, columns=cols, complete=complete)
        return rows

    # -- oracles --------------------------------------------------------------
    def eq(self, got, want, what="", inputs=None):
        """Exact equality of integer arrays (object arrays allowed)."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
        bad = np.not_equal(got, want)
        self.counts["evaluations"] += int(bad.size)
        self.counts["distinct"] += int(bad.size)
        self.by_kind[self.kind] = self.by_kind.get(self.kind, 0) + int(bad.size)
        if len(self.samples) < 4 and bad.size:
            j = tuple(int(d) // 2 for d in got.shape)
            self.samples.append(dict(case=self.label, what=what, index=list(j), got=str(got[j]), want=str(want[j]),
                                     inputs=_inp(inputs, j)))
        if bad.any():
            j = tuple(int(a[0]) for a in np.nonzero(bad)) if bad.ndim else ()
            raise Violation("%s: %d of %d wrong; first at %s: got %s, expected %s; inputs %s" % (
                what, int(bad.sum()), bad.size, j, got[j], want[j], _inp(inputs, j)))

    def within(self, got, lo, hi, what="", inputs=None):
        """Integer arrays: lo <= got <= hi wherever lo <= hi."""
        got, lo, hi = np.asarray(got), np.asarray(lo), np.asarray(hi)
        if got.shape != lo.shape:
            raise Violation("%s: shape %s, expected %s" % (what, got.shape, lo.shape))
        care = lo <= hi
        bad = care & ((got < lo) | (got > hi))
        n = int(np.sum(care))
        self.counts["evaluations"] += n
        self.counts["distinct"] += n
        self.by_kind[self.kind] = self.by_kind.get(self.kind, 0) + n
        if bad.any():
            j = tuple(int(a[0]) for a in np.nonzero(bad)) if bad.ndim else ()
            raise Violation("%s: %d of %d outside the bounds; first at %s: got %s, expected %s..%s; inputs %s" % (
                what, int(bad.sum()), bad.size, j, got[j], lo[j], hi[j], _inp(inputs, j)))

    def close(self, got, want, tol, what="", inputs=None):
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        if got.shape != want.shape:
            raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
        err = np.abs(got - want)
        bad = ~(err <= tol)
        self.counts["evaluations"] += int(bad.size)
        self.counts["distinct"] += int(bad.size)
        self.by_kind[self.kind] = self.by_kind.get(self.kind, 0) + int(bad.size)
        if len(self.samples) < 4 and bad.size:
            j = tuple(int(d) // 2 for d in got.shape)
            self.samples.append(dict(case=self.label, what=what, index=list(j), got=str(got[j]), want=str(want[j]),
                                     inputs=_inp(inputs, j)))
        if os.environ.get("VERIF_ERR") and err.size:
            rel = err / np.maximum(np.asarray(tol, dtype=np.float64), 1e-300)
            print("ERR %s %s max=%.3g frac_of_tol=%.3f" % (self.label, what, float(np.nanmax(err)), float(np.nanmax(rel))), flush=True)
        if bad.any():
            j = tuple(int(a[0]) for a in np.nonzero(bad)) if bad.ndim else ()
            raise Violation("%s: %d of %d outside tolerance; first at %s: got %s, expected %s; worst error %s; inputs %s" % (
                what, int(bad.sum()), bad.size, j, got[j], want[j], np.nanmax(err), _inp(inputs, j)))

    def either(self, got, want, finding, tol, key, what=""):
        """Right, or exactly the documented wrong result of a listed finding (reported under its key); anything else is a violation."""
        got, want, finding = [np.asarray(v, dtype=np.float64) for v in (got, want, finding)]
        if got.shape == want.shape and (np.abs(got - want) <= tol).all():
            self.count(got.size)
            return
        if got.shape == finding.shape and (np.abs(got - finding) <= tol).all():
            self.count(got.size)
            self._violate(key, "%s: got the result of finding %s" % (what, key))
            return
        self.close(got, want, tol, what)

    def true(self, cond, what=""):
        self.count(1)
        if not cond:
            raise Violation(what)

    def done(self, complete=True):
        with open(self.out, "w") as f:
            json.dump(dict(complete=complete, violations=self.violations, counts=self.counts, samples=self.samples,
                           by_kind=self.by_kind, tapes=self.tapes), f, default=str)


def _inp(inputs, j):
    if inputs is None:
        return None
    r = []
    for x in inputs:
        x = np.asarray(x)
        try:
            if x.ndim == 0:
                r.append(str(x))
            elif x.shape[0] > (j[0] if j else 0):
                r.append(str(x[j[0]] if j else x))
            else:
                r.append("?")
        except Exception:
            r.append("?")
    return r


def main():
    pid, tier, out, cur = sys.argv[1:5]
    only = sys.argv[6] if len(sys.argv) > 6 else None
    ck = Ck(pid, tier, out, cur, only)
    mod = importlib.import_module("checks." + pid.lower())
    mod.run(ck)
    ck.done()
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(ck.times.items(), key=lambda kv: -kv[1])[:15]:
            print("slow %.1fs %s" % (v, k))


if __name__ == "__main__":
    main()
