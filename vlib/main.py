"""Parent process of a check: starts worker shards, merges what they covered, decides the verdict.

Workers run the code under test, which may abort the process (CHECK failures in the
custom ops); an abort is attributed to the case that was running.
"""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    only = None
    extra = sys.argv[3:]
    if "--only" in extra:
        only = extra[extra.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    meta = __import__("checks.registry", fromlist=["CHECKS"]).CHECKS[pid]
    nsh = meta.get("shards", 4)
    if "--shards" in extra:
        nsh = int(extra[extra.index("--shards") + 1])
    limit = meta.get("limit", 840) if tier == "quick" else meta.get("tlimit", 6 * 3600)
    tmp = tempfile.mkdtemp(prefix="vchk-%s-" % pid)
    procs = []
    try:
        results, crashes, broken = [], [], []
        deadline = t0 + limit

        def start(i, first, n):
            out = os.path.join(tmp, "out%d-%d.json" % (i, n))
            cur = os.path.join(tmp, "cur%d" % i)
            logp = os.path.join(tmp, "log%d" % i)
            env = dict(os.environ)
            env["VERIF_SHARD"] = "%d/%d" % (i, nsh)
            env["VERIF_FROM"] = str(first)
            env["VERIF_SCRATCH"] = os.path.join(tmp, "scratch%d-%d" % (i, n))
            env["OMP_NUM_THREADS"] = "2"
            os.makedirs(env["VERIF_SCRATCH"])
            if os.path.exists(cur):
                os.remove(cur)
            cmd = [sys.executable, "-m", "vlib.worker", pid, tier, out, cur]
            if only:
                cmd += ["--only", only]
            with open(logp, "wb") as log:
                p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=HERE, env=env, start_new_session=True)
            procs.append(p)
            return [i, p, out, cur, logp, n]

        stall = meta.get("stall") and meta["stall"] * (1 if tier == "quick" else 10)
        active = [start(i, 0, 0) for i in range(nsh)]
        while active:
            if os.environ.get("VERIF_STOP") and os.path.exists(os.environ["VERIF_STOP"]):
                return 1
            for a in list(active):
                i, p, out, cur, logp, n = a
                timed_out = time.time() > deadline
                if stall and not timed_out and os.path.exists(cur):
                    timed_out = stalled = time.time() - os.path.getmtime(cur) > stall
                else:
                    stalled = False
                if p.poll() is None and not timed_out:
                    continue
                active.remove(a)
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                else:
                    timed_out = stalled = False
                res = None
                if os.path.exists(out):
                    try:
                        with open(out) as f:
                            res = json.load(f)
                        results.append(res)
                    except ValueError:
                        res = None
                text = open(logp, errors="replace").read()
                if os.environ.get("VERIF_VERBOSE"):
                    sys.stderr.write(text)
                if res is not None and res.get("complete"):
                    continue
                idx, label = None, ""
                if os.path.exists(cur):
                    idx, _, label = open(cur).read().partition(" ")
                if timed_out:
                    why = "did not finish within %d s" % (stall if stalled else limit)
                elif p.returncode < 0:
                    why = "process ended by signal %d" % -p.returncode
                else:
                    why = "process exited with %d" % p.returncode
                if label:
                    crashes.append(dict(key="crash:" + label, case=label, detail=why + "\n" + text[-3000:]))
                    if (stalled or not timed_out) and n < (2 if stalled else 4):
                        active.append(start(i, int(idx) + 1, n + 1))
                else:
                    broken.append(why + "\n" + text[-3000:])
            time.sleep(0.05)
        wall = time.time() - t0
        return finish(pid, tier, seed, meta, results, crashes, broken, wall)
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


def finish(pid, tier, seed, meta, results, crashes, broken, wall):
    viol = []
    cov = {}
    samples = []
    notes = {}
    tapes = {}
    for r in results:
        viol += r["violations"]
        for k, v in r["counts"].items():
            cov[k] = cov.get(k, 0) + v
        samples += r["samples"]
        tapes.update(r.get("tapes", {}))
        for k, v in r.get("by_kind", {}).items():
            notes[k] = notes.get(k, 0) + v
    viol += crashes
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)):
            if e["property"] == pid and e["status"] == "known":
                known[e["key"]] = e
    hit, new = {}, []
    for v in viol:
        if v["key"] in known:
            hit[v["key"]] = v
        else:
            new.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    stale = os.path.join(HERE, "evidence", "replay", pid + ".json")
    if os.path.exists(stale):
        os.remove(stale)
    level = meta["level"]
    coverage = dict(exhaustive=bool(meta.get("exhaustive", True)))
    if level == "model_checking":
        coverage["states"] = cov.get("states", 0)
        coverage["transitions"] = cov.get("transitions", 0)
        coverage["traces_validated_against_impl"] = cov.get("traces", 0)
    coverage["evaluations"] = cov.get("evaluations", 0)
    coverage["distinct_nontrivial"] = cov.get("distinct", 0)
    coverage["rule"] = meta["rule"]
    coverage["cases"] = cov.get("cases", 0)
    coverage["evaluations_by_kind"] = notes
    if tapes:
        full = [t for t in tapes.values() if t["complete"]]
        coverage["tapes"] = dict(programs=len(tapes), all_tapes=len(full), deviation_bounded=len(tapes) - len(full),
                                 rows=sum(t["rows"] for t in tapes.values()),
                                 not_exhausted=[k for k, t in tapes.items() if t.get("skipped")],
                                 largest=max(tapes.items(), key=lambda kv: kv[1]["rows"])[0])
    coverage["samples"] = samples[:12]
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
        assumptions=meta.get("assumptions", []), wall_s=round(wall, 2), violations=len(new),
    )
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, v in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if new:
        rp = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed,
                           replay="./run.sh %s %s --only '<case>'" % (pid, tier),
                           violations=new[:400]), f, indent=1)
        for v in new[:5]:
            print("-- %s\n%s" % (v["case"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if broken:
        print("check %s could not run:" % pid)
        for b in broken[:2]:
            print(b)
        return 2
    print("OK property=%s cases=%d evaluations=%d wall=%.1fs" % (pid, cov.get("cases", 0), cov.get("evaluations", 0), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
