#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N]

Deterministic simulation of tools21cm (see DESIGN.md). Exit 0: the property held on every
simulated run. Exit 1 and a VIOLATION line: it is broken; the replay file reproduces it.
"""
import argparse
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import build, meta  # noqa: E402

CPUS = min(8, os.cpu_count() or 1)


def known(prop):
    """[(key, what)] of open findings, from known_findings.txt."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("open: property=%s " % prop):
                rest = line.split(None, 2)[2]
                key, what = rest.split(None, 1)
                out.append((key[len("key="):], what.strip()))
    return out


class Proc:
    def __init__(self, job, tmp, so_shim, hashseed="0"):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        job = dict(job, fd=w)
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONSTARTUP")}
        env.update(LD_PRELOAD=so_shim, PYTHONHASHSEED=hashseed, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(tmp, "mpl"),
                   XDG_CACHE_HOME=os.path.join(tmp, "cache"), HOME=tmp, XDG_CONFIG_HOME=os.path.join(tmp, "cache"),
                   PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, PYTHONWARNINGS="ignore", TMPDIR=tmp, LANG="C.UTF-8",
                   PYTHONNOUSERSITE="1", TQDM_DISABLE="")
        env.pop("PYTHONPYCACHEPREFIX", None)
        env.pop("TQDM_DISABLE")
        os.makedirs(os.path.join(tmp, "cache", "astropy"), exist_ok=True)
        self.err = tempfile.TemporaryFile(dir=tmp)
        self.p = subprocess.Popen([sys.executable, "-m", "sim.worker", json.dumps(job)], cwd=tmp, env=env,
                                  pass_fds=(w,), stdout=subprocess.DEVNULL, stderr=self.err,
                                  stdin=subprocess.DEVNULL, start_new_session=True)
        os.close(w)
        self.r = r
        self.buf = b""
        self.job = job
        self.last = time.time()
        self.cur = None
        self.done = False

    def fileno(self):
        return self.r

    def read(self):
        d = os.read(self.r, 1 << 16)
        if not d:
            return None
        self.buf += d
        *lines, self.buf = self.buf.split(b"\n")
        self.last = time.time()
        return [json.loads(x) for x in lines]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        try:
            os.close(self.r)
        except OSError:
            pass

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("utf8", "replace")[-3000:]


def drain(procs, on, hang_s, deadline=None):
    """Runs worker processes to the end; on(proc, record). Returns [(proc, run)] that hung or died."""
    bad = []
    live = list(procs)
    while live:
        rs, _, _ = select.select(live, [], [], 0.5)
        for p in rs:
            recs = p.read()
            if recs is None:
                p.p.wait()
                live.remove(p)
                os.close(p.r)
                if not p.done:
                    bad.append((p, p.cur, "died (%s)" % p.p.returncode))
                continue
            for rec in recs:
                if "start" in rec:
                    p.cur = rec["start"]
                if "done" in rec:
                    p.done = True
                more = on(p, rec)
                if more is True:
                    for q in live:
                        q.kill()
                    return bad
                if more:                    # a process that takes over what this one left
                    live.append(more)
                    for q in live:
                        q.last = time.time()
        now = time.time()
        for p in list(live):
            if now - p.last > hang_s:
                p.kill()
                live.remove(p)
                bad.append((p, p.cur, "hung"))
    return bad


def replay_in_fresh(rep, prop, tier, so, shim, tmp, wall=300, hashseed="0"):
    got = {}
    job = dict(prop=prop, tier=tier, seed=rep["seed"], known=[], wall=wall, shrink_s=0, so=so, replay=rep)
    p = Proc(job, tmp, shim, hashseed)

    def on(p, rec):
        if "replayed" in rec:
            got.update(rec)
    bad = drain([p], on, wall)
    if bad and bad[0][2] == "hung":
        got["replayed"] = ["no-progress", "the run does not finish"]
    return got, bad


def confirm(rec, prop, tier, so, shim, tmp):
    """A failure counts when a fresh process shows it again. -> replay or None"""
    def shows(r):
        got, _ = replay_in_fresh(r, prop, tier, so, shim, tmp)
        v = got.get("replayed")
        if v and v[0] == r["key"]:
            r["replayed_identically"] = got.get("digest") == r["digest"]
            if not r["replayed_identically"]:
                r.update(digest=got.get("digest"), trace=got.get("trace"), message=v[1])
            return r
    r = rec["replay"]
    whole = dict(r, **rec["original"])
    out = shows(r) or shows(whole)
    if out:
        return out
    # a failure of earlier runs' making: some state survived in the process
    early = rec["earlier"]
    n = 1
    while True:
        out = shows(dict(whole, prefix=early[-n:])) if early else None
        if out or n >= len(early):
            return out
        n *= 4


def hash_seed_shows(rep, prop, so, shim, tmp):
    """Same run, interpreters started with other hash seeds: do the results differ?"""
    vals = []
    for h in rep["hash_seeds"]:
        got, _ = replay_in_fresh(dict(rep), prop, rep["tier"], so, shim, tmp, hashseed=str(h))
        vals.append(got.get("values"))
        rep["trace"] = got.get("trace", [])
    rep["message"] = "results by PYTHONHASHSEED: %s" % ", ".join("%s: %s" % x for x in zip(rep["hash_seeds"], vals))
    return vals[0] == vals[1] and len(set(vals)) > 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=CPUS)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    prop = a.prop
    info = meta.PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="t2cver")
    try:
        return run(a, prop, info, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, prop, info, tier, seed, tmp, t0):
    shim = build.shim(tmp)
    so = build.cython_ext(tmp) if info.get("cython") else None
    t_build = time.time() - t0
    kn = known(prop)
    if a.replay:
        rep = json.load(open(a.replay))
        if "hash_seeds" in rep:
            shows = hash_seed_shows(rep, prop, so, shim, tmp)
            print(rep["message"])
            if shows:
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return int(shows)
        got, bad = replay_in_fresh(rep, prop, rep["tier"], so, shim, tmp)
        print("\n".join(got.get("trace", [])))
        v = got.get("replayed")
        print("replayed:", v, "digest", got.get("digest"), "expected", rep["digest"])
        if v and v[0] == rep["key"]:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0
    n = a.runs or info["runs"][tier]
    wall = info.get("wall", {}).get(tier, 200 if tier == "quick" else 3000)
    hang = info.get("hang", 120)
    jobs = max(1, min(a.jobs, n))
    base = dict(prop=prop, tier=tier, seed=seed, known=[k for k, _ in kn], wall=wall,
                shrink_s=40 if tier == "quick" else 240, so=so)
    S = Counter()
    digests, values, scheds, trivial = {}, {}, set(), 0
    samples, harness, found, knownhits = [], [], [], Counter()
    stopped = [0]
    loose = {}          # failures no fresh process shows again

    def on(p, rec):
        nonlocal trivial
        if "harness" in rec:
            harness.append(rec["harness"])
        if "stopped" in rec:
            stopped[0] += 1
        if "run" not in rec:
            return False
        S.update(rec["stats"])
        digests[rec["run"]] = rec["digest"]
        if rec["values"]:
            values[rec["run"]] = rec["values"]
        if rec["nontrivial"]:
            scheds.add(rec["sched"])
        else:
            trivial += 1
        if "sample" in rec and len(samples) < 6:
            samples.append({"run": rec["run"], "events": rec["sample"]})
        if "violation" in rec:
            if "replay" in rec:
                rep = confirm(rec, prop, tier, so, shim, tmp)
                if rep is None:
                    rs = loose.setdefault(rec["replay"]["key"], [])
                    rs.append(dict(rec["replay"], **rec["original"], prefix=rec["earlier"]))
                    if len(rs) < 4:
                        p.done = True
                        left = [j for j in p.job["runs"] if j > rec["run"]]
                        return Proc(dict(base, runs=left), tmp, shim) if left else False
                    rep = rs[0]
                found.append(rep)
                return True
            knownhits[rec["violation"][0]] += 1
        return False

    procs = [Proc(dict(base, runs=list(range(k, n, jobs))), tmp, shim) for k in range(jobs)]
    bad = drain(procs, on, hang)
    # a run that hung or killed its process: once more, alone
    again = ["run %s %s: %s" % (i, why, p.stderr()[-300:]) for p, i, why in bad]
    for p, i, why in bad:
        if found:
            break
        if i is None:
            harness.append("worker %s before its first run: %s" % (why, p.stderr()))
            continue
        q = Proc(dict(base, runs=[i], wall=hang * 2), tmp, shim)
        b2 = drain([q], on, hang)
        if found:
            break
        if b2:
            rs = "%s:%s:%d" % (seed, prop, i)
            key = "no-progress" if b2[0][2] == "hung" else "process-died"
            found.append(dict(property=prop, seed=seed, run_seed=rs, index=i, tier=tier, key=key,
                              message="simulated run %d %s twice: %s" % (i, b2[0][2], q.stderr()[-800:]), choices=None,
                              digest="", trace=[]))
        else:
            left = [j for j in p.job["runs"] if j > i]
            if left:
                drain([Proc(dict(base, runs=left, wall=max(5, wall - (time.time() - t0))), tmp, shim)], on, hang)
    # results that must not depend on the interpreter's hash seed
    cross = {"checked": 0}
    if not found and info.get("hash_seeds") and values:
        recs = {}

        def on3(p, rec):
            if "run" in rec:
                recs[rec["run"]] = rec["values"]
        ids = sorted(values)[:info["hash_seeds"][tier]]
        drain([Proc(dict(base, runs=ids[j::jobs], wall=wall, known=["*"]), tmp, shim, hashseed=str(101 + j)) for j in range(jobs)], on3, hang)
        cross["checked"] = len(recs)
        for i in sorted(recs):
            if recs[i] == values[i]:
                continue
            rep = dict(property=prop, seed=seed, run_seed="%s:%s:%d" % (seed, prop, i), index=i, tier=tier, key="hash-seed", choices=None,
                       hash_seeds=[0, 0] + list(range(101, 101 + jobs)), digest="", trace=[])
            if hash_seed_shows(rep, prop, so, shim, tmp):
                found.append(rep)
                break
            cross.setdefault("not_shown_again", []).append(i)
    # determinism: the same seeds again in fresh processes, other grouping, other hash seed
    det = {"checked": 0, "mismatched": []}
    if not found and digests:
        ids = sorted(digests)
        step = max(1, len(ids) // (12 if tier == "quick" else 60))
        ids = ids[::step]
        det_recs = {}

        def on2(p, rec):
            if "run" in rec:
                det_recs[rec["run"]] = rec["digest"]
        k = min(3, jobs) if tier == "quick" else jobs
        ps = [Proc(dict(base, runs=ids[j::k], wall=60), tmp, shim, hashseed=str(17 + j)) for j in range(k)]
        drain(ps, on2, hang)
        det["checked"] = len(det_recs)
        det["mismatched"] = [i for i, d in det_recs.items() if digests.get(i) != d]
    status = 0
    if found:
        rep = found[0]
        ev = os.path.join(HERE, "evidence")
        os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
        path = os.path.join(ev, "replays", "%s-%s.json" % (prop, rep["key"].replace("/", "_")[:60]))
        json.dump(rep, open(path, "w"), indent=1)
        print("\n".join(rep["trace"][-40:]))
        print("%s: %s" % (rep["key"], rep["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
        status = 1
    for key, what in kn:
        print("KNOWN-FINDING: property=%s %s (seen in %d runs)" % (prop, what, knownhits[key]))
    wall_s = time.time() - t0
    faults = {k[6:]: v for k, v in sorted(S.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(S.items()) if k.startswith("probe:")}
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": len(digests), "distinct_nontrivial": len(scheds),
            "rule": info["rule"] + " Non-trivial: at least one fault, preemption, reordering or restart actually "
                    "happened; distinct by the hash of the schedule and fault placement.",
            "samples": samples[:3] or [{"run": None, "events": (found[0]["trace"][:60] if found else [])}],
            "simulated_runs": len(digests), "trivial_runs": trivial,
            "runs_per_hour": int(len(digests) / max(1e-9, wall_s - t_build) * 3600),
            "seeds": "%d:%s:0..%d" % (seed, prop, n - 1),
            "simulated_seconds": round(float(S.get("sim_seconds", 0)), 3), "simulated_steps": S.get("steps", 0),
            "simulated_processes": S.get("nodes", 0), "preemptions": S.get("preemptions", 0),
            "oracle_checks": S.get("oracle_checks", 0), "faults_injected": faults, "probes": probes,
            "determinism": det, "time_capped_workers": stopped[0],
            "components_real": info["real"], "components_stubbed": info["stub"],
            "known_findings_seen": dict(knownhits), "hash_seed_comparison": cross,
            "runs_done_again_alone": again,
            "not_reproduced": {k: [dict(run=r["index"], message=r["message"][:300]) for r in v] for k, v in loose.items()},
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall_s, 2), "violations": len(found),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d distinct non-trivial, %d oracle checks, faults %s, %.1fs (build %.1fs)%s" % (
        prop, tier, len(digests), len(scheds), S.get("oracle_checks", 0), sum(faults.values()), wall_s, t_build,
        "" if not det["mismatched"] else " DETERMINISM MISMATCH %s" % det["mismatched"]))
    if a.stats:
        print(json.dumps({"faults": faults, "probes": probes}, indent=1))
    if status == 0 and (harness or not digests):
        for h in harness[:5]:
            print("HARNESS ERROR", h)
        return 3
    return status


if __name__ == "__main__":
    sys.exit(main())
