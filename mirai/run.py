#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's current tree by static analysis.

exit 0: no violation found; exit 1: violations (or nothing could be decided at all); exit 2: the tree does not build."""
import collections, json, multiprocessing as mp, os, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build
import judge as J

EVID = os.path.join(VERIF, "evidence")
P = None
PREP = None


class Timeout(Exception):
    pass


def on_alarm(*_):
    raise Timeout()


def init(prep):
    global P, PREP
    PREP = prep
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, on_alarm)


def work(job):
    """job = (index, module, function, kwargs, seconds)."""
    global P
    i, mod, fn, kw, secs = job
    t0 = time.monotonic()
    name = "%s.%s%s" % (mod, fn, kw)
    try:
        from prog import Prog
        if P is None:
            P = Prog(*PREP[:3])
        m = __import__(mod)
        signal.alarm(int(secs) + 20)
        try:
            r = getattr(m, fn)(P, deadline=t0 + secs, **kw)
        finally:
            signal.alarm(0)
        r.wall = time.monotonic() - t0
        return i, r
    except Timeout:
        r = J.Report(name)
        r.undec("time limit")
        P = None
    except BaseException as e:
        r = J.Report(name)
        r.undec("analysis stopped: %s: %s" % (type(e).__name__, str(e)[:200]))
        r.error = traceback.format_exc()[-3000:]
        P = None
    r.wall = time.monotonic() - t0
    return i, r


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2].strip())
    return out


def run_jobs(jobs, prep, budget, nproc=8):
    """jobs: [(module, function, kwargs, seconds)]."""
    t0 = time.monotonic()
    res = {}
    if not jobs:
        return []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(nproc, len(jobs)), init, (prep,), maxtasksperchild=None)
    try:
        todo = [(i,) + tuple(j) for i, j in enumerate(jobs)]
        todo.sort(key=lambda j: -(10 * (j[3].get("n") or 0) if j[3].get("variant") == "Map" else 39 if j[2] == "keyed_job" else 0))   # the long ones first
        it = pool.imap_unordered(work, todo, chunksize=1)
        while len(res) < len(jobs):
            left = budget - (time.monotonic() - t0)
            if left <= 0:
                break
            try:
                i, r = it.next(timeout=left)
                res[i] = r
                if os.environ.get("MIRAI_VERBOSE"):
                    print("%6.1f %5.1f %4d paths %5d ok %4d undec %3d viol  %s %s" % (time.monotonic() - t0, r.wall, r.paths, r.decided, r.undecided, len(r.viol), r.name, dict(r.why)), flush=True)
                    if r.error:
                        print(r.error)
            except mp.TimeoutError:
                break
            except StopIteration:
                break
    finally:
        pool.terminate()
    out = []
    for i, j in enumerate(jobs):
        r = res.get(i)
        if r is None:
            r = J.Report("%s.%s%s" % (j[0], j[1], j[2]))
            r.undec("time budget of the check")
            r.wall = 0
        out.append(r)
    return out


def main():
    import checks
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.monotonic()
    c = checks.CHECKS[pid]
    try:
        prep = build.prepare()
    except build.BuildError as e:
        print(str(e))
        if not build.repo_builds():
            print("the repository itself does not build; no verdict")
            sys.exit(2)
        r = J.Report("the analysis corpus")
        r.violation("anchor", "", "analysis corpus", "the repository builds, but programs using its public interface as documented no longer do: " + str(e)[-1500:], "", [], None)
        c.select = lambda v, r: True
        sys.exit(report(pid, tier, c, [], [r], t0))
    budget = int(os.environ.get("MIRAI_BUDGET", 560)) if tier == "quick" else 820
    jobs = c.jobs(tier)
    reps = run_jobs(jobs, prep, budget - (time.monotonic() - t0))
    sys.exit(report(pid, tier, c, jobs, reps, t0))


def report(pid, tier, c, jobs, reps, t0):
    viol, other = [], 0
    seen = set()
    for r in reps:
        for v in r.viol:
            if not c.select(v, r):
                other += 1
                continue
            k = v["key"]
            if (k, v["fn"], v["msg"]) in seen:
                continue
            seen.add((k, v["fn"], v["msg"]))
            viol.append(v)
    ks = known(pid)
    fresh = [v for v in viol if v["key"] not in ks]
    matched = [v for v in viol if v["key"] in ks]
    decided = sum(r.decided for r in reps)
    undec = sum(r.undecided for r in reps)
    why = collections.Counter()
    for r in reps:
        why.update(r.why)
    fns, rules = set(), set()
    for r in reps:
        fns |= r.fns
    repo_fns = sorted(f for f in fns if "oasis_cbor" in f)
    os.makedirs(EVID, exist_ok=True)
    fail_closed = decided == 0 and not viol
    cov = {
        "explanation": c.explain,
        "rule": c.rule,
        "obligations": {"jobs": len(reps), "decided": decided, "undecided": undec, "violated": len(viol), "violations_of_other_properties_seen": other},
        "undecided_reasons": dict(why.most_common(20)),
        "paths": sum(r.paths for r in reps),
        "call_sites_interpreted": sum(r.calls for r in reps),
        "statements_interpreted": sum(r.stmts for r in reps),
        "functions": len(fns),
        "repo_functions": repo_fns[:300],
        "groups": [{"what": r.name, "paths": r.paths, "decided": r.decided, "undecided": r.undecided, "why": dict(r.why), "seconds": round(getattr(r, "wall", 0), 1)} for r in reps],
        "samples": [s for r in reps for s in r.samples][:12],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": c.assumptions, "wall_s": round(time.monotonic() - t0, 1),
          "violations": len(viol)}
    if viol:
        cov["violations_found"] = [{k: v[k] for k in ("key", "msg", "where", "fn", "path")} for v in viol][:50]
    path = os.path.join(EVID, pid + ".json")
    json.dump(ev, open(path, "w"), indent=1, default=str)
    print("%s (%s): %d jobs, %d paths, %d obligations decided, %d undecided, %d violated; %d functions of the repository analysed; %.0f s" % (
        pid, tier, len(reps), cov["paths"], decided, undec, len(viol), len(repo_fns), time.monotonic() - t0))
    for w, n in why.most_common(12):
        print("UNDECIDED %d: %s" % (n, w))
    for v in matched:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["key"]))
    rep_dir = os.path.join(EVID, "replay")
    n = 0
    for v in fresh[:40]:
        os.makedirs(rep_dir, exist_ok=True)
        rp = os.path.join(rep_dir, "%s-%d.json" % (pid, n))
        json.dump(v, open(rp, "w"), indent=1, default=str)
        n += 1
        print("  %s\n    at %s\n    %s" % (v["key"], v["where"], v["msg"]))
        for l in v["path"][-12:]:
            print("      %s" % l)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if fail_closed:
        os.makedirs(rep_dir, exist_ok=True)
        rp = os.path.join(rep_dir, "%s-none.json" % pid)
        json.dump({"key": "nothing decided", "why": dict(why)}, open(rp, "w"), indent=1)
        print("no obligation of this property could be decided: the code it is about is gone or beyond the analysis")
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 1 if fresh else 0


if __name__ == "__main__":
    main()
