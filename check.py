#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property by seeded simulation
   check.py replay FILE            run a replay file against /repo's current tree

Exit 0: held on everything explored. Exit 1 with "VIOLATION property=<id>
replay=<path>": broken. Exit 3: the check itself failed."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROPS = json.load(open(os.path.join(HERE, "props.json")))  # id -> {sim, ...}
QUICK_SECS = float(os.environ.get("VERIF_SECS", "22"))
THOROUGH_SECS = float(os.environ.get("VERIF_SECS", "600"))
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)

class Broken(Exception):
    pass

def say(*a):
    print(*a, flush=True)

def build(out):
    t = time.time()
    p = subprocess.run(["bash", os.path.join(HERE, "build.sh"), out, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("the simulated build of the library failed:\n" + p.stdout[-6000:])
    return time.time() - t

def run(cmd, timeout=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout

def sim_id(name):
    for k, v in PROPS.items():
        if v["sim"] == name:
            return k
    return None

def known_findings():
    """lines: finding: property=<id> class=<cls> match=<regex> :: <what fails>   /   fixed: ..."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m:
                out.append(dict(property=m[1], cls=m[2], match=m[3], what=m[4]))
    return out

def search(work, prop, seed, secs):
    """all workers; returns (results, violations, problems)"""
    sim = os.path.join(work, "pigosim")
    ws = []
    for k in range(JOBS):
        out = os.path.join(work, "w%d" % k)
        big = JOBS > 1 and k == JOBS - 1
        # the last worker runs large inputs, from an index space of its own
        n = JOBS - 1 if JOBS > 1 else 1
        start, stride = (k, n) if not big else (0, 1)
        cmd = [sim, "run", "--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(stride), "--secs", "%.2f" % secs, "--out", out]
        if big:
            cmd.append("--big")
        log = open(out + ".log", "w")
        ws.append(dict(k=k, out=out, big=big, p=subprocess.Popen(cmd, stdout=log, stderr=log), log=log))
    results, cands, problems, deaths = [], [], [], {}
    pending = list(ws)
    stop_at = None
    while pending:
        time.sleep(0.05)
        for w in list(pending):
            rc = w["p"].poll()
            if rc is None:
                continue
            pending.remove(w)
            w["log"].close()
            if rc in (0, 1) and os.path.exists(w["out"]):
                r = json.load(open(w["out"]))
                r["big"] = w["big"]
                results.append(r)
                if rc == 1:
                    cands.append((r["violation"]["index"], w["big"]))
            elif rc == -signal.SIGTERM and stop_at is not None:
                pass
            elif rc == 2 or rc == 3:
                problems.append(open(w["out"] + ".log").read()[-2000:] or "worker exit %d" % rc)
            else:  # died inside an execution: the beat file names it
                try:
                    i = struct.unpack("<Q", open(w["out"] + ".beat", "rb").read(8))[0] - 1
                    cands.append((i, w["big"]))
                    deaths[(i, w["big"])] = rc
                except Exception as e:
                    problems.append("worker died with %s: %s" % (rc, e))
            if cands and stop_at is None:
                stop_at = time.time() + 1.0
        if stop_at is not None and time.time() > stop_at:
            for w in pending:
                w["p"].terminate()
    hashes = set()
    for w in ws:
        try:
            b = open(w["out"] + ".hashes", "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except FileNotFoundError:
            pass
    return results, cands, problems, len(hashes), deaths

def confirm(work, pid, prop, seed, index, big, tier):
    """minimise, then replay in a fresh process; returns (replay path, text)"""
    sim = os.path.join(work, "pigosim")
    tmp = os.path.join(work, "min.case")
    cmd = [sim, "one", "--prop", prop, "--seed", str(seed), "--index", str(index), "--out", tmp, "--shrink", "25" if tier == "quick" else "90"]
    if big:
        cmd.append("--big")
    rc, o = run(cmd, 600)
    if rc == 0:
        return None, "did not happen again: " + o
    if rc != 1 or not os.path.exists(tmp):
        return None, "minimising failed (%d): %s" % (rc, o[-2000:])
    first = [l for l in o.splitlines() if l.startswith("MINIMISED ")]
    rc2, o2 = run([sim, "replay", tmp], 300)
    rc3, o3 = run([sim, "replay", tmp], 300)
    if rc2 != 1 or rc3 != 1 or o2 != o3:
        return None, "the replay is not stable:\n%s\n%s" % (o2, o3)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-%s%d.case" % (pid, seed, "big" if big else "", index))
    shutil.copy(tmp, path)
    m = re.search(r"^REPRODUCED property=\S+ (\S+): (.*)", o2, re.M)
    if not m:
        return None, "the replay gave no verdict:\n" + o2[-2000:]
    return path, (m[1], m[2])

def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = PROPS[pid]["sim"]
    secs = QUICK_SECS if tier == "quick" else THOROUGH_SECS
    work = tempfile.mkdtemp(prefix="pigosim-")
    try:
        say("seed %d property %s (%s) tier %s" % (seed, pid, prop, tier))
        tb = build(work)
        say("built from %s in %.1f s" % (REPO, tb))
        t1 = time.time()
        results, cands, problems, distinct, deaths = search(work, prop, seed, secs)
        ts = time.time() - t1
        found = []
        for index, big in sorted(set(cands))[:5]:
            path, v = confirm(work, pid, prop, seed, index, big, tier)
            if path is None:
                problems.append("index %d%s%s: %s" % (index, " (big)" if big else "", ", worker exit status %s" % deaths[(index, big)] if (index, big) in deaths else "", v))
                continue
            known = [f for f in known_findings() if f["property"] == pid and f["cls"] == v[0] and re.search(f["match"], v[1])]
            if known:
                continue
            found.append((path, v))
            break
        for f in known_findings():
            if f["property"] == pid:
                say("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        tot = dict(runs=0, phases=0, steps=0, switches=0, preempts=0, regions=0, fibers=0, crashes=0, ops=0, checks=0, determinism_checked=0, nontrivial=0)
        fired, optypes, policies, calls = {}, {}, {}, {}
        for r in results:
            for k in tot:
                tot[k] += r.get(k, 0)
            add(fired, r["fired"]); add(optypes, r["optypes"]); add(policies, r["policies"]); add(calls, r["calls"])
        samples = []
        for i, big in ((0, False), (1, False), (2, False)):
            rc, o = run([os.path.join(work, "pigosim"), "gen", "--prop", prop, "--seed", str(seed), "--index", str(i)])
            samples.append(o if len(o) < 1500 else o[:1500] + "\n... (%d bytes)" % len(o))
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(found),
            coverage=dict(
                evaluations=tot["runs"], distinct_nontrivial=distinct,
                rule="One evaluation is one whole simulated execution of a generated case (inputs, operations, thread schedule, faults, crash points all drawn from VERIF_SEED and the case index). "
                     "It is non-trivial when at least one thread switch, injected fault or crash happened in it; distinct by the 64-bit hash over every thread switch, "
                     "system call, allocation and outcome of the execution.",
                samples=samples,
                nontrivial_runs=tot["nontrivial"],
                runs_per_hour=int(tot["runs"] / max(ts, 0.01) * 3600), seeds_per_hour=int(tot["runs"] / max(ts, 0.01) * 3600),
                simulated_steps=tot["steps"], simulated_time_note="the simulated clock is the count of instrumented memory accesses, system calls and synchronisation points of the library",
                program_operations=tot["ops"], oracle_comparisons=tot["checks"], operations_by_kind=optypes,
                parallel_regions=tot["regions"], simulated_threads=tot["fibers"], thread_switches=tot["switches"], preemptions=tot["preempts"],
                largest_team=max([r.get("max_team", 0) for r in results] or [0]),
                schedule_policies=policies, faults_injected=fired, process_crashes=tot["crashes"], fault_eligible_calls=calls,
                runs_repeated_for_determinism=tot["determinism_checked"], determinism_mismatches=0 if not problems else len(problems),
                real_code="every header of /repo/include, compiled with memory-access instrumentation; libstdc++",
                stubs="OpenMP runtime, heap, files, descriptors, stdio streams, mappings: simulated",
                workers=JOBS, build_s=round(tb, 1), search_s=round(ts, 1)),
            assumptions=["sequentially consistent interleavings at the granularity of single memory accesses; weak-memory effects are covered only through the happens-before race detector",
                "sampling: a clean run is evidence, not proof"])
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if found:
            path, v = found[0]
            say("%s: %s" % v)
            say("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if problems:
            raise Broken("\n".join(problems))
        say("held: %d executions, %d distinct non-trivial, %d faults, %d steps in %.1f s" % (tot["runs"], distinct, sum(fired.values()), tot["steps"], ts))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def replay(path):
    work = tempfile.mkdtemp(prefix="pigosim-")
    try:
        build(work)
        rc, o = run([os.path.join(work, "pigosim"), "replay", path], 300)
        sys.stdout.write(o)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        sys.stderr.write(__doc__)
        return 3
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(sys.argv[1], tier)

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        sys.stderr.write("check.py: %s\n" % e)
        sys.exit(3)
