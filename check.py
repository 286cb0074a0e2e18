#!/usr/bin/env python3
"""Decide one property by deterministic simulation: check.py <property>.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B

# Runs of the quick tier per property (the thorough tier does twelve times as many), with a limit on time.
RUNS = json.load(open(os.path.join(HERE, "sim", "budget.json")))

def known(prop):
    """Findings on the unchanged tree that were not repaired: (scenario, class, text)."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out

def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    raise SystemExit(2)

def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    ev = os.path.join(HERE, "evidence"); rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    evf = os.path.join(ev, prop + ".json")
    if os.path.exists(evf): os.unlink(evf)
    for f in os.listdir(rep):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rep, f))
    exe = B.build()
    t_build = time.time() - t0
    useed = seed & 0xffffffffffffffff
    jobs = max(2, min(16, os.cpu_count() or 4))
    budget = RUNS.get(prop, RUNS["default"])
    runs = budget if tier == "quick" else budget * 12
    secs = 240 if tier == "quick" else 2400
    tmp = tempfile.mkdtemp(prefix="tmp.", dir=B.OUT)
    try:
        kn = known(prop)
        # Gate: two fresh processes must produce the same executions from the same seeds.
        # What is wrong here is reported unless exploring finds a violation that repeats.
        a = None; gate = ""
        for k in range(2):
            if gate: break
            try:
                r = subprocess.run([exe, "hashes", "--prop", prop, "--seed", str(useed), "--count", "200"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
            except subprocess.TimeoutExpired:
                gate = "the first 200 executions did not end"
                break
            if r.returncode: gate = "the simulator ended with status %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:])
            elif a is not None and a != r.stdout: gate = "two processes executed the same seeds differently"
            a = r.stdout
        out = os.path.join(tmp, "out.json")
        cmd = [exe, "run", "--prop", prop, "--seed", str(useed), "--runs", str(runs), "--secs", str(secs), "--jobs", str(jobs),
               "--out", out, "--replays", rep, "--tmp", tmp]
        if kn: cmd += ["--known", ",".join(s + ":" + c for s, c, _ in kn)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if not os.path.exists(out): die("the simulator wrote no result (status %d): %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:]))
        d = json.load(open(out, errors="replace"))
        if d["error"] or d["rc"] not in (0, 1): die(d["error"] or "simulator status %d" % d["rc"])
        if gate and d["rc"] == 0: die(gate)
        replay_ok = None
        if d["rc"] == 1:
            q = subprocess.run([exe, "replay", d["replay"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            replay_ok = q.returncode == 1 and b"reproduced" in q.stdout
            if not replay_ok: die("a fresh process did not reproduce %s" % d["replay"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    info = json.load(open(os.path.join(HERE, "sim", "about.json")))
    me = info["properties"].get(prop, {})
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["distinct_nontrivial"],
        "rule": "Each evaluation is one simulated execution drawn from the seed: a generated program, environment, schedule and fault plan. "
                "Distinct: the program together with the sequence of context switches (thread and step) and injected faults differs. "
                "Non-trivial: a fault was injected, a timer fired early, a thread was preempted in the middle of its work, or a sequential program has at least five operations.",
        "samples": d["samples"],
        "distinct_executions": d["distinct_executions"],
        "runs_per_hour": int(d["runs"] / max(d["explore_s"], 1e-3) * 3600),
        "first_seed": seed, "seeds_tried": d["runs"],
        "memory_accesses_and_calls_stepped": d["steps"],
        "context_switches": d["switches"],
        "simulated_seconds": d["sim_us"] / 1e6,
        "faults_injected": d["faults"],
        "fault_free_runs": d["fault_free_runs"],
        "multi_thread_runs": d["multi_thread_runs"], "preempted_runs": d["preempted_runs"], "max_threads": d["max_threads"],
        "scenarios": d["scenarios"],
        "situations_reached": d["probes"],
        "determinism": {"runs_repeated_from_seed_and_from_decisions": d["rechecked"], "runs_compared_between_processes": (a or b"").count(b"\n"), "mismatches": 1 if gate else 0},
        "real_components": me.get("real", info["real"]),
        "stub_components": info["stubs"],
        "known_findings_met": d["known"],
        "build_s": round(t_build, 2), "explore_s": round(d["explore_s"], 2),
    }
    viol = 1 if d["rc"] == 1 else 0
    if viol:
        cov["violation"] = {"class": d["class"], "message": d["message"], "replay": d["replay"], "executions_spent_minimising": d["shrink_evals"], "reproduced_in_fresh_process": replay_ok}
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": me.get("level", "exploration"), "coverage": cov,
               "assumptions": info["assumptions"] + me.get("assumptions", []), "wall_s": round(wall, 2), "violations": viol},
              open(evf, "w"), indent=1)
    if d["known"]:
        for s, c, text in kn: print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s: %d executions, %d distinct non-trivial, %.0f simulated s, faults %s, %.1f s" % (prop, d["runs"], d["distinct_nontrivial"], d["sim_us"] / 1e6, json.dumps(d["faults"]), wall))
    if viol:
        print("%s: %s" % (d["class"], d["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, d["replay"]))
        raise SystemExit(1)

if __name__ == "__main__":
    try: main()
    except SystemExit: raise
    except BaseException as e:
        print("ERROR: %s: %s" % (type(e).__name__, e)); sys.stdout.flush(); raise SystemExit(2)
