#!/usr/bin/env python3
"""check.py <property> [quick|thorough]       run one check (seeded search in the simulator)
   check.py --replay <property> <file>         replay a recorded schedule and print its event log
   check.py --build                            build only

Exit 0: the property held on everything explored; 1: a VIOLATION line was
printed; anything else: the check itself failed."""
import json, os, re, subprocess, sys, time, struct, threading, signal, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/sim")
import build as B
from plan import PLAN

SEED = int(os.environ.get("VERIF_SEED", "1"))
REPLAYS = HERE + "/replays"


def known_findings(prop):
    out = []
    with open(HERE + "/KNOWN_FINDINGS.jsonl") as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                out.append(k)
    return out


def sim(exe, args, timeout=None, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    if p.returncode:
        sys.stderr.write("simulator failed: %s\n%s\n" % (args, p.stderr.decode(errors="replace")[-2000:]))
        raise SystemExit(3)
    return p


def write_tape(path, prop, v):
    with open(path, "w") as f:
        f.write("# recorded choices: property %s run %d\n" % (prop, v["run"]))
        t = v["tape"]
        for i in range(0, len(t), 30):
            f.write(" ".join(map(str, t[i:i + 30])) + "\n")


def main():
    t0 = time.time()
    if sys.argv[1:2] == ["--build"]:
        print(B.build()); return 0
    if sys.argv[1:2] == ["--replay"]:
        exe = B.build(); prop, path = sys.argv[2:4]
        p = sim(exe, ["replay", prop, path], env={"SIM_LOG": "1"})
        sys.stderr.write(p.stderr.decode(errors="replace")); print(p.stdout.decode(errors="replace").strip())
        return 1 if json.loads(p.stdout.decode(errors="replace").splitlines()[0])["verdict"] else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    plan = PLAN[prop]
    exe = B.build()
    t_build = time.time() - t0
    runs = plan["quick_runs"] if tier == "quick" else plan.get("thorough_runs", plan["quick_runs"] * 40)
    budget = plan.get("quick_budget", 300) if tier == "quick" else plan.get("thorough_budget", 1800)
    W = 8
    env = {"SIM_THOROUGH": "1"} if tier == "thorough" else {}
    os.makedirs(HERE + "/evidence", exist_ok=True); os.makedirs(REPLAYS, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="simrun")
    known = known_findings(prop)

    def match(v):
        for k in known:
            if re.fullmatch(k["class"], v["class"]) and re.search(k["match"], v["msg"]):
                return k
        return None

    violations, summaries, lock, stop_at = [], [], threading.Lock(), [None]
    procs = []

    def worker(w):
        e = dict(os.environ); e.update(env)
        p = subprocess.Popen([exe, "run", prop, str(SEED), str(w), str(W), str((runs + W - 1) // W), str(budget), "%s/st%d" % (tmp, w)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
        procs.append(p)
        for line in p.stdout:
            j = json.loads(line.decode(errors="replace"))
            with lock:
                if "violation" in j:
                    violations.append(j["violation"])
                    if not match(j["violation"]) and stop_at[0] is None:
                        stop_at[0] = time.time() + 15
                else:
                    summaries.append(j["summary"])
        err = p.stderr.read(); p.wait()
        if p.returncode != 0 and p.returncode != -9:
            sys.stderr.write("worker %d ended with %d: %s\n" % (w, p.returncode, err.decode(errors="replace")[-1000:]))

    th = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
    [t.start() for t in th]
    while any(t.is_alive() for t in th):
        time.sleep(0.2)
        if stop_at[0] and time.time() > stop_at[0]:
            for p in procs:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
            break
    [t.join(20) for t in th]
    search_wall = time.time() - t0 - t_build
    if not violations and len(summaries) < W:
        sys.stderr.write("check: only %d of %d workers finished\n" % (len(summaries), W)); return 3

    # ---- gate: a report counts only if its minimised schedule replays to the same violation
    byclass = {}
    for v in sorted(violations, key=lambda v: len(v["tape"])):
        byclass.setdefault((v["class"], (match(v) or {}).get("what")), v)
    rc, nviol, seen_known, unrepro = 0, 0, {}, 0
    for (cls, kw), v in list(byclass.items())[:8]:
        k = match(v)
        if k:
            seen_known[k["what"]] = k; continue
        tape = "%s/%s.tape" % (tmp, prop); write_tape(tape, prop, v)
        r1 = json.loads(sim(exe, ["replay", prop, tape], env=env).stdout.decode(errors="replace").splitlines()[0])
        if not r1["verdict"] or (r1["class"] != cls and not (cls.startswith("memory:") and r1["class"].startswith("memory:"))):
            sys.stderr.write("check: run %d reported [%s] but its recorded schedule gives [%s]\n" % (v["run"], cls, r1["class"])); unrepro += 1; continue
        safe = re.sub(r"[^A-Za-z0-9]+", "_", cls)[:50]
        path = "%s/%s-%s.replay" % (REPLAYS, prop, safe)
        if cls.startswith("hang"):
            shutil.copy(tape, path)
        else:
            j = json.loads(sim(exe, ["shrink", prop, tape, path, "20" if tier == "quick" else "90"], env=env).stdout.decode(errors="replace").splitlines()[0])
            if j.get("lost"):
                shutil.copy(tape, path)
        r2 = json.loads(sim(exe, ["replay", prop, path], env=env).stdout.decode(errors="replace").splitlines()[0])
        r3 = json.loads(sim(exe, ["replay", prop, path], env=env).stdout.decode(errors="replace").splitlines()[0])
        if not (r2["verdict"] and r3["verdict"] and r2["class"] == r3["class"]):
            sys.stderr.write("check: minimised schedule of [%s] does not replay\n" % cls); unrepro += 1; continue
        if match(r2):
            k = match(r2); seen_known[k["what"]] = k; continue
        print("violation [%s] %s" % (r2["class"], r2["msg"]))
        print("  seed %d run %d; minimised to %d choices; exact replay: %s" % (SEED, v["run"], r2["len"], "yes" if r2["hash"] == r3["hash"] else "same class only"))
        print("VIOLATION property=%s replay=%s" % (prop, path)); sys.stdout.flush()
        rc = 1; nviol += 1
    if rc == 0 and unrepro:
        return 3
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for k in known:
        if k["what"] not in seen_known:
            print("note: known finding not met in this run: %s" % k["what"])

    # ---- determinism sample: the same seeds in a fresh process must give the same event hashes
    det = "not sampled"
    if rc == 0:
        n = str(min(12, max(1, runs // 8)))
        a = sim(exe, ["hash", prop, str(SEED), "0", "1", n, "60"], env=env).stdout
        b = sim(exe, ["hash", prop, str(SEED), "0", "1", n, "60"], env=env).stdout
        det = "%s runs repeated, %s" % (n, "identical event hashes" if a == b else "DIFFERENT event hashes")

    st, hs = set(), set()
    for w in range(W):
        for suf, dst in (("", st), (".h", hs)):
            try:
                d = open("%s/st%d%s" % (tmp, w, suf), "rb").read()
                dst.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
            except OSError:
                pass
    tot = lambda k: sum(s[k] for s in summaries)
    faults, probes = {}, {}
    for s in summaries:
        for k, (c, r) in s["faults"].items():
            x = faults.setdefault(k, {"injected": 0, "runs": 0}); x["injected"] += c; x["runs"] += r
        for k, c in s["probes"].items():
            probes[k] = probes.get(k, 0) + c
    samples = [x for s in summaries for x in s["samples"]][:3] or [v["msg"] for v in violations[:3]] or ["none"]
    nruns = tot("runs")
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "exploration",
          "coverage": {
              "evaluations": nruns, "distinct_nontrivial": len(hs),
              "rule": plan["rule"] + " A run is one seed; it is non-trivial when it injected a fault or recorded more than one event, and distinct by the hash of its whole event history.",
              "samples": samples,
              "property_evaluations": tot("evals"), "discarded_runs": tot("discarded"),
              "events": tot("events"), "choices_drawn": tot("choices"),
              "distinct_states": len(st), "state_measure": plan["states"],
              "simulated_seconds": round(tot("simsec"), 3),
              "runs_per_hour": int(nruns / max(search_wall, 1e-3) * 3600),
              "faults_injected": faults, "conditions_reached": probes,
              "determinism": det, "cut_by_budget": any(s["cut"] for s in summaries),
              "real_code": plan["real"], "simulated_or_stubbed": plan["stub"],
              "known_findings_met": sorted(seen_known)},
          "assumptions": plan.get("assume", []),
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc == 0:
        print("%s %s: %d simulated runs, %d distinct histories, %d states, %d faults injected, no violation (%.1f s)" % (
            prop, tier, nruns, len(hs), len(st), sum(x["injected"] for x in faults.values()), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
