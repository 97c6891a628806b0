"""
python -B -m mc.check P01 [--tier quick|thorough] [--replay FILE] [--jobs N] [--list]

Runs the jobs of a check, each in its own process, writes evidence/P01.json, and reports.
"""
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def run_job(check, job, only=None, deadline=None):
    """Past its deadline a job stops between two cases; it is ended a while after that."""
    timeout = max(deadline - time.time(), 1) + 130 if deadline else 900
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        jf, out = os.path.join(tmp, "job.json"), os.path.join(tmp, "out.json")
        with open(jf, "w") as f:
            json.dump(dict(job, only=only) if only else job, f)
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(job.get("hashseed", 0)), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPATH=VERIF, PYTHONWARNINGS="ignore", PYTHONUNBUFFERED="1")
        env.pop("PYTHONSTARTUP", None)
        env["MC_DEADLINE"] = str(deadline or "")
        try:
            p = subprocess.run(
                [PY, "-B", "-m", "mc.worker", check, jf, out], cwd=VERIF, env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"error": "timeout after %d s" % timeout, "job": job}
        if p.returncode != 0 or not os.path.exists(out):
            return {"error": p.stdout.decode(errors="replace")[-3000:] or "exit %d" % p.returncode,
                    "job": job}
        with open(out) as f:
            return json.load(f)


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    # known: property=P01 key=<key> :: <what fails>
                    rest = line.split(" key=", 1)[1]
                    key, _, what = rest.partition(" :: ")
                    out.append((key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--grep", default="")
    ap.add_argument("--group", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.check.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        res = run_job(pid, r["job"], only=r["case"])
        print(json.dumps(res.get("violations", res), indent=1))
        sys.exit(1 if res.get("violations") else 0 if "error" not in res else 2)

    mod = importlib.import_module("mc.checks." + pid.lower())
    jobs = [j for j in mod.jobs(tier) if a.grep in json.dumps(j)]
    if a.list:
        for j in jobs:
            print(json.dumps(j))
        return
    deadline = t0 + (720 if tier == "quick" else 6 * 3600)
    results = []
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        futs = [ex.submit(run_job, pid, j, None, deadline) for j in jobs]
        for f in concurrent.futures.as_completed(futs):
            r = f.result()
            results.append(r)
            if a.v:
                print({k: r.get(k) for k in ("wall", "cases", "executions", "outcomes", "capped",
                                             "excused", "error")}, json.dumps(r["job"]), flush=True)
    errors = [r for r in results if "error" in r]
    good = [r for r in results if "error" not in r]
    good.sort(key=lambda r: json.dumps(r["job"], sort_keys=True))

    def total(k):
        return sum(r[k] for r in good)

    outcomes = {}
    for r in good:
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    violations = [(r["job"], v) for r in good for v in r["violations"]]
    violations.sort(key=lambda jv: (len(jv[1]["case"]), jv[1]["case"]))
    if a.group:
        import re
        groups = {}
        for job, v in violations:
            k = (job["world"][0], job["fn"], re.sub(r"\d+", "N", v["what"].split("\n")[0])[:160])
            groups.setdefault(k, []).append((v["case"], v["what"], v["data"]))
        for k, vs in sorted(groups.items(), key=lambda kv: -len(kv[1])):
            print(len(vs), k, "\n      ", vs[0][0][:200], "|", vs[0][1][:300],
                  vs[0][2].get("trace", "")[-900:])
    known = known_findings(pid)
    fresh, seen_known = [], {}
    for job, v in violations:
        for key, what in known:
            if v["key"] == key:
                seen_known[key] = what
                break
        else:
            fresh.append((job, v))

    samples = []
    for r in good:
        for s in r["samples"]:
            if len(samples) < 12:
                samples.append(dict(s, job="%s %s" % (r["job"]["world"], r["job"]["fn"])))
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total("nodes") + total("cases"),
            "transitions": total("choices") + total("steps"),
            "traces_validated_against_impl": total("real_traces"),
            "samples": samples or [{"none": True}],
            "exhaustive": total("capped") == 0 and total("path_limited") == 0 and not errors,
            "cases": total("cases"), "executions": total("executions"), "outcomes": outcomes,
            "excused": total("excused"),
            "explanation": getattr(mod, "COVERAGE", (mod.__doc__ or "").strip()),
            "states_are": "enumerated cases plus nodes of the explored choice trees; every "
            "execution runs the real implementation, in tiny groups or on the real libraries",
            "transitions_are": "choices answered plus protocol or model steps executed and judged",
            "traces_validated_are": "executions repeated on the real cryptographic libraries",
            "jobs": [{"world": r["job"]["world"], "fn": r["job"]["fn"],
                      "params": r["job"].get("params", {}), "shard": r["job"].get("shard"),
                      "cases": r["cases"], "executions": r["executions"],
                      "wall_s": round(r["wall"], 2)} for r in good],
            "notes": sorted({n for r in good for n in r["notes"]})[:40],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=repr)

    for key, what in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for r in errors:
        print("ERROR in job %s:\n%s" % (json.dumps(r["job"]), r["error"]))
    print("%s %s: cases=%d executions=%d nodes=%d choices=%d real=%d excused=%d capped=%d "
          "violations=%d wall=%.1fs outcomes=%s" % (
              pid, tier, total("cases"), total("executions"), total("nodes"), total("choices"),
              total("real_traces"), total("excused"), total("capped"), len(fresh),
              time.time() - t0, json.dumps(outcomes, sort_keys=True)[:600]))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = set()
        for job, v in fresh[:8]:
            h = hashlib.sha256((json.dumps(job) + v["key"]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
            if path in shown:
                continue
            shown.add(path)
            with open(path, "w") as f:
                json.dump({"property": pid, "job": job, "case": v["case"], "what": v["what"],
                           "key": v["key"], "data": v["data"],
                           "replay_with": "%s -B -m mc.check %s --replay %s" % (PY, pid, path)},
                          f, indent=1)
            print("  %s: %s" % (v["case"][:300], v["what"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
