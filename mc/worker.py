"""Runs one job of a check in a process of its own: worker.py CHECK JOB.json OUT.json"""
import importlib
import json
import sys


def main():
    check, jobfile, out = sys.argv[1:4]
    with open(jobfile) as f:
        job = json.load(f)
    only = job.pop("only", None)
    from mc import harness, world

    rep = harness.Report(job, only)
    kind, kw = job["world"]
    W = world.make(kind, **kw) if kind in ("real", "tiny") else None
    if W is not None and W.tiny:
        rep.fold = W.fold
    if job.get("flagged"):
        W.flag_verifiers()
    mod = importlib.import_module("mc.checks." + check.lower())
    getattr(mod, job["fn"])(W, rep, **job.get("params", {}))
    with open(out, "w") as f:
        json.dump(rep.dump(), f, default=repr)


if __name__ == "__main__":
    main()
