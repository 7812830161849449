#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: run_check.py <ID> [quick|thorough] [--replay FILE] [--only TEST,..] [--scale X] [-v]
Seed and tier also come from VERIF_SEED and VERIF_TIER (the command line wins for the tier).
Exit: 0 held, 1 + "VIOLATION property=<ID> replay=<path>", anything else: the check could not decide.
"""
import json, os, shutil, subprocess, sys, time
import build_harness
from checks import CHECKS

VERIF = os.path.dirname(os.path.abspath(__file__))


def main():
    args = sys.argv[1:]
    if args[:1] == ["--selfcheck"]:  # setup: nothing is kept between runs, just tell if the tools are there
        for tool in ("clang++", "ninja"):
            if shutil.which(tool) is None:
                print("missing " + tool)
                return 1
        return 0
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = []
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        else:
            rest.append(a)
    seed = os.environ.get("VERIF_SEED", "1")
    parts = CHECKS[pid]["parts"]
    if "--part" in rest:
        k = rest.index("--part")
        parts = [parts[int(rest[k + 1])]]
        del rest[k:k + 2]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    final = os.path.join(VERIF, "evidence", pid + ".json")
    evs = []
    t0 = time.time()
    rc = 0
    for n, part in enumerate(parts):
        exe = build_harness.build("%s_%d" % (pid, n), part.get("flavour", "asan"), part["groups"], ["pbt.cpp"] + part["src"], ldflags=part.get("ldflags", ()))
        if exe is None:
            print("build failed", file=sys.stderr)
            return 2
        print("build: %.1f s" % (time.time() - t0), flush=True)
        if "--build-only" in rest:
            continue
        ev = os.path.join(VERIF, "evidence", "%s.part%d.json" % (pid, n))
        cmd = [exe, "--property", pid, "--tier", tier, "--seed", seed, "--evidence", ev,
               "--replay-out", os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt"),
               "--level", CHECKS[pid].get("level", "exploration"),
               "--ceiling", str(part.get("ceiling", 330 if tier == "quick" else 3000) // (1 if tier != "quick" else len(parts)))]
        env = dict(os.environ)
        if part.get("scratch"):
            env["VERIF_SCRATCH"] = part["scratch"]
        r = subprocess.run(cmd + rest, env=env)
        if os.path.exists(ev):
            with open(ev) as f:
                evs.append(json.load(f))
            os.remove(ev)
        if r.returncode != 0:
            rc = 1 if r.returncode == 1 else 3
            break
    if evs:
        out = evs[0]
        for e in evs[1:]:
            c, d = out["coverage"], e["coverage"]
            for k in ("evaluations", "distinct_nontrivial", "discarded"):
                c[k] += d[k]
            c["rule"] += " || " + d["rule"]
            c["samples"] += d["samples"]
            c["cases_per_test"].update(d["cases_per_test"])
            for k, v in d["labels"].items():
                c["labels"][k] = c["labels"].get(k, 0) + v
            c["stopped_at_time_ceiling"] |= d["stopped_at_time_ceiling"]
            out["violations"] += e["violations"]
        out["assumptions"] = CHECKS[pid].get("assumptions", [])
        out["wall_s"] = round(time.time() - t0, 2)
        if "--replay" not in rest:
            with open(final, "w") as f:
                json.dump(out, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
