#!/usr/bin/env python3
"""Runs the check of one property: builds its binaries from /repo's current working tree, runs
them, writes evidence/<id>.json.  Exit 0: held on everything explored; 1: violation; 2: error.

usage: check.py <property> [--tier quick|thorough] [--seed N] [--facet NAME] [--replay FILE]
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build  # noqa: E402
from registry import CHECKS  # noqa: E402

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0",
}


def load_known():
    """known-findings.txt: lines '<kind> property=<id> key=<key> | text' (kind: finding or fixed)."""
    known = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition("|")
            fields = dict(f.split("=", 1) for f in head.split())
            known.setdefault(fields["property"], []).append((fields["key"], text.strip()))
    return known


def run_binary(path, args, env):
    """Runs a check binary; falls back to no address randomisation where TSan needs it."""
    p = subprocess.run([path] + args, env=env)
    if p.returncode not in (0, 1, 10) and "-tsan-" in os.path.basename(path):
        p = subprocess.run(["setarch", "-R", path] + args, env=env)
    return p.returncode


def replay(path):
    spec = json.load(open(path))
    env = dict(os.environ, **ENV)
    exe = build.build([tuple(spec["binary"][:3]) + (spec["binary"][3],)])[0]
    choices = os.path.join(os.path.dirname(os.path.abspath(path)), spec["choices"])
    rc = run_binary(exe, ["--prop", spec["property"], "--facet", spec["facet"], "--tier",
                          spec["tier"], "--replay", choices], env)
    print("replay of %s: %s" % (path, {0: "property held", 1: "property violated"}.get(
        rc, "not reproduced (exit %d)" % rc)))
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--facet", default="")
    ap.add_argument("--scale", default=os.environ.get("VERIF_SCALE") or "1")
    ap.add_argument("--replay", default="")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.build_all:
        jobs = []
        for spec in CHECKS.values():
            for b in spec["binaries"]:
                if b not in jobs:
                    jobs.append(b)
        build.build(jobs)
        return 0
    prop = a.property
    spec = CHECKS[prop]
    start = time.time()
    exes = build.build(spec["binaries"])
    built = time.time() - start
    env = dict(os.environ, **ENV)
    workdir = os.path.join(HERE, "build", "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    known = load_known().get(prop, [])
    facets, violations, error = [], [], None
    for binary, exe in zip(spec["binaries"], exes):
        if violations:
            break  # decided; a broken library can make the other variants hang
        out = os.path.join(workdir, os.path.basename(exe) + ".json")
        args = ["--prop", prop, "--seed", a.seed, "--tier", a.tier, "--out", out,
                "--replaydir", replays, "--scale", a.scale]
        for key, _ in known:
            args += ["--known", key]
        if a.facet:
            args += ["--facet", a.facet]
        rc = run_binary(exe, args, env)
        sys.stderr.flush()
        if rc not in (0, 10) or not os.path.exists(out):
            error = "%s ended with code %d" % (exe, rc)
            continue
        for f in json.load(open(out))["facets"]:
            f["binary"] = list(binary)
            facets.append(f)
            if f.get("violation"):
                rp = os.path.join(replays, "%s-%s-%s.json" % (prop, f["name"].replace(" ", "_"),
                                                             a.seed))
                json.dump({"property": prop, "facet": f["name"], "binary": list(binary),
                           "tier": a.tier, "choices": os.path.relpath(f["violation"], replays),
                           "message": f.get("message", "")}, open(rp, "w"), indent=1)
                violations.append((rp, f))
        os.unlink(out)
    try:
        os.rmdir(workdir)
    except OSError:
        pass
    samples = []
    for f in facets:
        for s in f["samples"][:2]:
            samples.append("%s: %s" % (f["name"], s[:1500]))
    evidence = {
        "property": prop, "tier": a.tier, "seed": int(a.seed), "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in facets),
            "distinct_nontrivial": sum(f["distinct_nontrivial"] for f in facets),
            "rule": " || ".join("%s: %s" % (f["name"], f["rule"]) for f in facets),
            "samples": samples,
            "facets": [{k: f[k] for k in ("name", "planned", "evaluations", "distinct_nontrivial",
                                          "known", "unreproduced", "capped", "wall_s", "labels")}
                       | {"build": f["binary"][2]} for f in facets],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence" if build.REPO == "/repo" else "build/run",
                           prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for key, text in known:
        if any(f["known"] for f in facets):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for rp, f in violations:
        print("%s/%s: %s" % (prop, f["name"], f.get("message", "")[:2000]))
    for rp, f in violations:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if violations:
        return 1
    if error:
        print("ERROR: " + error)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), build %.1f s, total %.1f s" % (
        prop, evidence["coverage"]["evaluations"], evidence["coverage"]["distinct_nontrivial"],
        built, time.time() - start))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
