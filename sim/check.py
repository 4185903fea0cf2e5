#!/usr/bin/env python3
"""Runs the simulation checks.

  check.py setup                 build all simulation binaries
  check.py run ID [options]      decide one property; exit 0 held, 1 violated, 2 error of the check
  check.py replay FILE           repeat a recorded violation; exit 1 if it happens again
  check.py determinism ID N      run N seeds in two different worker arrangements and compare event logs

VERIF_SEED selects the seed, VERIF_TIER (quick or thorough) the number of runs.
"""
import argparse
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import build as builder          # noqa: E402
from catalog import PROPS        # noqa: E402

REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")
JOBS = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


def binary(prop):
    name = PROPS[prop]["binary"]
    return builder.build([name])[name]


def start(exe, prop, seed, first, stride, total, limit, trace=False):
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--from", str(first), "--stride", str(stride),
           "--to", str(total), "--limit", str(limit)]
    if trace:
        cmd.append("--trace")
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


def sweep(exe, prop, seed, total, jobs, limit, first=0, stop_on_violation=True):
    """Runs all indices; yields result dictionaries in index order."""
    q = queue.Queue()
    procs = [start(exe, prop, seed, first + j, jobs, first + total, limit) for j in range(jobs)]

    def pump(p):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def drain(p, sink):
        sink.append(p.stderr.read())

    errs = []
    threads = []
    for p in procs:
        sink = []
        errs.append(sink)
        threads.append(threading.Thread(target=pump, args=(p,), daemon=True))
        threads.append(threading.Thread(target=drain, args=(p, sink), daemon=True))
    for t in threads:
        t.start()
    results, open_, deadline = [], len(procs), None
    stopped = False
    while open_:
        try:
            item = q.get(timeout=0.5)
        except queue.Empty:
            item = ""
        if item is None:
            open_ -= 1
            continue
        if item:
            try:
                r = json.loads(item)
            except ValueError:
                if not stopped:
                    raise CheckError("unreadable worker output: " + item[:200])
                continue
            results.append(r)
            if r["v"] == "violation" and stop_on_violation and deadline is None:
                deadline = time.time() + 2.0
        if deadline and time.time() > deadline and not stopped:
            stopped = True
            for p in procs:
                p.kill()
    for t in threads:
        t.join()
    for p, sink in zip(procs, errs):
        rc = p.wait()
        if rc != 0 and not stopped:
            raise CheckError("worker ended with status %d: %s" % (rc, "".join(sink)[-2000:]))
    results.sort(key=lambda r: r["i"])
    return results


def run_list(exe, prop, choices, mode="--replay", budget=None):
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    path = os.path.join(VERIF, "build", "list-%d-%d.txt" % (os.getpid(), threading.get_ident()))
    with open(path, "w") as f:
        f.write(" ".join(map(str, choices)))
    try:
        cmd = [exe, "--prop", prop, mode, path]
        if budget is not None:
            cmd += ["--budget", str(budget)]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=600)
        if r.returncode != 0:
            raise CheckError("replay ended with status %d: %s" % (r.returncode, r.stderr[-1000:]))
        return json.loads(r.stdout.splitlines()[-1])
    finally:
        os.remove(path)


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            entries = json.load(f)["findings"]
    except OSError:
        return []
    return [e for e in entries if e["property"] == prop]


def matches(entry, result):
    return entry["class"] == result["cls"] and entry.get("contains", "") in result["msg"]


class NotRepeatable(Exception):
    pass


def gate(exe, prop, choices, cls, hash_):
    """A violation counts only if fresh processes repeat it exactly."""
    for _ in range(2):
        again = run_list(exe, prop, choices)
        if again["v"] != "violation" or again["cls"] != cls or again["hash"] != hash_:
            raise NotRepeatable("violation %s does not repeat exactly: got %s %s" % (cls, again["v"], again["cls"]))


def record(exe, prop, seed, tier, result, budget):
    gate(exe, prop, result["choices"], result["cls"], result["hash"])
    small = run_list(exe, prop, result["choices"], "--minimise", budget)
    if small["v"] != "violation" or small["cls"] != result["cls"]:
        raise NotRepeatable("minimising lost the violation")
    choices = small["choices"]
    while choices and choices[-1] == 0:
        choices = choices[:-1]
    gate(exe, prop, choices, small["cls"], small["hash"])
    os.makedirs(REPLAYS, exist_ok=True)
    safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in result["cls"])[:60]
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, safe))
    doc = {
        "property": prop, "seed": seed, "tier": tier, "run": result["i"], "class": small["cls"],
        "message": small["msg"], "hash": small["hash"], "choices": choices,
        "original_choices": len(result["choices"]), "minimised_choices": len(choices),
        "trace": small["trace"].split("\n"),
        "repeat": "python3 sim/check.py replay replays/" + os.path.basename(path),
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path, small


def cmd_run(prop, tier, seed, runs, jobs):
    t0 = time.time()
    spec = PROPS[prop]
    print("check %s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    exe = binary(prop)
    t_build = time.time() - t0
    total = runs or spec[tier]
    limit = spec.get(tier + "_limit", 150 if tier == "quick" else 3000)
    t1 = time.time()
    results = sweep(exe, prop, seed, total, jobs, limit)
    t_sweep = max(1e-6, time.time() - t1)

    errors = [r for r in results if r["v"] == "error"]
    violations = [r for r in results if r["v"] == "violation"]
    known, fresh = {}, {}
    for r in violations:
        hit = next((e for e in known_findings(prop) if matches(e, r)), None)
        bucket, key = (known, hit["what"]) if hit else (fresh, r["cls"])
        bucket.setdefault(key, []).append(r)
    for bucket in (known, fresh):
        for group in bucket.values():
            group.sort(key=lambda r: r["nchoices"])
    if errors and not fresh:
        raise CheckError("run %d: %s" % (errors[0]["i"], errors[0]["cls"]))

    # the same seeds once more, distributed differently: the event logs must agree
    checked = 0
    if not fresh:
        n = min(len(results), max(20, total // 20))
        base = (seed * 7919) % max(1, len(results) - n + 1)
        again = sweep(exe, prop, seed, n, 3, limit, first=base, stop_on_violation=False)
        first = {r["i"]: r for r in results}
        for r in again:
            o = first.get(r["i"])
            if o is None:
                continue
            checked += 1
            if r["hash"] != o["hash"] or r["v"] != o["v"]:
                raise CheckError("run %d is not deterministic (%s/%s)" % (r["i"], o["hash"], r["hash"]))

    counters, states, calls, nanos, units = {}, set(), 0, 0, 0
    held = 0
    nontrivial = set()
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        calls += r["calls"]
        nanos += r["nanos"]
        units += r["units"]
        states.add(r["state"])
        if r["v"] == "held":
            held += 1
        if r["v"] in ("held", "violation") and r["units"] >= spec.get("min_units", 2):
            nontrivial.add(r["hash"])
    discards = len([r for r in results if r["v"] == "discard"])
    if results and discards > len(results) // 4 and not fresh:
        raise CheckError("too many discarded runs: %d of %d" % (discards, len(results)))
    samples = []
    for r in results[:400]:
        if r["v"] == "held" and r["units"] >= spec.get("min_units", 2):
            s = start(exe, prop, seed, r["i"], 1, r["i"] + 1, 60, trace=True)
            out, _ = s.communicate()
            d = json.loads(out.splitlines()[-1])
            samples.append({"run": r["i"], "choices": len(d["choices"]), "trace": d["trace"][-2500:].split("\n")})
            if len(samples) >= 2:
                break
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": spec["rule"] + " Non-trivial: at least %d oracle decisions; distinct: different event log and choice sequence." % spec.get("min_units", 2),
            "samples": samples,
            "seeds_per_hour": int(len(results) * 3600 / t_sweep),
            "oracle_decisions": units,
            "simulated_system_calls": calls,
            "simulated_seconds": round(nanos / 1e9, 3),
            "faults_injected": {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")},
            "conditions_reached": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")},
            "distinct_paths": len(states),
            "path_measure": spec.get("measure", "hash over the sequence of fault points and schedule decisions of a run"),
            "discarded_runs": discards,
            "determinism_runs_compared": checked,
            "build_s": round(t_build, 1),
            "real_components": spec["real"],
            "stub_components": spec["stub"],
            "known_findings_seen": sorted(known),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)

    def write():
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    write()
    for what, group in sorted(known.items()):
        try:
            gate(exe, prop, group[0]["choices"], group[0]["cls"], group[0]["hash"])
        except NotRepeatable as e:
            raise CheckError(str(e))
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if fresh:
        budget = 20 if tier == "quick" else 60
        reported, failures = 0, []
        for cls, group in sorted(fresh.items(), key=lambda kv: kv[1][0]["nchoices"]):
            if reported >= 3:
                break
            for r in group[:3]:
                try:
                    path, small = record(exe, prop, seed, tier, r, budget / (reported + 1))
                except NotRepeatable as e:
                    failures.append("run %d: %s" % (r["i"], e))
                    continue
                reported += 1
                print("%s: %s" % (cls, small["msg"].split("\n")[0]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                break
        if not reported:
            raise CheckError("; ".join(failures))
        evidence["wall_s"] = round(time.time() - t0, 2)
        write()
        return 1
    print("held: %d runs, %d oracle decisions, %d distinct non-trivial, %d repeated for determinism, %.1f s" %
          (len(results), units, len(nontrivial), checked, wall))
    if not nontrivial:
        raise CheckError("no non-trivial run")
    return 0


def cmd_replay(path):
    with open(path) as f:
        doc = json.load(f)
    exe = binary(doc["property"])
    r = run_list(exe, doc["property"], doc["choices"])
    print(r["trace"])
    print("%s %s: %s" % (r["v"], r["cls"], r["msg"]))
    if r["v"] == "violation" and r["cls"] == doc["class"]:
        print("reproduced, event log %s" % ("identical" if r["hash"] == doc["hash"] else "differs (the program changed)"))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    print("not reproduced")
    return 0


def cmd_determinism(prop, n, seed):
    exe = binary(prop)
    a = sweep(exe, prop, seed, n, JOBS, 1e9, stop_on_violation=False)
    b = sweep(exe, prop, seed, n, 3, 1e9, stop_on_violation=False)
    bad = [x["i"] for x, y in zip(a, b) if x["i"] != y["i"] or x["hash"] != y["hash"] or x["v"] != y["v"]]
    print("%s: %d runs executed twice (%d and 3 workers), %d differ %s" % (prop, len(a), JOBS, len(bad), bad[:10]))
    return 2 if bad or len(a) != len(b) else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("command", choices=["setup", "run", "replay", "determinism", "list"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("count", nargs="?", type=int, default=400)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=JOBS)
    a = ap.parse_args()
    try:
        if a.command == "setup":
            for name, path in builder.build(sorted({p["binary"] for p in PROPS.values()})).items():
                print(name, os.path.basename(path))
            return 0
        if a.command == "list":
            print("\n".join(PROPS))
            return 0
        if a.command == "run":
            return cmd_run(a.arg, "thorough" if a.tier == "thorough" else "quick", a.seed, a.runs, a.jobs)
        if a.command == "replay":
            return cmd_replay(a.arg)
        return cmd_determinism(a.arg, a.count, a.seed)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
