#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

usage: run_check.py <property> [quick|thorough]
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import sxbuild as B
from checks import CHECKS

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 840 if tier == "quick" else 6 * 3600
only = os.environ.get("SX_JOB")  # development: run one job only
spec = CHECKS[prop]
jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (not only or j["name"] == only)]


def die(msg):
    print(f"ERROR property={prop}: {msg}")
    sys.exit(2)


def known_findings():
    out = []
    p = os.path.join(B.VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("property") == prop and e.get("status") == "open":
                out.append(e)
    return out


def defs_of(j):
    d = dict(j.get("defs", {}))
    d.update(j.get(tier, {}))
    return d


def main():
    fut = {}
    pool = B.ThreadPoolExecutor(max_workers=8)
    eng = pool.submit(B.engine)
    libs = {v: pool.submit(B.repo_bitcode, v) for v in {bool(j.get("verify")) for j in jobs}}
    try:
        symx = eng.result()
        libs = {v: f.result() for v, f in libs.items()}
        bcs = [pool.submit(B.harness_bitcode, j["src"], defs_of(j), bool(j.get("verify")), libs[bool(j.get("verify"))]) for j in jobs]
        bcs = [b.result() for b in bcs]
    except B.BuildError as e:
        die("build failed: " + str(e))

    # native replay programs are built while the solver works
    for v in {bool(j.get("verify")) for j in jobs}:
        fut[v] = pool.submit(B.native_lib, v)
    nat = {}

    def native_for(j):
        fut[bool(j.get("verify"))].result()
        return B.native(j["src"], defs_of(j), bool(j.get("verify")))

    t_build = time.time() - T0
    outroot = os.path.join(B.BUILD, f"out-{prop}-{tier}" + ("-" + only if only else ""))
    shutil.rmtree(outroot, ignore_errors=True)
    os.makedirs(outroot)
    res, viols, errors = [], [], []
    for j, bc in zip(jobs, bcs):
        nat[j["name"]] = pool.submit(native_for, j)
        out = os.path.join(outroot, j["name"])
        os.makedirs(out)
        left = BUDGET - (time.time() - T0)
        tmax = min(left, j.get("time", {}).get(tier, left) if isinstance(j.get("time"), dict) else j.get("time", left))
        if left < 5:
            errors.append(f"{j['name']}: out of time")
            break
        cmd = [symx, "--bc", bc, "--out", out, "--jobs", str(min(8, os.cpu_count() or 1)), "--time", f"{tmax:.0f}", "--samples", "16", *j.get("opts", [])]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = r.stdout.decode(errors="replace")
        if not os.path.exists(out + "/result.json"):
            errors.append(f"{j['name']}: the executor failed: {txt[-2000:]}")
            continue
        q = json.load(open(out + "/result.json"))
        q["job"] = j["name"]
        q["defs"] = defs_of(j)
        q["out"] = out
        res.append(q)
        if q["violations"]:
            for f in sorted(os.listdir(out)):
                if f.startswith("viol."):
                    viols.append((j, os.path.join(out, f)))
            break  # replay first; no point in the other jobs
        if r.returncode != 0:
            errors.append(f"{j['name']}: {'time budget exhausted' if q['timeout'] else q['error'] or txt[-500:]}")
        for lab in j.get("reach", []):
            if not q["reach"].get(lab):
                errors.append(f"{j['name']}: vacuous: '{lab}' was never reached")
        if q["paths"] == 0:
            errors.append(f"{j['name']}: no path completed")

    # counterexamples: only what the real code reproduces counts
    confirmed, unconfirmed = [], []
    for j, f in viols:
        try:
            exe = nat[j["name"]].result()
        except B.BuildError as e:
            die("native build failed: " + str(e))
        st, so, se = B.replay(exe, f, timeout=j.get("replay_timeout", 30))
        head = open(f).read()
        kind = re.search(r"# kind (.*)", head).group(1)
        msg = re.search(r"# msg (.*)", head).group(1)
        if st not in (0, 77, 78, 79):
            rp = os.path.join(B.BUILD, f"replay-{prop}-{j['name']}-{os.path.basename(f)}.txt")
            first = [l for l in se.splitlines() if l.strip()][:1]
            with open(rp, "w") as o:
                o.write(f"# property {prop}\n# job {j['name']}\n# tier {tier}\n# src {j['src']}\n# defs {json.dumps(defs_of(j))}\n# verify {int(bool(j.get('verify')))}\n# native status {st}: {first[0] if first else ''}\n" + head)
            confirmed.append((j, rp, kind, msg, st, first))
        else:
            unconfirmed.append((j, f, kind, msg, st, se[-300:]))

    # completed paths: the real code, run on the solver's inputs, must make the observations the encoding predicts
    validated, mism, samples = 0, [], []
    if not confirmed:
        for q in res:
            j = next(x for x in jobs if x["name"] == q["job"])
            try:
                exe = nat[j["name"]].result()
            except B.BuildError as e:
                die("native build failed: " + str(e))
            for f in sorted(os.listdir(q["out"])):
                if not f.startswith("sample."):
                    continue
                p = os.path.join(q["out"], f)
                want = [l for l in open(p).read().splitlines() if l.startswith("tr ")]
                st, so, se = B.replay(exe, p)
                got = [l for l in so.splitlines() if l.startswith("tr ")]
                if st == 0 and got == want:
                    validated += 1
                    if len(samples) < 4:
                        ins = [l[3:] for l in open(p).read().splitlines() if l.startswith("in ")]
                        samples.append({"job": j["name"], "inputs": ins[:24], "observed": [l[3:] for l in want[:12]]})
                else:
                    mism.append((p, st, se[-300:], [x for x in zip(want, got) if x[0] != x[1]][:2]))
        for m in mism[:3]:
            errors.append(f"encoding and real code disagree on {m[0]}: status {m[1]} {m[2]} {m[3]}")

    kf = known_findings()
    fresh, seen_kf = [], []
    for c in confirmed:
        hit = [e for e in kf if e.get("job") == c[0]["name"] and e.get("msg") == c[3]]
        (seen_kf if hit else fresh).append(c)
    for e in kf:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")

    funcs = sorted({f for q in res for f in q["functions"]})
    lib = demangle([f for f in funcs if "utreexo" in f or "sha512" in f])
    tot = lambda k: sum(q[k] for q in res)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": validated, "samples": samples,
            "what_states_and_transitions_are": "states: symbolic paths executed to the end, each standing for all inputs that satisfy its path condition; transitions: branch decisions on symbolic conditions",
            "exhaustive": not errors and not confirmed,
            "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            "paths_cut_by_assumptions": tot("infeasible_by_assumption"),
            "instructions_executed": tot("instructions"), "concretizations": tot("concretizations"),
            "assertions_checked": tot("asserts"), "assertion_queries": tot("assert_queries"),
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3), "solver_max_s": max([q["solver_max_s"] for q in res] or [0]),
            "functions_encoded": lib, "build_s": round(t_build, 2),
            "jobs": [{k: q[k] for k in ("job", "defs", "paths", "instructions", "branches", "asserts", "queries", "solver_s", "wall_s", "timeout", "max_inputs", "reach")} for q in res],
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    name = f"{prop}.json" if not only else f"{prop}.dev.json"
    with open(os.path.join(B.VERIF, "evidence", name), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {tot('paths')} paths, {tot('queries')} queries, {tot('solver_s'):.1f}s solver, {validated} traces validated, {time.time() - T0:.1f}s")
    for q in res:
        print(f"  {q['job']}: {q['paths']} paths {q['branches']} branches {q['queries']} queries solver {q['solver_s']:.1f}s wall {q['wall_s']:.1f}s reach {q['reach']}")
    if fresh:
        for j, rp, kind, msg, st, first in fresh[:1]:
            print(f"  {kind}: {msg} [{j['name']}] native: {st} {first}")
            print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    for j, f, kind, msg, st, se in unconfirmed:
        errors.append(f"counterexample not reproduced by the real code ({kind}: {msg}; native status {st} {se.strip()[:200]}): {f}")
    if errors:
        for e in errors:
            print("  " + e)
        die(errors[0])
    sys.exit(0)


COMMON = [
    "clang 18 -O2 lowers the sources as the project's compiler does; the executor and its models of allocation, exceptions, iostreams and unordered containers follow the C++ standard (checked by replaying sampled paths natively)",
    "memory allocation succeeds (requests above 256 MB throw bad_alloc)",
]


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE, timeout=20)
        o = sorted(set(r.stdout.decode().split("\n")))
        return [x for x in o if x and not x.startswith("std::") and " std::" not in x.split("(")[0]]
    except Exception:
        return names


main()
