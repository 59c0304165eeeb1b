#!/usr/bin/env python3
"""Decides one property: check.py ID   (VERIF_TIER=quick|thorough, VERIF_SEED)

Builds the engine and the property's harness against /repo's current sources, explores every harness
symbolically (solver decides every branch and assertion), confirms a counterexample on the ordinary build,
and writes evidence/ID.json.  Exit 0 held, 1 violation, 2 error of the check."""
import bisect, json, os, re, subprocess, sys, time

T0 = time.time()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from props import PROPS


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def symbolise(binary, addrs):
    out = subprocess.run(["nm", "-C", "--defined-only", binary], capture_output=True, text=True).stdout.splitlines()
    tab, base = [], 0
    for l in out:
        m = re.match(r"([0-9a-f]+) (\S) (.*)", l)
        if not m:
            continue
        if m.group(3) == "__executable_start":
            base = int(m.group(1), 16)
        if m.group(2) in "tTwWuV":
            tab.append((int(m.group(1), 16), m.group(3)))
    tab.sort()
    keys = [a for a, _ in tab]
    res = set()
    for a in addrs:
        i = bisect.bisect_right(keys, a + base) - 1
        if i >= 0:
            n = tab[i][1]
            n = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>", "string", n)
            if ("parser::" in n.split("(")[0] or "nclangsrv::" in n.split("(")[0]) and "boost::spirit" not in n and "boost::function" not in n and "std::" not in n.split("(")[0]:
                res.add(n[:160])
    return sorted(res)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    jobs = os.cpu_count() or 4
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    known_file = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = {k["id"]: k for k in known_file["findings"] if k["property"] == pid}
    results, violations, known_seen, missing, nores = [], [], {}, [], []
    bins = {}
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    for spec in P["harnesses"]:
        src, name = spec["file"], spec["name"]
        if only and name not in only:
            continue
        t = spec.get(tier, spec["quick"])
        if not t:
            continue
        if src not in bins:
            bins[src] = B.build(os.path.join(VERIF, "harness", src))
        out = os.path.join(ev_dir, ".%s.%s.json" % (pid, name))
        if os.path.exists(out):
            os.remove(out)
        cmd = [bins[src], "--harness=" + name, "--jobs=%d" % jobs, "--time=%g" % t, "--out=" + out, "--qms=%d" % spec.get("qms", 4000 if tier == "quick" else 60000), "--cpu=%d" % spec.get("cpu", 20)]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=t * 2 + 240, errors="replace")
            why = p.stderr[-1500:]
        except subprocess.TimeoutExpired:
            why = "did not finish"
        if not os.path.exists(out):
            # the explorer could not even start from the default inputs (e.g. the code fails while setting up): the default inputs are the counterexample
            violations.append((name, src, "no result: " + why, {}, "default inputs"))
            nores.append(name)
            continue
        d = json.load(open(out))
        os.remove(out)
        d["fn_names"] = symbolise(bins[src], d.pop("fns"))
        d["bounds"] = spec.get("bounds", "")
        results.append(d)
        print("%s: %d paths, %d symbolic branches, %d queries (%d sat, %d unsat, %d unknown), asserts %d (%d proved, %d concrete), %.1fs%s" % (
            name, d["paths_ok"], d["branches"], d["queries"], d["sat"], d["unsat"], d["unknown"], d["asserts"], d["assert_unsat"], d["assert_concrete"], d["wall_s"],
            ", complete within bounds" if d["complete"] else ", NOT exhausted (%d left, %d unknown, %d diverged)" % (d["left"], d["unknown"], d["diverged"])))
        if d["unknown"]:
            print("   undecided at: " + json.dumps(d["unknown_at"])[:600])
        for k, v in d.pop("known", {}).items():
            known_seen.setdefault(k[6:], (name, src, v))
        for v in d["violations"]:
            violations.append((name, src, v["msg"], {x["name"]: x["raw"] for x in v["vars"]}, " ".join("%s=%s" % (x["name"], x["show"]) for x in v["vars"] if x["name"][0] != "!")))
        if not d["violations"]:
            for r in spec.get("reach", []):
                if r not in d["reach"]:
                    missing.append("%s:%s" % (name, r))
    for k, (name, src, v) in known_seen.items():
        if k not in known:
            violations.append((name, src, "KNOWN:" + k, v, json.dumps(v)))
    confirmed, unconfirmed = [], []
    for i, (name, src, msg, vars_, show) in enumerate(violations):
        rp = os.path.join(ev_dir, "replay_%s_%d.txt" % (pid, i))
        with open(rp, "w") as f:
            for n, x in vars_.items():
                if n[0] != "!":
                    f.write("%s %s\n" % (n, x))
            f.write("# property %s, harness %s (%s)\n# %s\n# %s\n# replay: $(python3 tools/build.py %s --plain) --harness=%s --replay=%s\n" % (pid, name, src, msg, show, src, name, rp))
        plain = B.build(os.path.join(VERIF, "harness", src), plain=True)
        try:
            p = subprocess.run([plain, "--harness=" + name, "--replay=" + rp], capture_output=True, text=True, timeout=120, errors="replace")
            rc, txt = p.returncode, p.stdout[-1500:] + p.stderr[-500:]
        except subprocess.TimeoutExpired:
            rc, txt = -9, "no termination"
        bad = rc in (10, 11, 12) or rc < 0
        (confirmed if bad else unconfirmed).append((name, msg, show, rp, rc, txt))
        with open(rp, "a") as f:
            f.write("# real build: exit %d\n" % rc + "".join("# | %s\n" % l for l in txt.splitlines()[-12:]))
    S = lambda k: sum(r[k] for r in results)
    fns = sorted({f for r in results for f in r["fn_names"]})
    level = P.get("level", "model_checking")
    cov = {
        "explanation": "Concolic symbolic execution of the compiled real code (LLVM IR of /repo's current sources): every path is a real execution; z3 decides every branch and assertion over all values of the symbolic inputs on that path.",
        "states": S("paths_ok") + S("assumed_out"),
        "transitions": S("branches"),
        "traces_validated_against_impl": S("runs") - S("diverged") - S("eval_mismatch"),
        "evaluations": S("runs"),
        "distinct_nontrivial": S("paths_ok"),
        "rule": "one case per feasible path condition of the harness; non-trivial: the path meets the assumptions and runs to the end of the harness",
        "samples": [s for r in results for s in r["samples"]][:12],
        "exhaustive": all(r["complete"] for r in results),
        "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
        "assertions_checked": S("asserts"), "assertions_proved_unsat": S("assert_unsat"), "assertions_with_concrete_operands": S("assert_concrete"), "assertions_undecided": S("assert_unknown"),
        "functions_encoded": fns[:150], "functions_encoded_count": len(fns),
        "harnesses": [{k: r[k] for k in ("harness", "bounds", "runs", "paths_ok", "assumed_out", "queries", "unknown", "diverged", "concretised", "left", "complete", "wall_s", "reach", "assertions", "real_mode")} for r in results],
        "bounds": P.get("bounds", ""),
        "counterexamples_not_reproduced_on_the_real_build": [{"harness": n, "assertion": m, "input": s} for n, m, s, *_ in unconfirmed],
        "known_findings_seen": sorted(known_seen),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(confirmed)}
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known_seen):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    for n, m, s, rp, rc, txt in unconfirmed:
        print("not reproduced on the real build (ignored): %s: %s [%s]" % (n, m, s))
    if confirmed:
        for n, m, s, rp, rc, txt in confirmed:
            print("%s: %s" % (n, m))
            print("   input: " + s[:1500])
            print("   real build: exit %d %s" % (rc, txt.strip()[-600:]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        sys.exit(1)
    if nores:
        fail("harness without result: " + ", ".join(nores))
    if missing:
        fail("vacuous: never reached %s" % ", ".join(missing))
    print("%s held (%.0fs)" % (pid, time.time() - T0))
    sys.exit(0)


if __name__ == "__main__":
    main()
