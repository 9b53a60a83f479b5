#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's working tree.
1. every obligation generated from the current source (contracts/, engine/) is put to z3;
2. a failed obligation is replayed: the real code is searched for an input that shows it (confirm/);
3. exit 1 with a VIOLATION line if the property is broken, exit 0 otherwise."""
import sys, os, time, json, subprocess, tempfile, shutil, re, multiprocessing as mp, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/contracts", HERE + "/engine"]
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv: TIER = sys.argv[sys.argv.index("--tier") + 1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = TIER == "quick"
REPO = os.environ.get("VP_REPO", "/repo")
JOB_BUDGET = 500 if QUICK else 1500
AUDIT_S = 12 if QUICK else 240
SEARCH_S = 120 if QUICK else 600
EXT_ONLY = {"C05"}; DEF_ONLY = set()

TRUST = [
    "z3 %s (and cvc5 in the thorough tier) as decision procedures; the obligation generator in /verif/engine",
    "clang 18 -O0 as translator from C++ to the verified LLVM IR (data layout x86-64, little endian, 64-bit size_t)",
    "contracts of std containers, strings and streams (/verif/engine/libspec.py, iomode.py), assumed, audited by running the real library (confirm/)",
    "strings and doubles are opaque values; the library prints a double with 17 significant digits so that reading it back gives the same double",
    "containers and streams hold fewer than 2^57 items (address space); running out of memory (bad_alloc, length_error) is a permitted outcome",
]


def sh_harness(exe, args, timeout):
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, errors="replace",
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:abort_on_error=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1"))
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired: return 124, "", ""


class Concrete:
    """the real code, built with sanitizers, on generated inputs"""
    def __init__(s, dir):
        s.dir = dir; s.ok = False; s.err = ""; s.cases = 0
        s.variants = ["sanext"] if PROP in EXT_ONLY else ["san", "sanext"]
        if PROP == "C07": s.extra = ["pat", "zero", "patext", "zeroext"]
        else: s.extra = []
        s.th = threading.Thread(target=s.build); s.th.start()

    def build(s):
        r = subprocess.run(["bash", HERE + "/confirm/build.sh", s.dir] + s.variants + s.extra, capture_output=True, text=True)
        s.ok = r.returncode == 0 and all(os.path.exists("%s/harness-%s" % (s.dir, v)) for v in s.variants)
        s.err = r.stderr[-1500:]

    def one(s, v, first, secs, out):
        d = tempfile.mkdtemp(prefix="h.", dir=s.dir)
        rc, o, e = sh_harness("%s/harness-%s" % (s.dir, v), [PROP, SEED, first, 10 ** 8, secs, d], secs + 120)
        m = re.search(r"OK cases=(\d+)", o)
        if m: s.cases += int(m.group(1))
        f = re.search(r"FAIL case=(\d+) (.*)", o)
        if f: out.append((v, int(f.group(1)), f.group(2), e[-6000:]))
        elif rc not in (0, 124): out.append((v, first, "crash of the driver (exit %d)" % rc, e[-6000:])) if rc < 0 or rc == 1 else None

    def run(s, secs, procs, base=0):
        """-> list of failures (variant, case, message, stderr)"""
        s.th.join()
        if not s.ok: return []
        out = []; ths = []
        for i in range(procs):
            v = s.variants[i % len(s.variants)]
            t = threading.Thread(target=s.one, args=(v, base + i * 10 ** 7, secs, out)); t.start(); ths.append(t)
        for t in ths: t.join()
        return out

    def digests(s, n):
        """uninitialised values: two fillings of automatic storage must behave alike"""
        out = []
        for e in ("", "ext"):
            a = sh_harness("%s/harness-pat%s" % (s.dir, e), [PROP, SEED, 0, n, "digest"], 300)[1].split("\n")
            b = sh_harness("%s/harness-zero%s" % (s.dir, e), [PROP, SEED, 0, n, "digest"], 300)[1].split("\n")
            s.cases += len(a)
            for x, y in zip(a, b):
                if x != y:
                    out.append(("pat" + e, int(x.split()[0]) if x.split() else 0, "the result depends on uninitialised memory", "")); break
        return out


def replay_dir():
    d = "%s/evidence/replay-%s" % (HERE, PROP)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    return d


def main():
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vpchk.")
    try: return decide(tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)


def decide(tmp):
    conc = Concrete(tmp)
    import run as R
    from base import ir, vc
    jobs = R.all_jobs()
    todo = [(i, e, JOB_BUDGET, not QUICK) for i, j in enumerate(jobs) if PROP in j["props"] for e in j["exts"]]
    todo.sort(key=lambda x: -jobs[x[0]].get("weight", 0))
    results = []; compile_err = None
    try:
        for e in set(x[1] for x in todo):
            p = mp.Process(target=ir.load, args=(e,)); p.start(); p.join()       # a crash of the LLVM library must not end the check
            if p.exitcode is not None and p.exitcode < 0: raise ir.CompileError("reading the LLVM IR ended with signal %d" % -p.exitcode)
            ir.load(e)
    except ir.CompileError as e:
        compile_err = str(e)
    except Exception as e:
        compile_err = "reading the LLVM IR: %r" % (e,)
    if compile_err is None:
        for r in R.schedule(todo): results.append(r)
    else:
        results = [R.dead(x, compile_err) for x in todo]
    # ------------------------------------------------------------- what the verifier says
    props = {j["name"]: j["props"][PROP] for j in jobs if PROP in j["props"]}
    nob = nd = 0; failed = []; unknown = []; open_jobs = []
    for r in results:
        kinds = props[r["job"]]
        mine = [o for o in r["obl"] if kinds is None or o["kind"] in kinds]
        r["n"] = len(mine); r["nd"] = 0
        for o in mine:
            nob += 1
            if not o["failed"] and not o["unknown"]: nd += 1; r["nd"] += 1
            elif o["failed"] and o["exact"]: failed.append((r, o))
            else: unknown.append((r, o))
        if r["status"] != "ok": open_jobs.append(r)
    # ------------------------------------------------------------- the real code
    conc.th.join()
    doubt = bool(failed or unknown or open_jobs)
    fails = conc.run(AUDIT_S, 8)
    if not fails and PROP == "C07" and conc.ok: fails = conc.digests(300 if QUICK else 5000)
    if not fails and doubt: fails = conc.run(SEARCH_S, 8, 10 ** 9)
    second = second_solver(results) if not QUICK else None
    viol = report(fails, failed, unknown, open_jobs, conc, tmp)
    evidence(results, nob, nd, failed, unknown, open_jobs, conc, viol, second)
    n = sum(r["queries"] for r in results)
    print("%s: %d obligations, %d discharged (%d jobs, %d solver queries); %d concrete executions; %.0f s" % (PROP, nob, nd, len(results), n, conc.cases, time.time() - T0))
    for r in open_jobs: print("BOUNDED %s: verifier stopped (%s); decided by bounded execution only" % (r["job"] + (" [ext]" if r["ext"] else ""), r["why"]))
    for r, o in unknown: print("BOUNDED obligation not decided: %s: %s at %s (%s)" % (r["job"], o["what"], o["loc"], o["fn"]))
    if not conc.ok: print("note: the concrete driver could not be built: " + conc.err[-300:])
    if not conc.ok and compile_err is not None:
        print("error: neither the verifier nor the driver could process the source"); return 3
    for l in open(HERE + "/known_findings.txt"):
        m = re.match(r"finding: property=(\S+) case=(\d+) (.*)", l)
        if m and m.group(1) == PROP and conc.ok:
            d2 = tempfile.mkdtemp(prefix="f.", dir=tmp)
            rc, o, e = sh_harness("%s/harness-%s" % (tmp, conc.variants[0]), [PROP + "F", SEED, m.group(2), "replay", d2], 60)
            if rc != 0: print("KNOWN-FINDING: property=%s %s" % (PROP, m.group(3)))
    if viol: print(viol); return 1
    return 0


def report(fails, failed, unknown, open_jobs, conc, tmp):
    if not fails and not failed: return None
    d = replay_dir()
    L = ["property %s on %s" % (PROP, REPO), ""]
    for r, o in failed + unknown:
        L += ["OBLIGATION %s: [%s] %s" % ("FAILED" if (r, o) in failed else "NOT DECIDED", o["kind"], o["what"]), "  at %s in %s, job '%s'%s" % (o["loc"], o["fn"], r["job"], " (NanoSpline)" if r["ext"] else "")]
        if o["model"]: L += ["  condition: " + o["model"][2], "  solver output (counterexample candidate):", "    " + o["model"][0].replace("\n", "\n    "), ""]
    for r in open_jobs:
        L.append("JOB NOT COMPLETED: '%s': %s" % (r["job"], r["why"]))
        for t in r.get("trial", []): L.append("   obligation that cannot hold: [%s] %s at %s" % (t[0], t[2], t[1]))
    tail = " no-failing-input-found"
    if fails:
        v, case, msg, err = fails[0]
        tail = ""
        L += ["", "FAILING INPUT (real code, variant %s, case %d, seed %d): %s" % (v, case, SEED, msg), err]
        rd = d + "/case"; os.makedirs(rd)
        sh_harness("%s/harness-%s" % (tmp, v), [PROP, SEED, case, "replay", rd], 60)
        with open(d + "/replay.sh", "w") as f:
            f.write("#!/bin/bash\n# rebuilds the driver from /repo and runs the failing case; exit 1: it still fails\nset -e\nT=$(mktemp -d)\nbash %s/confirm/build.sh $T %s\nmkdir -p $T/o\nrc=0; $T/harness-%s %s %d %d replay $T/o || rc=1\nfind $T -delete\nexit $rc\n" % (HERE, v, v, PROP, SEED, case))
        print("failing input: %s" % msg)
    for r, o in failed: print("failed obligation: [%s] %s at %s (%s)" % (o["kind"], o["what"], o["loc"], o["fn"]))
    with open(d + "/report.txt", "w") as f: f.write("\n".join(L))
    return "VIOLATION property=%s replay=%s%s" % (PROP, d + "/report.txt", tail)


def second_solver(results):
    """cvc5 on the obligations z3 discharged"""
    sm = []
    for r in results:
        for k in r["smt2"]:
            if k[1]: sm.append(k[1])
    left = max(60, 780 - (time.time() - T0)) if "--limit" in sys.argv else 2400
    with mp.Pool(8) as p:
        res = []
        end = time.time() + left
        for x in p.imap_unordered(cvc5_one, sm, 8):
            res.append(x)
            if time.time() > end: p.terminate(); break
    return {"back_end": "cvc5 1.1.2", "obligations": len(sm), "unsat": res.count("unsat"), "unknown": sum(1 for x in res if x not in ("unsat", "sat")), "sat": res.count("sat")}


def cvc5_one(smt):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write("(set-logic ALL)\n" + "\n".join(l for l in smt.split("\n") if not l.startswith("(set-info")))
    try:
        r = subprocess.run(["cvc5", "--tlimit=20000", f.name], capture_output=True, text=True, timeout=40)
        return r.stdout.strip().split("\n")[-1]
    except subprocess.TimeoutExpired: return "timeout"
    finally: os.unlink(f.name)


def evidence(results, nob, nd, failed, unknown, open_jobs, conc, viol, second):
    import z3
    fns = sorted(set(sum((r["fns"] for r in results), [])))
    cov = {
        "obligations": nob, "discharged": nd,
        "checker_cmd": "python3-vt -O /verif/check.py %s (VERIF_TIER=%s)" % (PROP, TIER),
        "trusted_base": [TRUST[0] % z3.get_version_string()] + TRUST[1:],
        "functions_under_contract": fns,
        "callee_contracts_used": sorted(set(sum((r["contracts"] for r in results), []))),
        "assumed_std_contracts": len(set(sum((r["lib"] for r in results), []))),
        "assumed_std_contract_names": sorted(set(sum((r["lib"] for r in results), [])))[:120],
        "loops_with_invariants": len(set(tuple(l) for r in results for l in r["loops"])),
        "jobs": [{"job": r["job"] + (" [NanoSpline]" if r["ext"] else ""), "obligations": r.get("n", 0), "discharged": r.get("nd", 0), "queries": r["queries"], "solver_s": r["solver"], "status": r["status"]} for r in results],
        "back_end": "z3 " + z3.get_version_string(),
        "solver_s": round(sum(r["solver"] for r in results), 1),
        "solver_queries": sum(r["queries"] for r in results),
        "bounded_stand_ins": ["%s: %s" % (r["job"], r["why"][:160]) for r in open_jobs] + ["%s: %s at %s" % (r["job"], o["what"], o["loc"]) for r, o in unknown],
        "failed_obligations": ["%s: %s at %s" % (r["job"], o["what"], o["loc"]) for r, o in failed][:40],
        "concrete_audit": {"evaluations": conc.cases, "variants": conc.variants + conc.extra, "built": conc.ok},
    }
    if second: cov["second_back_end"] = second
    e = {"property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
         "assumptions": TRUST[1:], "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0}
    s = json.dumps(e, indent=1)
    while len(s) > 60000 and cov["assumed_std_contract_names"]:
        cov["assumed_std_contract_names"] = cov["assumed_std_contract_names"][:len(cov["assumed_std_contract_names"]) // 2]
        cov["functions_under_contract"] = cov["functions_under_contract"][:200]
        s = json.dumps(e, indent=1)
    with open("%s/evidence/%s.json" % (HERE, PROP), "w") as f: f.write(s)


if __name__ == "__main__":
    sys.exit(main())
