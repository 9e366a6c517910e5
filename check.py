#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decide one property by symbolic execution of the code in /repo.

exit 0: every assertion shown within the stated bounds; 1: VIOLATION (counterexample confirmed by a native run);
2: no answer (engine limit, solver gave no verdict, build error)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(V, "build")
WARN = "-w"
BASE = ["-std=c++17", WARN, "-DEIGEN_DONT_VECTORIZE", "-DGOOSEFEM_ENABLE_ASSERT", '-DGOOSEFEM_VERSION="0.0"',
        "-I" + REPO + "/include", "-I" + V + "/harness", "-I" + V + "/harness/omp", "-I/usr/include/eigen3"]
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-c", "-emit-llvm"]


def sh(cmd, timeout=900, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)


def build_engine():
    os.makedirs(ENG, exist_ok=True)
    import fcntl
    with open(os.path.join(ENG, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j3", "-C", os.path.join(V, "engine"), "OUT=" + ENG])
        sup = os.path.join(ENG, "support.bc")
        src = os.path.join(V, "harness/support.cpp")
        if r.returncode == 0 and (not os.path.exists(sup) or os.path.getmtime(sup) < os.path.getmtime(src)):
            r = sh(["clang++", "-std=c++17", "-O1", "-c", "-emit-llvm", src, "-o", sup])
    if r.returncode:
        die("engine build failed:\n" + r.stdout[-3000:])


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def parse_harness(path):
    """//@ lines: bounds, assumptions and per-entry options"""
    info = {"bounds": [], "assume": [], "opts": {}, "flags": [], "outside": []}
    for line in open(path):
        m = re.match(r"\s*//@\s*(\w+):?\s*(.*)$", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "bound":
            info["bounds"].append(v)
        elif k == "assume":
            info["assume"].append(v)
        elif k == "outside":
            info["outside"].append(v)
        elif k == "flags":
            info["flags"] += v.split()
        elif k == "opts":
            p = v.split()
            info["opts"][p[0]] = p[1:]
    return info


def main():
    if sys.argv[1:] == ["--setup"]:
        build_engine()
        print("engine built")
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3:]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    srcs = sorted(glob.glob(os.path.join(V, "harness", prop + "*.cpp")))
    srcs = [s for s in srcs if re.match(prop + r"(_\w+)?\.cpp$", os.path.basename(s))]
    if not srcs:
        die("no harness for " + prop)
    os.makedirs(ENG, exist_ok=True)
    work = tempfile.mkdtemp(prefix="check-" + prop + "-", dir=ENG)
    try:
        rc = run(prop, tier, only, srcs, work, t0, seed)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, only, srcs, work, t0, seed):
    tierflag = ["-DTHOROUGH=1"] if tier == "thorough" else ["-DTHOROUGH=0"]
    entries, infos, natives = [], [], {}
    t1 = None

    def compile_ir(src):
        info = parse_harness(src)
        bc = os.path.join(work, os.path.basename(src)[:-4] + ".bc")
        r = sh(["clang++"] + BASE + tierflag + info["flags"] + IRFLAGS + [src, "-o", bc])
        if r.returncode:
            die("harness does not compile against the current tree:\n" + r.stdout[-4000:])
        return src, info, bc

    def compile_native(src, flags, out):
        info = parse_harness(src)
        fl = [f for f in info["flags"] if f != "-fopenmp"]
        r = sh(["clang++"] + BASE + tierflag + fl + flags + ["-ffp-contract=off", src, os.path.join(V, "harness/native.cpp"),
                "-rdynamic", "-ldl", "-o", out])
        return r.returncode == 0, r.stdout

    ex = cf.ThreadPoolExecutor(max_workers=16)
    eng = ex.submit(build_engine)
    irs = [ex.submit(compile_ir, s) for s in srcs]
    nat = {s: ex.submit(compile_native, s, ["-O1", "-g1"], os.path.join(work, os.path.basename(s)[:-4] + ".native")) for s in srcs}
    eng.result()
    jobs = []
    for f in irs:
        src, info, bc = f.result()
        infos.append(info)
        linked = bc[:-3] + ".l.bc"
        r = sh(["llvm-link", bc, os.path.join(ENG, "support.bc"), "-o", linked])
        if r.returncode:
            die("llvm-link: " + r.stdout[-2000:])
        names = re.findall(r"^[0-9a-f-]* *T (h[tk]?_\w+)$", sh(["llvm-nm", "--defined-only", bc]).stdout, re.M)
        for n in sorted(names):
            if only and n not in only:
                continue
            if n.startswith("ht_") and tier != "thorough":
                continue
            jobs.append((src, info, linked, n))
    if not jobs:
        die("no entries")
    npar = min(8, len(jobs))
    per = max(1, (8 + npar - 1) // npar)
    if len(jobs) > 1:
        per += 1

    def run_entry(job):
        src, info, linked, n = job
        out = os.path.join(work, n + ".jsonl")
        opts = {"--deadline": "400" if tier == "quick" else "3000", "--jobs": str(per), "--max-viol": "3", "--samples": "2"}
        o = info["opts"].get(n, [])
        for k in range(0, len(o) - 1, 2):
            opts[o[k]] = o[k + 1]
        cmd = [os.path.join(ENG, "symir"), linked, n, out]
        for k, v in opts.items():
            cmd += [k, v]
        try:
            r = sh(cmd, timeout=float(opts["--deadline"]) + 60)
            err = r.stdout
        except subprocess.TimeoutExpired:
            err = "engine did not stop"
        recs = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        return job, recs, err

    # long ones first when known
    jobs.sort(key=lambda j: -float(dict(zip(j[1]["opts"].get(j[3], [])[::2], j[1]["opts"].get(j[3], [])[1::2])).get("--cost", 1)))
    results = [f.result() for f in [cf.ThreadPoolExecutor(max_workers=npar).submit(run_entry, j) for j in jobs]] if npar == 1 else list(
        cf.ThreadPoolExecutor(max_workers=npar).map(run_entry, jobs))

    known = load_known()
    replays = os.path.join(V, "replay")
    os.makedirs(replays, exist_ok=True)
    problems, confirmed, unconfirmed, knownhits, notes = [], [], [], [], []
    tot = {}
    funcs, samples, per_entry = set(), [], []
    validated = 0
    for (src, info, linked, n), recs, err in results:
        summ = [r for r in recs if r.get("type") == "summary"]
        if not summ:
            problems.append(f"{n}: engine gave no summary: {err[-500:]}")
            continue
        s = summ[-1]
        for k, v in s.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = tot.get(k, 0) + v
        funcs.update(s.get("functions", []))
        per_entry.append({k: s.get(k) for k in ("entry", "paths_ok", "paths_throw", "paths_infeasible", "asserts", "asserts_concrete", "discharged",
                                                 "by_identity", "by_tolerance", "assert_unknown", "q_sat", "q_unsat", "q_unknown", "solver_s", "wall_s", "instructions", "timeout")})
        viol = [r for r in recs if r.get("type") == "violation"]
        iskn = lambda r: any(k["property"] == prop and k["entry"] == n and k["kind"] == r["kind"] and k["msg"] in r["msg"] for k in known)
        if s.get("timeout"):
            problems.append(f"{n}: time limit")
        if s.get("crashed"):
            problems.append(f"{n}: engine crashed: {err[-300:]}")
        for r in recs:
            if r.get("type") == "unsupported":
                problems.append(f"{n}: unsupported: {r.get('what')}")
            if r.get("type") == "unknown":
                problems.append(f"{n}: solver gave no verdict for: {r.get('msg')}")
        if s.get("assert_unknown"):
            problems.append(f"{n}: {s['assert_unknown']} assertions without a verdict")
        if not s.get("paths_ok") and not viol:
            problems.append(f"{n}: no path completed (vacuous)")
        if s.get("asserts", 0) == 0 and not viol:
            problems.append(f"{n}: no assertion reached (vacuous)")
        if not s.get("feasible_path_models") and not viol:
            problems.append(f"{n}: no completed path shown feasible (vacuous)")
        ok, log = nat[src].result()
        natbin = os.path.join(work, os.path.basename(src)[:-4] + ".native")
        if not ok:
            problems.append("native build failed: " + log[-1500:])
        ompflag = "-fopenmp" in info["flags"]
        # encoding validation: replay sampled paths on the native build and compare the asserted values
        for r in [r for r in recs if r.get("type") == "sample"]:
            if len(samples) < 4:
                samples.append({"entry": n, "inputs": r["inputs"], "values": r["values"][:6]})
            if not ok:
                continue
            rp = os.path.join(work, "sample.%s.txt" % n)
            write_replay(rp, prop, n, r)
            q = runq([natbin, n, rp, "validate"], 120)
            if q is None:
                notes.append(f"{n}: native sample run timed out")
                continue
            failed = re.findall(r"^FAILED: (.*)$", q.stdout, re.M)
            if q.returncode == 1 and failed and all(iskn({"entry": n, "kind": "assert", "msg": m}) for m in failed):
                pass  # shows the known finding
            elif q.returncode != 0:
                notes.append(f"{n}: native run of a sampled path ends with {q.returncode}: {q.stdout[-300:]}")
                continue
            got = re.findall(r"^value (\d+) (\S+) (\S+) ", q.stdout, re.M)
            bad = 0
            for (i, a, b), (m, x, y) in zip(got, r["values"]):
                for u, w in ((float(a), x), (float(b), y)):
                    if u == u and w is not None and abs(u - w) > 1e-6 * (1 + abs(u) + abs(w)):
                        bad += 1
            if bad:
                notes.append(f"{n}: {bad} values differ between the encoding and the native run")
            else:
                validated += 1
        # one counterexample per kind of violation; if the native run does not show it (rounding), up to four more
        seen, tries = set(), {}
        for r in viol:
            key = (r["kind"], r["where"][:60] if r["kind"] == "race" else r["msg"].split(" (")[0])
            if key in seen or len(tries.get(key, [])) >= 5:
                continue
            h = hashlib.sha1(json.dumps([n, r["kind"], r["msg"], r["inputs"]]).encode()).hexdigest()[:10]
            rp = os.path.join(replays, f"{prop}-{n}-{h}.txt")
            write_replay(rp, prop, n, r)
            c, how = confirm(prop, src, n, r, rp, natbin if ok else None, work, compile_native, ompflag)
            rec = (n, r, rp, how)
            if iskn(r):
                if c:
                    knownhits.append(rec)
                else:
                    problems.append(f"{n}: known finding not reproduced natively ({how})")
            elif c:
                confirmed.append(rec)
            else:
                tries.setdefault(key, []).append(rec)
                continue
            seen.add(key)
        for key in tries:
            if key not in seen:
                unconfirmed += tries[key][:1]
    for k in known:
        if k["property"] == prop and k["entry"] in [j[3] for j in jobs] and not any(x[0] == k["entry"] for x in knownhits) and not confirmed:
            notes.append(f"known finding {k['entry']} no longer occurs")
    for n, r, rp, how in knownhits:
        print(f"KNOWN-FINDING: property={prop} {n}: {r['kind']}: {r['msg']} (confirmed: {how})")
    for n, r, rp, how in confirmed:
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {n}: {r['kind']}: {r['msg']}\n  at {r.get('where')}\n  inputs {json.dumps(r['inputs'])[:800]}\n  confirmed on the native build: {how}")
    for n, r, rp, how in unconfirmed:
        problems.append(f"{n}: symbolic counterexample not reproduced natively ({how}): {r['kind']}: {r['msg']} at {r.get('where')} inputs {json.dumps(r['inputs'])[:600]}")
    for x in notes:
        print("note: " + x)
    if any("differ between the encoding" in x or "native run of a sampled path" in x for x in notes) and not confirmed:
        problems.append("encoding validation failed (see notes)")
    for x in problems:
        print("NO-ANSWER: " + x[:400])
    wall = time.time() - t0
    bounds = [b for i in infos for b in i["bounds"]]
    outside = [b for i in infos for b in i["outside"]]
    assume = [b for i in infos for b in i["assume"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the LLVM IR that clang produces from /repo's current headers (engine: /verif/engine). Every path within the bounds "
                           "is executed with symbolic inputs; each assertion is decided by z3 for all values within the bounds (doubles as exact reals, integers as bit-vectors).",
            "functions_encoded": sorted(funcs)[:400], "functions_encoded_count": len(funcs),
            "bounds": bounds, "outside_the_bounds": outside,
            "entries": per_entry,
            "paths": int(tot.get("paths_ok", 0) + tot.get("paths_throw", 0)),
            "paths_infeasible": int(tot.get("paths_infeasible", 0)),
            "instructions_interpreted": int(tot.get("instructions", 0)),
            "queries": {"sat": int(tot.get("q_sat", 0)), "unsat": int(tot.get("q_unsat", 0)), "unknown": int(tot.get("q_unknown", 0))},
            "solver_s": round(tot.get("solver_s", 0), 3),
            "obligations": int(tot.get("asserts", 0)),
            "obligations_concrete_on_their_path": int(tot.get("asserts_concrete", 0)),
            "discharged": int(tot.get("discharged", 0) + tot.get("asserts_concrete", 0)),
            "discharged_by_solver": int(tot.get("discharged", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "problems": problems, "notes": notes,
            "known_findings_seen": [f"{n}: {r['msg']}" for n, r, _, _ in knownhits],
        },
        "assumptions": COMMON + assume,
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(jobs)} entries, {ev['coverage']['paths']} paths, {ev['coverage']['obligations']} obligations, "
          f"{ev['coverage']['discharged']} discharged, solver {ev['coverage']['solver_s']} s, validated {validated}, wall {wall:.1f} s")
    if only:
        for p in per_entry:
            print(json.dumps(p))
    if confirmed:
        return 1
    if problems:
        return 2
    return 0


COMMON = [
    "floating-point arithmetic is interpreted as exact real arithmetic (equalities are asserted up to 1e-9)",
    "clang -O1 lowering of the headers (xsimd off, Eigen vectorisation off); allocation never fails",
    "the symbolic executor and z3 are trusted; sampled paths are replayed natively and compared",
]


def write_replay(path, prop, n, r):
    with open(path, "w") as f:
        f.write(f"property {prop}\nentry {n}\nkind {r.get('kind', 'sample')}\nmsg {r.get('msg', '')}\nwhere {r.get('where', '')}\n")
        for k, v in r["inputs"].items():
            f.write(f"input {k} {v}\n")
        f.write(f"# replay: clang++ <flags of check.py> harness/{prop}.cpp harness/native.cpp -rdynamic -o t && ./t {n} {path}\n")


def runq(cmd, timeout, env=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        return sh(cmd, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None


def confirm(prop, src, n, r, rp, natbin, work, compile_native, omp):
    kind = r["kind"]
    if natbin is None:
        return False, "no native build"
    if kind == "race":
        return confirm_race(src, n, rp, work, kind)
    if omp:
        c, how = confirm_race(src, n, rp, work, kind)
        if c:
            return c, how
    if kind in ("assert", "throw", "abort"):
        q = runq([natbin, n, rp], 120)
        if q is None:
            return (kind == "abort"), "native run does not end"
        if kind == "assert" and q.returncode == 1:
            return True, "assertion fails natively"
        if kind == "throw" and q.returncode in (1, 3):
            return True, "native run: " + q.stdout.strip().split("\n")[-1][:200]
        if q.returncode < 0 or q.returncode in (134, 139):
            return True, f"native run is killed by signal {q.returncode}"
        last = f"native run ends with {q.returncode}"
        if kind == "assert" and "uninit" not in r["msg"] and q.returncode in (0, 77, 3):
            # an assertion that depends on indeterminate memory: fall through to memcheck
            pass
    else:
        last = ""
    env = {}
    vg = runq(["valgrind", "-q", "--error-exitcode=99", "--track-origins=no", natbin, n, rp], 400)
    if vg is not None and (vg.returncode == 99 or vg.returncode < 0):
        m = re.search(r"==\d+== (Invalid \w+ of size \d+|Conditional jump[^\n]*|Use of uninit[^\n]*|Process terminating[^\n]*|Invalid free[^\n]*|Mismatched[^\n]*|Argument[^\n]*)", vg.stdout)
        return True, "valgrind memcheck: " + (m.group(1) if m else "error")
    asan = natbin + ".asan"
    if not os.path.exists(asan):
        compile_native(src, ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"], asan)
    q = runq([asan, n, rp], 300, {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"})
    if q is not None and q.returncode not in (0, 77) and ("Sanitizer" in q.stdout or "runtime error" in q.stdout):
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", q.stdout)
        return True, m.group(1)[:200] if m else "sanitizer error"
    if q is not None and q.returncode in (1,) and kind == "assert":
        return True, "assertion fails in the sanitized native build"
    return False, last or "memcheck and sanitizers are silent"


def race_build(src, work):
    """Native build on stand-ins for the OpenMP and thread-sanitizer runtimes (harness/native_race.cpp)."""
    out = os.path.join(work, os.path.basename(src)[:-4] + ".race")
    if not os.path.exists(out):
        r = sh(["clang++"] + BASE + ["-DTHOROUGH=0", "-fopenmp", "-O1", "-g1", "-ffp-contract=off", "-fsanitize=thread", "-c", src, "-o", out + ".o"])
        if r.returncode == 0:
            r = sh(["clang++"] + BASE + ["-O1", out + ".o", os.path.join(V, "harness/native.cpp"), os.path.join(V, "harness/native_race.cpp"), "-rdynamic", "-ldl", "-o", out])
        if r.returncode:
            return None, "race build failed: " + r.stdout[-500:]
    return out, ""


def confirm_race(src, n, rp, work, kind):
    out, how = race_build(src, work)
    if out is None:
        return False, how
    q = runq([out, n, rp], 300)
    if kind != "race":
        if q is not None and (q.returncode in (1, 3, 134) or q.returncode < 0):
            return True, "native run with the same division of the iterations ends with %d" % q.returncode
        return False, "native run with the same division of the iterations passes"
    if q is not None and "RACE" in q.stdout:
        return True, re.search(r"RACE[^\n]*", q.stdout).group(0)
    return False, "no conflicting accesses seen natively"


def load_known():
    res = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) kind=(\S+) msg="([^"]*)"', line)
            if m:
                res.append({"property": m.group(1), "entry": m.group(2), "kind": m.group(3), "msg": m.group(4)})
    return res


if __name__ == "__main__":
    sys.exit(main())
