#!/usr/bin/env python3
"""Driver: builds the instrumented code from /repo's working tree, explores it symbolically,
replays counterexamples on the real (uninstrumented) build and writes the evidence."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NK_REPO", "/repo")
SRC = REPO + "/lib/nikfemm/src"
PYZ3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX, GXX = "/usr/bin/clang++-18", "/usr/bin/g++"
BUILD = os.environ.get("NK_BUILD", V + "/build")
sys.path.insert(0, V)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

INC = ["-I" + SRC, "-I" + REPO + "/lib/nikfemm/include", "-I" + V + "/engine", "-I" + V + "/harness", "-I" + REPO]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Broken(Exception):
    pass


def must(cmd):
    p = sh(cmd)
    if p.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[:1500]))
    return p.stdout


def engine():
    """pass plugin and runtimes; rebuilt when their sources change"""
    d = BUILD + "/engine"
    os.makedirs(d, exist_ok=True)
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256(b"".join(open(f, "rb").read() for f in sorted(glob.glob(V + "/engine/*")))).hexdigest()
        st = d + "/stamp"
        if os.path.exists(st) and open(st).read() == h:
            return d
        flags = must(["/usr/bin/llvm-config-18", "--cxxflags"]).replace("-fno-exceptions", "").split()
        jobs = [
            [CXX, "-O1", "-fPIC", "-shared"] + flags + ["-o", d + "/nkpass.so", V + "/engine/pass.cpp"],
            [GXX, "-std=c++20", "-O2", "-c", "-I" + PYZ3 + "/include", "-I" + V + "/engine", V + "/engine/rt_sym.cpp", "-o", d + "/rt_sym.o"],
            [GXX, "-std=c++20", "-O1", "-c", "-I" + V + "/engine", V + "/engine/rt_replay.cpp", "-o", d + "/rt_replay.o"],
        ]
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(must, jobs))
        open(st, "w").write(h)
    return d


def units(c):
    """translation units of the library (the vendored mesher is an environment stub)"""
    fs = []
    for r, ds, ns in os.walk(SRC):
        ds.sort()
        if os.path.basename(r) == "triangle":
            continue
        fs += [os.path.join(r, n) for n in sorted(ns) if n.endswith((".cpp", ".cc", ".cxx"))]
    return fs


def objname(d, f):
    return d + "/" + re.sub(r"[^A-Za-z0-9_.]", "_", os.path.relpath(f, "/")) + ".o"


def compile_all(c, pid, kind):
    """kind: sym, native, asan -> executable"""
    d = "%s/%s/%s" % (BUILD, pid, kind)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fs = units(c) + [V + "/harness/" + h for h in c["harness"]] + [V + "/engine/tri_stub.cpp"]
    defs = ["-D" + x for x in c.get("defines", [])]
    inc = INC + c.get("inc", [])
    if kind == "sym":
        e = engine()
        base = [CXX, "-std=c++20", "-O1", "-g1", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize", "-fPIC", "-w", "-DNK_SYM",
                "-fpass-plugin=" + e + "/nkpass.so"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if c.get("asan") else [])
        link = [CXX] + (["-fsanitize=address"] if c.get("asan") else [])
        rt = [e + "/rt_sym.o"]
        libs = ["-L" + PYZ3 + "/lib", "-lz3", "-Wl,-rpath," + PYZ3 + "/lib", "-lgmpxx", "-lgmp"]
    elif kind == "native":
        e = engine()
        base = [GXX, "-std=c++20", "-O3", "-mavx", "-fPIC", "-w"]
        link, rt, libs = [GXX], [e + "/rt_replay.o"], []
    else:
        e = engine()
        base = [CXX, "-std=c++20", "-O1", "-g", "-ffp-contract=off", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                "-fno-sanitize=float-divide-by-zero,vptr,float-cast-overflow"]
        link, rt, libs = [CXX, "-fsanitize=address,undefined"], [e + "/rt_replay.o"], []
    jobs = [base + defs + inc + ["-c", f, "-o", objname(d, f)] for f in fs]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(must, jobs))
    exe = d + "/harness"
    must(link + ["-o", exe] + [objname(d, f) for f in fs] + rt + c.get("libs", []) + libs)
    return exe


def replay_run(exe, cex, tier, verbose=False):
    env = dict(os.environ, VERIF_TIER=tier, ASAN_OPTIONS="detect_leaks=0:exitcode=77:symbolize=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=0")
    if verbose:
        env["NK_TRACE"] = "1"
    try:
        p = subprocess.run([exe, cex], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60, preexec_fn=None if "asan" in exe else lambda: resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30)))
        out, rc = p.stdout.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace"), 124
    fails = re.findall(r"^CHECK FAIL (.*?) :: ", out, re.M)
    if rc == 70:
        fails.append("uncaught_exception")
    elif rc == 77:
        fails.append("memory_error")
    elif rc == 124:
        fails.append("timeout")
    elif rc < 0:
        fails.append("signal_%d" % -rc)
    ok = rc == 0 and "REPLAY checks=" in out
    return fails, ok, rc, out


def known(pid):
    f = V + "/known_findings.json"
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid and k.get("status") == "known"]


def parse_stats(f):
    st, labels, fns = {}, {}, []
    for line in open(f):
        t = line.rstrip("\n").split("\t")
        if t[0] == "LABEL":
            labels[t[1]] = dict(zip(["reach", "ok", "ident", "small", "fail", "unknown"], map(int, t[2:])))
        elif t[0] == "FN":
            fns.append(t[1])
        else:
            k, v = line.split()
            st[k] = int(v)
    if fns:
        fns = sorted(set(sh(["c++filt"], input="\n".join(fns)).stdout.split("\n")) - {""})
    return st, labels, fns


def check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = "%s/%s/out" % (BUILD, pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(V + "/evidence", exist_ok=True)
    engine()
    with cf.ThreadPoolExecutor(2) as ex:
        fs, fn = ex.submit(compile_all, c, pid, "sym"), ex.submit(compile_all, c, pid, "native")
        exe, nat = fs.result(), fn.result()
    tb = time.time() - t0
    budget = c.get("budget", (90, 900))[0 if tier == "quick" else 1]
    env = dict(os.environ, NK_OUT=out, NK_BUDGET=str(budget), VERIF_TIER=tier, VERIF_SEED=str(seed), NK_WORKERS=str(c.get("workers", 8)),
               ASAN_OPTIONS="detect_leaks=0:symbolize=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
    env.update(c.get("env", {}))
    if tier == "thorough":
        env.setdefault("NK_XCHK", "1")
        env.update(c.get("env_thorough", {}))
    p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(out + "/stats.txt"):
        raise Broken("no statistics: " + p.stdout.decode("utf8", "replace")[-2000:])
    st, labels, fns = parse_stats(out + "/stats.txt")

    # replay
    kn = known(pid)
    violations, seen_known, unconf, conf = [], {}, 0, 0
    asan = None
    cexs = sorted(glob.glob(out + "/cex_*.txt"))
    order, per = [], {}
    for f in cexs:
        l = open(f).readline().strip()
        per.setdefault(l, []).append(f)
    while any(per.values()):
        for l in list(per):
            if per[l]:
                order.append(per[l].pop(0))
    done_labels = {}
    for f in order[:200]:
        txt = open(f).read()
        lab = txt.split("\n")[0][2:]
        if done_labels.get(lab, 0) >= (1 if lab == "timeout" else 2):
            continue
        fails, ok, rc, o = replay_run(nat, f, tier)
        if not fails and rc != 4 and lab != "timeout":
            if asan is None:
                asan = compile_all(c, pid, "asan")
            if "\nK crash" in txt or c.get("asan_replay"):
                fails, ok, rc, o = replay_run(asan, f, tier)
        if not fails:
            unconf += 1
            continue
        conf += 1
        new = [x for x in fails if not any(re.fullmatch(k["label"], x) for k in kn)]
        for x in fails:
            for k in kn:
                if re.fullmatch(k["label"], x):
                    seen_known[k["what"]] = x
        if new:
            done_labels[lab] = done_labels.get(lab, 0) + 1
            dst = "%s/evidence/%s_%s.cex.txt" % (V, pid, os.path.basename(f)[4:9])
            shutil.copy(f, dst)
            violations.append((dst, sorted(set(new)), o))
    # sample paths of the exploration, run on the real build
    validated = mism = 0
    samples = []
    mislab = {}
    for f in sorted(glob.glob(out + "/sample_*.txt")):
        fails, ok, rc, o = replay_run(nat, f, tier)
        fails = [x for x in fails if not any(re.fullmatch(k["label"], x) for k in kn)]
        if ok or (rc == 1 and not fails):
            validated += 1
        elif rc != 4 and not violations:
            mism += 1
            mislab[os.path.basename(f)] = fails[:5] or ["rc=%d" % rc]
        if len(samples) < 3:
            samples.append(" ".join(open(f).read().split("\n")[2:])[:600])
    tot = {k: sum(l[k] for l in labels.values()) for k in ["reach", "ok", "ident", "small", "fail", "unknown"]}
    vac = [e for e in c["expect"] if not any(re.fullmatch(e, n) and l["reach"] for n, l in labels.items())]
    complete = not (st["cut"] or tot["unknown"] or st["killed"] or st["lblover"])
    cov = {
        "states": st["paths"], "transitions": st["branches"], "traces_validated_against_impl": validated,
        "samples": samples or ["no path finished"],
        "obligations": tot["reach"], "discharged": tot["ok"],
        "discharged_by_normal_form": tot["ident"], "discharged_within_1e-9_scale": tot["small"],
        "undecided": tot["unknown"], "paths_cut": st["cut"], "paths_dropped_by_assumption": st["dropped"],
        "branch_queries": st["q_branch"], "obligation_queries": st["q_oblig"],
        "queries_sat": st["q_sat"], "queries_unsat": st["q_unsat"], "queries_unknown": st["q_unknown"],
        "cross_checked_queries": st["xq"], "cross_check_agree": st["xagree"], "cross_check_disagree": st["xdis"],
        "solver_s": st["solver_ms"] / 1000.0, "symbolic_operations": st["ops"], "largest_polynomial_terms": st["maxterms"],
        "encoder_self_checks": st["shadow_ok"], "encoder_self_check_failures": st["shadow_bad"],
        "counterexamples": len(cexs), "counterexamples_confirmed_on_real_build": conf, "counterexamples_not_reproduced": unconf,
        "sample_paths_not_matching_real_build": mism, "sample_mismatch_labels": mislab,
        "labels": {n: l for n, l in sorted(labels.items())[:80]},
        "functions_encoded": [f for f in fns][:200], "bounds": c["bounds"],
        "complete_within_bounds": complete, "build_s": round(tb, 1),
        "explanation": "Symbolic execution of the compiled functions (LLVM IR regenerated from /repo on this run); branch feasibility and obligations decided by z3 over all real values within the bounds.",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": COMMON_ASSUMPTIONS + c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for what, l in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s %s: %d paths, %d obligations, %d discharged, %d undecided, %d cut, %d cex (%d confirmed), solver %.1fs, wall %.1fs%s" % (
        pid, tier, st["paths"], tot["reach"], tot["ok"], tot["unknown"], st["cut"], len(cexs), conf, st["solver_ms"] / 1000, time.time() - t0,
        "" if complete else " [exploration not complete: see evidence]"))
    if os.environ.get("NK_KEEP") is None:
        for k in ("sym", "native", "asan"):
            if not (violations and k != "sym"):
                shutil.rmtree("%s/%s/%s" % (BUILD, pid, k), ignore_errors=True)
    if violations:
        for dst, ls, o in violations[:10]:
            print("  failing: %s" % ", ".join(ls)[:300])
            print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if vac:
        print("BROKEN: expected obligations never reached: %s" % vac)
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        print(engine())
        return 0
    if a and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        try:
            return check(a[1], tier)
        except Broken as e:
            print("BROKEN: %s" % e)
            return 2
    if a and a[0] == "replay":
        c = CHECKS[a[1]]
        rc = 0
        for kind in ("native", "asan"):
            fails, ok, rc, o = replay_run(compile_all(c, a[1], kind), a[2], os.environ.get("VERIF_TIER", "quick"), True)
            print("== %s: rc=%d failing: %s" % (kind, rc, fails))
            print(o[-6000:])
        return 0
    print("usage: run.py setup | check ID [--tier quick|thorough] | replay ID FILE")
    return 2


if __name__ == "__main__":
    sys.exit(main())
