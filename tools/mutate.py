#!/usr/bin/env python3
"""Mutation sweep: which small changes of the library does no check notice?
usage: mutate.py OUT.jsonl PER_FUNCTION SEED [file regex] — works in /tmp/mut on copies; needs the evidence of a run of every check"""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES = 3
OPS = [
    (r"(?<![<>=!-])<(?![<=a-zA-Z])", ["<=", ">"]), (r"<=", ["<"]), (r"(?<![->])>(?![>=(&*;,)])", [">=", "<"]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
    (r"\bp1\b", ["p2"]), (r"\bp2\b", ["p1"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["3"]), (r"\b3\b", ["2"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"!(?=[a-zA-Z(])", [""]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
    (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"\b0\.\d+\b", ["0.77"]), (r"\[i\]", ["[0]"]), (r"sin\(", ["cos("]), (r"cos\(", ["sin("]),
]
def functions():
    m = {}
    for f in glob.glob(V + "/evidence/*.json"):
        e = json.load(open(f))
        for n in e["coverage"]["functions_encoded"]:
            for t in re.findall(r"([A-Za-z_]\w*(?:<[^()]*>)?(?:::~?[A-Za-z_]\w*|::operator[^ (]+)+)\(", n) + re.findall(r"::([A-Za-z_]\w*)\(", n):
                m.setdefault(re.sub(r"<[^>]*>", "", t).split("::")[-1], {}).setdefault(e["property"], len(e["coverage"]["functions_encoded"]))
    return m
def candidates(rel, text):
    cur, out, depth = None, [], 0
    for n, l in enumerate(text.split("\n")):
        g = re.match(r"^ {0,8}(?:[\w:<>,&* ]+ )?&?(?:(\w+)(?:<\w+>)?::)?(~?\w+|operator.{1,3})\(.*\)(?: const)?(?: :.*)? ?\{", l)
        if g and not re.match(r"\s*(if|for|while|switch|else|return)\b", l):
            if g.group(2) not in ("sort", "isnan", "transform", "count_if", "max", "min") and not (g.group(2) == "distance" and "vector" not in rel):
                cur = g.group(2)
            continue
        s = l.strip()
        if not cur or s.startswith(("//", "#", "nlog", "*", "printf", "std::cout", "nexit", "nassert", "throw", "auto start", "auto end", "template")) or not s:
            continue
        c = l.split("//")[0]
        for pat, reps in OPS:
            for k in re.finditer(pat, c):
                if c[:k.start()].count('"') % 2:
                    continue
                for r in reps:
                    out.append((rel, n, cur, c[:k.start()] + r + c[k.end():]))
        if re.match(r"^\s*[\w\.\[\]>\-:\(\)\*]+ ?(=|\+=|-=)[^=].*;$", c) or re.match(r"^\s*[\w\.\->:]+\([^{}]*\);$", c):
            out.append((rel, n, cur, re.match(r"\s*", c).group() + ";"))
    return out
CACHE = "/tmp/mut/cache"
def main():
    out, per, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
    random.seed(seed)
    fm = functions()
    R = "/repo/lib/nikfemm/src/"
    groups = {}
    for f in sorted(glob.glob(R + "**/*.?pp", recursive=True)):
        rel = os.path.relpath(f, R)
        if rel.startswith("triangle/") or not rx.search(rel):
            continue
        for c in candidates(rel, open(f).read()):
            groups.setdefault((rel, c[2]), []).append(c)
    todo = []
    for g, cs in sorted(groups.items()):
        checks = sorted(fm.get(g[1], {}).items(), key=lambda t: t[1])
        k = min(len(cs), max(1, round(per * min(3, len(cs) / 12.0))))
        for c in random.sample(cs, k):
            todo.append((c, [x[0] for x in checks]))
    random.shuffle(todo)
    print(len(todo), "mutants;", len([t for t in todo if not t[1]]), "in functions no check encodes")
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()
    fo = open(out, "a")
    def lane(i):
        d = "/tmp/mut/lane%d" % i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/repo"])
        for x in ("engine", "harness", "tools", "run.py", "checks.py", "known_findings.json"):
            (shutil.copytree if os.path.isdir(V + "/" + x) else shutil.copy)(V + "/" + x, d + "/" + x)
        while True:
            try:
                (rel, n, fn, new), checks = q.get_nowait()
            except queue.Empty:
                return
            p = d + "/repo/lib/nikfemm/src/" + rel
            src = open(p).read()
            ls = src.split("\n")
            old, ls[n] = ls[n], new
            open(p, "w").write("\n".join(ls))
            res = {"file": rel, "line": n + 1, "fn": fn, "old": old.strip(), "new": new.strip(), "checks": {}, "verdict": "survived"}
            try:
                for c in checks[:7]:
                    r = subprocess.run([sys.executable, d + "/tools/mutate.py", "--run", c], env=dict(os.environ, NK_REPO=d + "/repo", NK_BUILD=d + "/build"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                    res["checks"][c] = r.returncode
                    if r.returncode == 1:
                        res["verdict"] = "caught"
                        break
                    if "command failed" in r.stdout:
                        res["verdict"] = "does not compile"
                        break
                    if r.returncode != 0:
                        res["verdict"] = "broken"
                        res["out"] = r.stdout[-600:]
                    elif "not complete" in r.stdout:
                        res["incomplete"] = c
            except subprocess.TimeoutExpired:
                res["verdict"] = "timeout"
            finally:
                open(p, "w").write(src)
            with lock:
                fo.write(json.dumps(res) + "\n")
                fo.flush()
    ts = [threading.Thread(target=lane, args=(i,)) for i in range(LANES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
def one(c):
    sys.path.insert(0, V)
    import run
    os.makedirs(CACHE, exist_ok=True)
    real = run.must
    def must(cmd):
        if "-c" not in cmd or "rt_" in " ".join(cmd[-3:]):
            return real(cmd)
        o = cmd[cmd.index("-o") + 1]
        pre = [x for x in cmd if not x.startswith("-fpass-plugin") and x not in ("-c", "-o", o)] + ["-MM"]
        dk = CACHE + "/" + hashlib.sha256(re.sub(r"/tmp/mut/lane\d", "L", " ".join(pre)).encode()).hexdigest() + ".dep"
        if not os.path.exists(dk):
            t = subprocess.run(pre, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            if t.returncode:
                return real(cmd)
            open(dk + ".%d" % os.getpid(), "w").write("\n".join(sorted({re.sub(r"/tmp/mut/lane\d", "L", os.path.normpath(x)) for x in t.stdout.split(":", 1)[1].replace("\\\n", " ").split()})))
            os.rename(dk + ".%d" % os.getpid(), dk)
        me = re.match(r"/tmp/mut/lane\d", V).group()
        g = hashlib.sha256(" ".join(re.sub(r"/tmp/mut/lane\d", "L", x) for x in cmd).encode())
        for x in open(dk).read().split("\n"):
            g.update(open(x.replace("L/", me + "/", 1) if x.startswith("L/") else x, "rb").read())
        h = CACHE + "/" + g.hexdigest() + ".o"
        if os.path.exists(h):
            shutil.copy(h, o)
            return ""
        r = real(cmd)
        shutil.copy(o, h + ".%d" % os.getpid())
        os.rename(h + ".%d" % os.getpid(), h)
        return r
    run.must = must
    whole = run.compile_all
    run.compile_all = lambda c, pid, kind: whole(c, pid, kind) if kind == "sym" else "none"      # no replay: a counterexample counts
    run.replay_run = lambda *a, **k: (["counterexample"], False, 1, "")
    run.CHECKS[c]["workers"] = 4
    try:
        return run.check(c, "quick")
    except run.Broken as e:
        print("BROKEN: %s" % e)
        return 2
if __name__ == "__main__":
    sys.exit(one(sys.argv[2]) if sys.argv[1] == "--run" else main())
