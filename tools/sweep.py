#!/usr/bin/env python3
"""sweep.py OUT [N workers] [FILE substring]: mutate every line of /repo's source in scratch copies and record which mutants the analysis flags.
Development aid only: no check depends on it."""
import sys, os, re, json, subprocess, random, time, multiprocessing as mp
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/analysis"); sys.setrecursionlimit(20000)
BASE = os.environ.get("SWEEP", "/tmp/sweep")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r" \*= ", " += "),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"I::zero\(\)", "I::one()"), (r"T::zero\(\)", "T::one()"),
       (r"\.\.=", ".."), (r"(?<=[\w)\]])\.\.(?=[\w(])", "..="), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"return ", "let _ = "),
       (r"\brows\b", "cols"), (r"\bcols\b", "rows"), (r"\browidx\b", "colidx"), (r"\bcolidx\b", "rowidx"), (r"\ba_x\b", "b_x"), (r"\bb_x\b", "a_x"), (r"\ba_j\b", "b_j"), (r"\bb_j\b", "a_j"), (r"\ba_p\b", "b_p"), (r"\bb_p\b", "a_p"),
       (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\bn_row\b", "n_col"), (r"\bn_col\b", "n_row"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\ba_mat\b", "b_mat"), (r"\bb_mat\b", "a_mat"), (r"\bself\b", "rhs"), (r"\brhs\b", "self"), (r"\bself\b", "x"), (r"\bx\b(?!\))", "self"),
       (r"Void", "End"), (r"\bEnd\b", "Void"), (r"Some\((\w+)\)", "None"), (r"\bmin\(", "std::cmp::max("), (r"conj\(\)", "clone()"), (r"\.abs\(\)", ""), (r"\bre\b", "im"), (r"\bim\b", "re"), (r"push\('\\n'\)", "push(' ')"), (r"indptr1", "indptr2"), (r"indices2", "indices1"), (r"!", "")]
def mutants(sub):
    files = subprocess.check_output("git ls-files src", shell=True, cwd="/repo", text=True).split()
    out = []
    for f in files:
        if "test" in f or sub and sub not in f: continue
        L = open("/repo/" + f).read().split("\n"); depth = 0; com = False
        for n, l in enumerate(L):
            if "#[cfg(test)]" in l: break
            s = l.strip()
            if s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("pub fn") or s.startswith("fn ") or s.startswith("impl") or not s: continue
            code = l.split("//")[0]
            if "format_err" in l or s.startswith('"'): continue
            for a, b in OPS:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + b + code[m.end():]
                    if new != code: out.append((f, n, l, new))
            if s.endswith(";") and not s.startswith("let") and not s.startswith("static") and not s.startswith("const") and ("=" in s or "(" in s): out.append((f, n, l, ""))
    seen = set(); res = []
    for x in out:
        k = (x[0], x[1], x[3])
        if k not in seen: seen.add(k); res.append(x)
    return res
def analyse(mir, f, line):
    import importlib
    from judge import Tree
    from mirlib import Mir
    import specs, check, rules, narrow, runner, targets
    m = Mir(mir); T = Tree(m); S = list(specs.load(m))
    g = runner.reach(m)
    tgt = set()
    for fn in m.list:
        p = re.match(r"(.*):(\d+)", fn["loc"])
        if p and p.group(1).endswith(f): tgt.add((int(p.group(2)), fn["id"]))
    c = [x for x in tgt if x[0] <= line + 1]
    hit = {x[1] for x in c if x[0] == max(y[0] for y in c)} if c else set()
    rel = []
    for sp in S:
        fs = T.idx.get(sp.label)
        if fs is None or len(fs) <= sp.which: return "absent " + sp.label, {}
        cl = runner.closure(g, [fs[sp.which]["id"]])
        if not hit or hit & cl: rel.append((0 if fs[sp.which]["id"] in hit else len(cl), sp))
    rel.sort(key=lambda x: x[0])
    und = {}
    def go(sps, fnn):
        for sp in sps:
            st = {}
            try: r = fnn(T, sp, st)
            except Exception as e: und[sp.label] = "%s %s" % (type(e).__name__, str(e)[:80]); continue
            for k, v in st.get("fn", {}).items():
                if v["undecided"]: und[k] = str(v["why"])[:100]
            if r: return r[0]
    r = go([s for _, s in rel], check.run_spec)
    if r: return repr(r)[:300], und
    labs = {s.label for _, s in rel}
    r = go([s for s in narrow.narrow(T, S) if s.label in labs], check.run_spec)
    if r: return "C20 " + repr(r)[:300], und
    for pid in ("C11", "C19", "C15", "C23", "C20", "C17"):
        for ru in rules.for_property(pid):
            try: res = ru(T, g)
            except Exception as e: und["rule " + ru.__name__] = str(e)[:80]; continue
            if res.findings: return "rule " + repr(res.findings[0])[:300], und
    return None, und
def worker(k, q, out):
    W = "%s/w%d" % (BASE, k)
    if not os.path.isdir(W): subprocess.check_call("git clone -q /repo %s" % W, shell=True)
    subprocess.check_call("git checkout -q . && git fetch -q && git checkout -q origin/HEAD && cp /repo/Cargo.lock .", shell=True, cwd=W)
    while True:
        j = q.get()
        if j is None: return
        f, n, old, new = j
        p = W + "/" + f; src = open(p).read(); L = src.split("\n")
        if L[n] != old: continue
        L[n] = new; open(p, "w").write("\n".join(L))
        t = time.time(); res = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
        try:
            r = subprocess.run([ROOT + "/tools/dump.sh", "%s/m%d.json" % (BASE, k), W, "%s/t%d" % (BASE, k)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            if r.returncode: res["st"] = "nocompile"
            else:
                pr = subprocess.run([sys.executable, __file__, "--one", "%s/m%d.json" % (BASE, k), f, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
                try: a, und = json.loads(pr.stdout.strip().split("\n")[-1])
                except Exception: a, und = None, {"crash": pr.stderr[-200:]}
                res["st"] = "caught" if a else "survived"; res["what"] = a; res["und"] = und
        except subprocess.TimeoutExpired: res["st"] = "timeout"
        open(p, "w").write(src); res["t"] = round(time.time() - t, 1)
        out.put(res)
def main():
    if sys.argv[1] == "--one":
        print(json.dumps(analyse(sys.argv[2], sys.argv[3], int(sys.argv[4])))); return
    os.makedirs(BASE, exist_ok=True)
    nw = int(sys.argv[2]) if len(sys.argv) > 2 else 6; sub = sys.argv[3] if len(sys.argv) > 3 else None
    ms = mutants(sub); random.Random(1).shuffle(ms); print(len(ms), flush=True)
    if os.environ.get("RETEST"):      # only the mutants another run did not flag
        k = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(os.environ["RETEST"])) if d["st"] in ("survived", "timeout")}
        ms = [x for x in ms if (x[0], x[1] + 1, x[3].strip()) in k]; print(len(ms), flush=True)
    done = set()
    if os.path.exists(sys.argv[1]):
        for l in open(sys.argv[1]): d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    ms = [x for x in ms if (x[0], x[1] + 1, x[3].strip()) not in done]
    q, o = mp.Queue(), mp.Queue()
    for x in ms: q.put(x)
    for _ in range(nw): q.put(None)
    ps = [mp.Process(target=worker, args=(k, q, o)) for k in range(nw)]
    for p in ps: p.start()
    n = 0
    with open(sys.argv[1], "a") as fh:
        while any(p.is_alive() for p in ps) or not o.empty():
            try: r = o.get(timeout=5)
            except Exception: continue
            fh.write(json.dumps(r) + "\n"); fh.flush()
if __name__ == "__main__": main()
