#!/usr/bin/env python3
"""refac.py FILE.py [ID...]: apply behaviour-preserving edits in a scratch copy, run the tests, then every obligation and rule; report alarms and undecided parts.
FILE.py defines REFS: list of (id, [(file, old, new)...]).  Development aid only."""
import sys, os, json, subprocess, importlib.util, multiprocessing as mp, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/analysis"); sys.setrecursionlimit(20000)
BASE = os.environ.get("REFAC", "/tmp/refac")
def names(edits):
    """names of the functions the edits touch"""
    import re
    out = set()
    for f, old, new in edits:
        src = open("/repo/" + f).read(); at = src.find(old)
        before = re.findall(r"\bfn (\w+)", src[:at]); out |= set(re.findall(r"\bfn (\w+)", old)) | set(re.findall(r"\bfn (\w+)", new)) | set(before[-1:])
    return out
def analyse(mir, touched=()):
    from judge import Tree
    from mirlib import Mir
    import specs, check, rules, narrow, runner
    m = Mir(mir); T = Tree(m); S = list(specs.load(m)); g = runner.reach(m)
    found, und = [], {}
    def go(sps, fnn, pre=""):
        for sp in sps:
            st = {}
            try: r = fnn(T, sp, st)
            except Exception as e: und[pre + sp.label] = "EXC %s %s" % (type(e).__name__, str(e)[:90]); continue
            for k, v in st.get("fn", {}).items():
                if v["undecided"]: und[pre + k] = str(v["why"])[:110]
            for f in r: found.append(pre + repr(f)[:330])
            if st.get("missing"): found.append("missing " + sp.label)
    hit = {f["id"] for f in m.list if set(f["path"].replace("{closure#", "").split("::")) & set(touched)}
    def near(sp):
        fs = T.idx.get(sp.label, [])[sp.which:sp.which + 1]
        return not hit or not fs or any(runner.closure(g, [f["id"]]) & hit for f in fs)
    S = [sp for sp in S if near(sp)]
    go(S, check.run_spec); go([sp for sp in narrow.narrow(T, S) if near(sp)], check.run_spec, "C20:")
    hashing = rules.hash_iterating(m)
    ho = [sp for sp in S if sp.valid and any(runner.closure(g, [f["id"]]) & hashing for f in T.idx.get(sp.label, [])[sp.which:sp.which + 1])]
    go(ho, lambda t, sp, st: check.run_order(t, sp, st, sp.label in rules.LISTING), "C19:")
    for k in range(1, 24):
        for ru in rules.for_property("C%02d" % k):
            try: res = ru(T, g)
            except Exception as e: und["rule " + ru.__name__] = "EXC " + str(e)[:80]; continue
            for f in res.findings: found.append("rule C%02d " % k + repr(f)[:300])
            if res.undecided: und["rule C%02d %s" % (k, ru.__name__)] = str(res.undecided)[:100]
    return found, und
def one(job):
    k, (rid, edits) = job
    k = mp.current_process()._identity[0]
    W = "%s/w%d" % (BASE, k)
    if not os.path.isdir(W): subprocess.check_call("git clone -q /repo %s" % W, shell=True)
    subprocess.check_call("git checkout -q . && git fetch -q && git checkout -q origin/HEAD && cp /repo/Cargo.lock .", shell=True, cwd=W)
    for f, old, new in edits:
        p = W + "/" + f; s = open(p).read()
        if s.count(old) < 1: return rid, "edit does not match: " + old[:70], {}, 0
        open(p, "w").write(s.replace(old, new))
    t = time.time()
    r = subprocess.run("cargo test --workspace --all-features --offline -- --test-threads 4", shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, CARGO_TARGET_DIR="%s/ct%d" % (BASE, k), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"))
    if r.returncode: return rid, "TESTS: " + " | ".join(l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l or "-->" in l)[:500], {}, 0
    r = subprocess.run([ROOT + "/tools/dump.sh", "%s/m%d.json" % (BASE, k), W, "%s/t%d" % (BASE, k)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return rid, "dump failed " + r.stdout[-200:], {}, 0
    try: pr = subprocess.run([sys.executable, __file__, "--one", "%s/m%d.json" % (BASE, k)] + sorted(names(edits)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=1500)
    except subprocess.TimeoutExpired: return rid, "TIMEOUT", {}, 0
    try: found, und = json.loads(pr.stdout.strip().split("\n")[-1])
    except Exception: return rid, "CRASH " + pr.stderr[-300:], {}, 0
    return rid, found, und, round(time.time() - t)
def main():
    if sys.argv[1] == "--one": print(json.dumps(analyse(sys.argv[2], sys.argv[3:]))); return
    os.makedirs(BASE, exist_ok=True)
    sp = importlib.util.spec_from_file_location("refs", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    R = [r for r in m.REFS if len(sys.argv) == 2 or r[0] in sys.argv[2:]]
    with mp.Pool(int(os.environ.get("N", "4"))) as pool:
        for rid, found, und, t in pool.imap_unordered(one, list(enumerate(R)), chunksize=1):
            print("%-22s %s  [%ss]" % (rid, "quiet" if found == [] else found if isinstance(found, str) else "ALARM", t), flush=True)
            if isinstance(found, list):
                for f in found[:6]: print("      !! " + f[:300], flush=True)
            for k, v in list(und.items())[:8]: print("      ? %s: %s" % (k, v), flush=True)
main()
