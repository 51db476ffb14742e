"""One property's check: analyse the tree, compare with the specifications, report."""
import sys, os, json, time, multiprocessing as mp, collections
sys.setrecursionlimit(20000)
from judge import *
from mirlib import Mir
import specs, check, rules, narrow
from check import Finding, run_spec

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = {"C11", "C17"}          # properties every specification speaks about

def reach(m):
    """local call graph: id -> ids of local functions called, closures included"""
    g = {}
    for f in m.list:
        out = set()
        def walk(x):
            if isinstance(x, dict):
                for v in x.values(): walk(v)
            elif isinstance(x, (list, tuple)):
                if len(x) >= 2 and x[0] == "fn" and isinstance(x[1], str) and x[1] in m.fns: out.add(x[1])
                for v in x: walk(v)
            elif isinstance(x, str):
                if x.startswith("closure:"): x = x[8:]
                if x in m.fns: out.add(x)
        walk(f["body"]); walk(f.get("prom"))
        g[f["id"]] = out
    return g
def closure(g, ids):
    seen = set(); st = list(ids)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += g.get(x, ())
    return seen

def work(job):
    label, idx = job
    stats = {}; fs = []
    for i in idx:
        sp = SPECS_[i]
        try: fs += check.run_order(TREE, sp, stats, sp.label in rules.LISTING) if PID == "C19" else run_spec(TREE, sp, stats)
        except Exception as e:
            st = stats.setdefault("fn", {}).setdefault(sp.label, {"loc": "", "decided": 0, "undecided": 0, "why": None})
            st["undecided"] += 1; st["why"] = "%s: %s" % (type(e).__name__, str(e)[:120])
    return label, [(sorted(f.props), f.label, f.loc, f.msg, f.model) for f in fs], stats

def main():
    global TREE, SPECS_, PID
    pid, mirfile = sys.argv[1], sys.argv[2]; PID = pid
    t0 = time.time(); check.DEADLINE = t0 + min(660, int(os.environ.get("VERIF_BUDGET", "660")))
    m = Mir(mirfile); TREE = Tree(m); SPECS_ = list(specs.load(m))
    if pid == "C20": SPECS_ += narrow.narrow(TREE, SPECS_)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3: tier = sys.argv[3]
    g = reach(m)
    kern = {k for k in TREE.ct if k in m.fns}
    klabels = {targets.label(m, m.fns[k]): k for k in kern}
    # functions whose own specification mentions the property
    own = {}
    if pid == "C19":
        hashing = rules.hash_iterating(m)
        for i, sp in enumerate(SPECS_):
            if sp.valid and any(closure(g, [f["id"]]) & hashing for f in TREE.idx.get(sp.label, [])[sp.which:sp.which + 1]): own.setdefault(sp.label, []).append(i)
    for i, sp in enumerate(SPECS_):
        if pid == "C19": break
        if pid in ALL or pid in sp.props or pid in sp.may: own.setdefault(sp.label, []).append(i)
    # kernels those functions are summarised through
    roots = [f["id"] for l in own for f in TREE.idx.get(l, [])]
    via = closure(g, roots) & kern
    dep = {}
    for i, sp in enumerate(SPECS_):
        if pid != "C19" and klabels.get(sp.label) in via and sp.label not in own: dep.setdefault(sp.label, []).append(i)
    jobs = [(l, ix) for l, ix in list(own.items()) + list(dep.items())]
    jobs.sort(key=lambda j: -HEAVY.get(j[0], 0))
    found = []; fnstats = {}
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 2)) as pool:
        for label, fs, st in pool.imap_unordered(work, jobs, chunksize=1):
            fnstats.update(st.get("fn", {}))
            for props, lab, loc, msg, model in fs:
                if pid in props or lab in dep or (lab in own and pid not in ALL and klabels.get(lab) in via):
                    found.append(Finding(set(props), lab, loc, msg, model))
    rstats = []
    for r in rules.for_property(pid):
        res = r(TREE, g)
        rstats.append({"rule": r.__doc__.strip().split("\n")[0] if r.__doc__ else r.__name__, "name": r.__name__, "instances": res.instances, "obligations": res.obligations, "undecided": res.undecided, "sites": res.sites[:12]})
        for f in res.findings:
            if f.props is None or pid in f.props: found.append(f)
    if not jobs and not rstats:
        print("no specification for %s" % pid); return 2
    # known findings
    kf = json.load(open(os.path.join(HERE, "known-findings.json")))
    known = {(k["property"], k["label"], k["key"]): k for k in kf.get("known", [])}
    new = []; hit = set()
    for f in found:
        k = next((k for k in known if k[0] == pid and k[1] == f.label and k[2] in f.msg), None)
        if k: hit.add(k)
        else: new.append(f)
    dec = sum(v["decided"] for v in fnstats.values()); und = sum(v["undecided"] for v in fnstats.values())
    dec += sum(r["obligations"] for r in rstats)
    funcs = len(fnstats)
    print("%s: %d functions analysed, %d obligations decided, %d undecided, %d rules, %.1fs" % (pid, funcs, dec, und, len(rstats), time.time() - t0))
    for k in sorted(hit): print("KNOWN-FINDING: property=%s %s: %s" % (pid, k[1], known[k]["what"]))
    for n, v in sorted(fnstats.items()):
        if v["undecided"]: print("  undecided: %s (%s): %s" % (n, v["loc"], str(v["why"])[:140]))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "coverage": {
              "explanation": "Static analysis of /repo's current source. The crate is compiled to MIR by a rustc driver; every function below is summarised by abstract interpretation (loops solved to closed forms, callees replaced by kernel contracts or inlined), giving its result and all its panic conditions as closed-form expressions in its arguments. Each obligation compares such an expression with the meaning the property requires, for one structure of a fixed family of matrix structures. Nothing of the crate is executed; an expression with an unsolved part leaves its obligations undecided (listed) and raises no alarm.",
              "rule": "; ".join(r["rule"] for r in rstats)[:4000] if rstats else "function summary equals the required meaning; every panic condition is false on valid inputs; results are well-formed",
              "functions": {n: {"at": v["loc"], "decided": v["decided"], "undecided": v["undecided"], **({"why": str(v["why"])[:160]} if v["undecided"] else {})} for n, v in sorted(fnstats.items())},
              "kernels_relied_on": sorted(dep), "rules": rstats,
              "obligations_decided": dec, "obligations_undecided": und, "structures_not_reached_in_time": sum(v.get("unexplored", 0) for v in fnstats.values()), "sizes_from_constants_of_the_source": specs.BIG, "mir_functions": len(m.list),
              "samples": [{"function": f.label, "at": f.loc, "finding": f.msg[:300], "structure": str(f.model)} for f in found[:5]] or
                         [{"function": n, "at": v["loc"], "obligations": v["decided"]} for n, v in list(sorted(fnstats.items()))[:5]]}}
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)
    if not new: return 0
    rp = os.path.join(d, pid + "-violation.txt")
    with open(rp, "w") as fh:
        for f in new:
            fh.write("property %s\nfunction %s\nat %s\nfinding %s\nstructure %s\n\n" % (pid, f.label, f.loc, f.msg, f.model))
    for f in new[:20]:
        print("  %s (%s): %s [structure: %s]" % (f.label, f.loc, f.msg[:400], f.model))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1
HEAVY = {}
if __name__ == "__main__":
    sys.exit(main())
