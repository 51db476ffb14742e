"""Run specs against the summaries of a tree and collect findings."""
import sys, time
from judge import *
from mirlib import Mir
import specs
from specs import Undec, Bad

DEADLINE = None            # wall-clock end of the whole check; structures not reached by then are counted as not explored
BUDGET = 600 if specs.THOROUGH else 120
class Clock:
    def __init__(s): s.t = time.time() + BUDGET
    def over(s):
        t = time.time(); return t > s.t or (DEADLINE is not None and t > DEADLINE)
class Finding:
    def __init__(s, props, label, loc, msg, model): s.props, s.label, s.loc, s.msg, s.model = props, label, loc, msg, model
    def __repr__(s): return "%s %s (%s): %s  [structure: %s]" % ("/".join(sorted(s.props)), s.label, s.loc, s.msg, s.model)

def loc_of(s): return s.f["loc"]
def run_spec(tree, sp, stats):
    """findings of one spec; stats: dict for counts"""
    s = tree.summary(sp.label, ptr=sp.ptr, which=sp.which, signed=sp.signed)
    out = []
    if s is None:
        stats.setdefault("fn", {})[sp.label] = {"loc": "", "decided": 0, "undecided": 1, "why": "function " + tree.lost.get(sp.label, "absent")}
        return out
    st = stats.setdefault("fn", {}).setdefault(sp.label + (":" + sp.tag if sp.tag else ""), {"loc": loc_of(s), "decided": 0, "undecided": 0, "why": None})
    if s.err: st["why"] = s.err; st["undecided"] += 1; return out
    if s.serious: st["why"] = s.serious[0]; st["undecided"] += 1; return out
    seen = set(); ck = Clock()
    for d, args in sp.models():
        if ck.over(): st["unexplored"] = st.get("unexplored", 0) + 1; continue
        for order in sp.order:
            try:
                o = Outcome(tree, s, args, imax=sp.imax, order=order)
                if o.panic is not None and sp.valid:
                    add(out, seen, set(sp.props) | {"C17"}, sp.label, o.panic.loc, "%s on a valid input (guard %s)" % (KIND.get(o.panic.kind, o.panic.kind), show(o.panic.guard)[:160]), d)
                    st["decided"] += 1
                    continue
                res = sp.check(o, *args)
                for props, msg in res:
                    if msg: add(out, seen, set(props.split()) if props else set(sp.props), sp.label, loc_of(s), msg, d)
                if o.evunk is not None and o.panic is None: st["undecided"] += 1; st["why"] = st["why"] or "panic-freedom: %s %s" % (o.evunk[0].kind, o.evunk[1])
                else: st["decided"] += 1
            except Undec as e: st["undecided"] += 1; st["why"] = st["why"] or str(e)
            except Bad as e:
                add(out, seen, set(sp.props) | {"C11"}, sp.label, loc_of(s), str(e), d); st["decided"] += 1
    return out
def run_order(tree, sp, stats, listing=False):
    """hash-table order must not reach the result: the two orders agree (listings: agree with the specification)"""
    s = tree.summary(sp.label, ptr=sp.ptr, which=sp.which, signed=sp.signed)
    out = []
    if s is None: return out        # noted by the other checks
    st = stats.setdefault("fn", {}).setdefault(sp.label + (":" + sp.tag if sp.tag else ""), {"loc": loc_of(s), "decided": 0, "undecided": 0, "why": None})
    if s.err or s.serious: st["why"] = s.err or s.serious[0]; st["undecided"] += 1; return out
    seen = set(); ck = Clock()
    for d, args in sp.models():
        if ck.over(): st["unexplored"] = st.get("unexplored", 0) + 1; continue
        try:
            o = [Outcome(tree, s, args, imax=sp.imax, order=k) for k in (0, 1)]
            if listing:
                for x in o:
                    for props, msg in sp.check(x, *args):
                        if msg: add(out, seen, {"C19"}, sp.label, loc_of(s), msg, d)
            else:
                vs = [[x.panic is not None] + ([x.ret] if x.panic is None else []) + [x.out(i) for i in range(len(args)) if "a%d" % i in s.out and x.panic is None] for x in o]
                if not known(vs): raise Undec("some part is unknown")
                if vs[0] != vs[1]: add(out, seen, {"C19"}, sp.label, loc_of(s), "the result depends on the iteration order of a hash table: %s in one order, %s in the other" % (str(vs[0][1:])[:150], str(vs[1][1:])[:150]), d)
            st["decided"] += 1
        except Undec as e: st["undecided"] += 1; st["why"] = st["why"] or str(e)
        except Bad as e: add(out, seen, {"C19"}, sp.label, loc_of(s), str(e), d); st["decided"] += 1
    return out
KIND = {"bounds": "index out of bounds", "slice": "slice out of bounds", "underflow": "index arithmetic goes below zero", "unwrap": "unwrap of a failed value", "div0": "division by zero", "negcast": "negative value converted to an index",
        "narrowcast": "value does not fit the index type", "panic": "panics", "assert": "assertion fails", "nonterm": "loop does not terminate", "kernel": "kernel precondition fails"}
def add(out, seen, props, label, loc, msg, d):
    k = (label, tuple(sorted(props)))
    if k in seen: return
    seen.add(k); out.append(Finding(props, label, loc, msg, d))

if __name__ == "__main__":
    T = Tree(Mir(sys.argv[1] if len(sys.argv) > 1 and sys.argv[1].endswith(".json") else "/verif/build/mir.json"))
    pats = [a for a in sys.argv[1:] if not a.endswith(".json")]
    stats = {}
    for sp in specs.load(T.m):
        if pats and not any(p in sp.label or p in sp.props for p in pats): continue
        t = time.time()
        try: fs = run_spec(T, sp, stats)
        except Exception as e:
            print("EXC", sp.label, type(e).__name__, str(e)[:200])
            if pats: raise
            continue
        for f in fs: print(repr(f)[:400])
        if time.time() - t > 3: print("  slow", sp.label, "%.1f" % (time.time() - t))
    if "-n" in sys.argv:
        import narrow
        for sp in narrow.narrow(T, specs.load(T.m)):
            if len(pats) > 1 and not any(p in sp.label for p in pats): continue
            for f in run_spec(T, sp, stats): print(repr(f)[:400])
    for k, v in stats["fn"].items():
        if v["undecided"]: print("UNDEC", k, v["decided"], v["undecided"], str(v["why"])[:140])
    print("decided", sum(v["decided"] for v in stats["fn"].values()), "undecided", sum(v["undecided"] for v in stats["fn"].values()))
