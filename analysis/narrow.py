"""C20: the same summaries under small index types.  Whenever a count or offset does not fit, the function must
fail loudly; when it does not fail, its result must be the right one and every stored index must fit."""
from specs import *

def itypes(tree, label, which=0):
    """positions of arguments that hold values of the index type, and whether the result is one"""
    f = tree.idx[label][which]; m = tree.m
    ints = {p[0] for p in f["preds"] if p[1].endswith("traits::Integer") or p[1].endswith("PrimInt")}
    def isI(t):
        d = m.ty(t); k = d["k"]
        if k == "param": return d["n"] in ints
        if k in ("ref",): return isI(d["t"])
        if k in ("slice", "array"): return isI(d["t"])
        if k == "adt" and d["p"] == "std::vec::Vec": return isI(d["a"][0])
        return False
    L = f["body"]["locals"]
    return {i for i in range(f["body"]["argc"]) if isI(L[i + 1])}, isI(L[0])
def indices_of(v, path=""):
    """index-typed numbers inside a matrix value"""
    if isinstance(v, CSRv): return list(v.rowptr) + list(v.colidx)
    if isinstance(v, CSCv): return list(v.colptr) + list(v.rowidx)
    if isinstance(v, COOv): return list(v.rowidx) + list(v.colidx)
    if isinstance(v, DOKv): return [k for p in v.values for k in p]
    if isinstance(v, (Ok, Some)): return indices_of(v.v)
    if isinstance(v, (list, tuple)): return [x for y in v if isinstance(y, (V, list, tuple)) for x in indices_of(y)]
    return []
def flat(v):
    if isinstance(v, (list, tuple)): return [x for y in v for x in flat(y)]
    return [v] if isinstance(v, int) and not isinstance(v, bool) else []
SKIP = {"csr_has_canonical_format"}
def extra():
    """structures whose dimensions or counts exceed a small index type"""
    wide = comp(2, 6, [[(0, 2)], [(1, 3)]])
    tall = comp(6, 2, [[], [], [], [], [(1, 2)], [(0, 3)]])
    return [("2x6 sparse", wide), ("6x2 sparse", tall)]
def narrow(tree, specs, imaxes=(1, 2, 3, 5)):
    out = []
    for sp in specs:
        if not sp.valid or sp.imax is not None or not tree.idx.get(sp.label) or len(tree.idx[sp.label]) <= sp.which or sp.label in SKIP: continue
        pos, ri = itypes(tree, sp.label, sp.which)
        pos = {p for p in pos}
        kid = next((k for k in contracts.K if k.endswith("::" + sp.label)), None)
        outs = set(contracts.K[kid][1]) if kid else set()
        for mx in imaxes:
            def models(sp=sp, mx=mx, pos=pos, outs=outs):
                for d, args in list(sp.models()):
                    a = []; ok = True
                    for i, x in enumerate(args):
                        if i in pos:
                            if i in outs and isinstance(x, list) and i not in INOUT.get(sp.label, ()): x = [min(v, mx) for v in x]
                            if any(v > mx or v < -mx - 1 for v in flat(x)): ok = False
                        if any(v > mx for v in indices_of(x)): ok = False
                        a.append(x)
                    if ok: yield "%s; index type up to %d" % (d, mx), tuple(a)
            def chk(o, *args, sp=sp, mx=mx, pos=pos, ri=ri):
                if o.panic is not None: return []
                r = o.ret
                if isinstance(r, Err): return []
                if o.evunk is not None: raise Undec("overflow: %s %s" % (o.evunk[0].kind, o.evunk[1]))
                if o.overflow is not None:
                    e = o.overflow
                    return [("C20", "index arithmetic at %s wraps without failing" % e.loc)]
                bad = [x for x in indices_of(need(r)) if x > mx]
                if ri: bad += [x for x in flat(r) if x > mx]
                for i in pos:
                    if ("a%d" % i) in o.s.out: bad += [x for x in flat(need(o.out(i))) if isinstance(x, int) and x > mx]
                for i, x in enumerate(args):
                    if isinstance(x, V) and ("a%d" % i) in o.s.out: bad += [y for y in indices_of(need(o.out(i))) if y > mx]
                if bad: return [("C20", "stores %s, which does not fit the index type" % bad[:3])]
                try: res = sp.check(o, *args)
                except Bad as e: return [("C20", "result does not fit and is wrong: %s" % e)]
                return [("C20", m) for p, m in res if m]
            out.append(Spec(sp.label, ("C20",), models, chk, valid=False, ptr=sp.ptr, imax=mx, which=sp.which, signed=sp.signed, tag="index type up to %d%s" % (mx, " " + sp.tag if sp.tag else ""), order=sp.order))
    return out
INOUT = {"csr_sort_indices": (2,), "csr_sum_duplicates": (2, 3), "csr_eliminate_zeros": (2, 3)}
if __name__ == "__main__":
    import sys
    from mirlib import Mir
    from check import run_spec
    T = Tree(Mir("/verif/build/mir.json")); import specs; stats = {}
    for sp in narrow(T, specs.load(T.m)):
        if len(sys.argv) > 1 and not any(p in sp.label for p in sys.argv[1:]): continue
        for f in run_spec(T, sp, stats): print(repr(f)[:300])
    for k, v in stats["fn"].items():
        if v["undecided"]: print("UNDEC", k, v["decided"], v["undecided"], str(v["why"])[:140])
    print(sum(v["decided"] for v in stats["fn"].values()), sum(v["undecided"] for v in stats["fn"].values()))
