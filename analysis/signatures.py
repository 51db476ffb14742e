"""Signatures of the functions the specifications speak about.

A specification binds arguments by position.  A function whose parameters have been changed (types, number, or the
same names in another order) is not the one the specification describes: it is then neither compared with it nor
replaced by its contract inside callers (they are summarised through its body), and the evidence says so.
"""
import json, os
FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "signatures.json")

def sig(m, f):
    """[[parameter name, type]...] + return type; generic parameters by bound and order, types by last path segment"""
    ints = {n for n, tr in f.get("preds", []) if tr in ("traits::Integer", "num_traits::PrimInt")}
    seen = []
    def ty(i, d=0):
        t = m.ty(i) if isinstance(i, int) else i
        k = t["k"]
        if d > 8: return "…"
        if k == "param":
            if t["n"] in ints: return "I"
            if t["n"] not in seen: seen.append(t["n"])
            return "T%d" % seen.index(t["n"])
        if k == "ref": return ("&mut " if t.get("m") else "&") + ty(t["t"], d + 1)
        if k in ("slice", "array"): return "[%s%s]" % (ty(t["t"], d + 1), ";%s" % t.get("n") if k == "array" else "")
        if k == "adt": return t["p"].split("::")[-1] + ("<%s>" % ",".join(ty(x, d + 1) for x in t["a"]) if t.get("a") else "")
        if k == "tuple": return "(%s)" % ",".join(ty(x, d + 1) for x in t["a"])
        if k in ("int", "float"): return t.get("n") or t["str"]
        if k in ("bool", "char", "str"): return k
        return k if "fn" in k else t.get("str", k)
    b = f["body"]
    names = {p[0]: n for n, p in b["names"] if not p[1]}
    ps = [[names.get(i, "").lstrip("_"), ty(b["locals"][i])] for i in range(1, b["argc"] + 1)]
    return ps + [["", ty(b["locals"][0])]]
def compatible(s, base, private=False):
    if len(s) != len(base) or any(a[1] != b[1] for a, b in zip(s, base)): return False
    if not private: return True         # the positions are the interface
    n, o = [a[0] for a in s[:-1]], [b[0] for b in base[:-1]]
    return n == o or sorted(n) != sorted(o) or len(set(n)) != len(n)
def load(): return json.load(open(FILE)) if os.path.exists(FILE) else {}
def align(m, idx, labels=None):
    """idx with every known label bound to the functions of the known signatures; labels that cannot be are dropped and returned"""
    base = load(); lost = {}
    for l, ss in base.items():
        c = list(idx.get(l, [])); out = []
        for s in ss:
            f = next((f for f in c if compatible(sig(m, f), s, not f["exported"])), None)
            if f is None: break
            c.remove(f); out.append(f)
        if len(out) == len(ss): idx[l] = out
        else:
            lost[l] = "absent" if not idx.get(l) else "its parameters are not those the specification describes"
            idx.pop(l, None)
    return lost
if __name__ == "__main__":
    import sys
    from mirlib import Mir
    import targets, contracts, specs
    m = Mir(sys.argv[1]); idx = targets.index(m)
    ls = {s.label for s in specs.load()} | {k.split("::")[-1] for k in contracts.K}
    json.dump({l: [sig(m, f) for f in idx[l]] for l in sorted(ls) if l in idx}, open(FILE, "w"), indent=0)
    print(len(ls), [l for l in ls if l not in idx])
