"""Canonical labels for functions: by self type, trait and arguments, not by source position."""
from mirlib import Mir

def tname(m, t):
    d = m.ty(t); k = d["k"]
    if k == "ref": return "&" + tname(m, d["t"])
    if k == "adt": 
        n = d["p"].split("::")[-1]
        return {"Complex": "C", "Vec": "Vec"}.get(n, n)
    if k == "param": return "T"
    if k in ("slice", "array"): return "[%s]" % tname(m, d["t"])
    if k in ("int", "float"): return d.get("n") or d["str"]
    return d.get("str", k)

def label(m, f):
    """label of a function, e.g. csr_matvec, CSR::select, Mul<&CSR,T>"""
    if f.get("trait") and f.get("self") is not None:
        tr = f["trait"]; n = tr["p"].split("::")[-1]
        s = tname(m, f["self"])
        if n in ("Add", "Sub", "Mul", "Div", "Neg"):
            rhs = [tname(m, a) for a in tr["a"][1:]]
            return "%s<%s>" % (n, ",".join([s] + rhs))
        return "%s::%s" % (s, f["name"])
    if f.get("self") is not None: return "%s::%s" % (tname(m, f["self"]).lstrip("&"), f["name"])
    return f["name"]

def index(m):
    out = {}
    for f in m.list:
        if f["kind"] == "Closure": continue
        out.setdefault(label(m, f), []).append(f)
    return out

if __name__ == "__main__":
    m = Mir("/verif/build/mir.json")
    for k, v in index(m).items(): print(k, len(v) if len(v) > 1 else "", end="; ")
