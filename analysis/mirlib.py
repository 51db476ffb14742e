"""Loading and pretty-printing of the MIR dump."""
import json

class Mir:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]; self.adts = d["adts"]; self.items = d["items"]
        self.fns = {f["id"]: f for f in d["fns"]}
        self.list = d["fns"]

    def ty(self, i): return self.types[i]

    def pp_place(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e[0] == "*": s = "(*%s)" % s
            elif e[0] == "f": s += ".%d" % e[1]
            elif e[0] == "i": s += "[_%d]" % e[1]
            elif e[0] == "d": s = "(%s as v%d)" % (s, e[1])
            else: s += str(e)
        return s

    def pp_op(self, o):
        if o[0] in "cm": return ("" if o[0] == "c" else "mv ") + self.pp_place(o[1])
        if o[0] == "k":
            k = o[1]
            if k["k"] == "fn":
                f = k["fn"]
                return "fn<%s%s>" % (f["p"], "" if not f["res"] else "=>" + f["res"])
            if k["k"] in ("int",): return "%s_%s" % (k["v"], self.types[k["t"]]["str"])
            if "b" in k:
                return "%s:%r" % (k["k"], bytes(k["b"]))
            return json.dumps({a: b for a, b in k.items() if a != "t"}) + ":" + self.types[k["t"]]["str"]
        return str(o)

    def pp_rv(self, r):
        k = r[0]
        if k == "use": return self.pp_op(r[1])
        if k in ("ref", "rawptr"): return "&%s%s" % ("mut " if r[1] else "", self.pp_place(r[2]))
        if k == "bin": return "%s(%s, %s)" % (r[1], self.pp_op(r[2]), self.pp_op(r[3]))
        if k == "un": return "%s(%s)" % (r[1], self.pp_op(r[2]))
        if k == "cast": return "cast<%s>(%s) as %s" % (r[1], self.pp_op(r[2]), self.types[r[3]]["str"])
        if k == "discr": return "discr(%s)" % self.pp_place(r[1])
        if k == "agg": return "%s{%s}" % (r[1], ", ".join(self.pp_op(x) for x in r[2]))
        return str(r)

    def pp(self, f, body=None):
        b = body or f["body"]
        out = ["fn %s  [%s] %s" % (f["id"], f["path"], f["loc"])]
        out.append("  args %d names %s" % (b["argc"], [(n, self.pp_place(p)) for n, p in b["names"]]))
        for i, l in enumerate(b["locals"]):
            out.append("  let _%d: %s" % (i, self.types[l]["str"]))
        for i, bb in enumerate(b["blocks"]):
            if bb["c"]: continue
            out.append("  bb%d:" % i)
            for s in bb["s"]:
                if s[0] == "=": out.append("    %s = %s" % (self.pp_place(s[1]), self.pp_rv(s[2])))
                elif s[0] in ("dead", "live"): pass
                else: out.append("    " + str(s))
            t = bb["t"]
            if t[0] == "call":
                out.append("    %s = CALL %s(%s) -> %s  @%s" % (self.pp_place(t[3]), self.pp_op(t[1]), ", ".join(self.pp_op(x) for x in t[2]), t[4], t[5]))
            elif t[0] == "switch":
                out.append("    switch %s %s else %s" % (self.pp_op(t[1]), t[2], t[3]))
            elif t[0] == "assert":
                out.append("    assert %s == %s %s -> %s" % (self.pp_op(t[1]), t[2], t[3][0], t[4]))
            else: out.append("    " + str(t))
        return "\n".join(out)

if __name__ == "__main__":
    import sys
    m = Mir(sys.argv[1])
    for f in m.list:
        if len(sys.argv) < 3: print(f["id"], f["path"], f["kind"], f.get("pub"), f["loc"])
        elif sys.argv[2] in f["id"]: print(m.pp(f)); 
