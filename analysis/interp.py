"""Gated-SSA evaluation of resolved MIR into closed-form terms.

Every function is summarised statically: branches become guarded merges, crate-local calls are inlined
(or replaced by their contract), and loops are solved to closed forms (recurrences, reductions, maps,
scatters).  Loops that cannot be solved leave explicit unknowns; nothing is executed or unrolled.
"""
import struct
from terms import *
import native
import models

class Diverge(Exception): pass

class Cfg:
    def __init__(self, body, guards=()):
        self.body = body; self.guards = guards      # locals whose drop releases a lock
        bl = body["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b["c"]: continue
            t = b["t"]; k = t[0]
            if k == "goto": s = [t[1]]
            elif k == "switch": s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop": s = [t[2]]
            elif k == "call": s = [t[4]] if t[4] is not None else []
            elif k == "assert": s = [t[4]]
            else: s = []
            self.succ[i] = s
        # rpo
        seen = set(); post = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(self.succ[v]))); break
            else:
                post.append(u); st.pop()
        self.rpo = post[::-1]
        idx = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for u in self.rpo:
            for v in self.succ[u]: pred[v].append(u)
        # dominators
        dom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while idx[x] > idx[y]: x = dom[x]
                        while idx[y] > idx[x]: y = dom[y]
                if dom.get(b) != x: dom[b] = x; ch = True
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == self.rpo[0]: return False
                b = dom[b]
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if dominates(v, u):
                    L = self.loops.setdefault(v, {v})
                    stk = [u]
                    while stk:
                        w = stk.pop()
                        if w not in L:
                            L.add(w); stk.extend(pred[w])
        self.dominates = dominates; self.pred = pred; self.dom = dom
        self.live_in = self.liveness()

    def liveness(self):
        bl = self.body["blocks"]
        addr = set()
        use = {}; df = {}
        def rd_place(p, U, D):
            l = p[0]
            if l not in D: U.add(l)
            for e in p[1]:
                if e[0] == "i" and e[1] not in D: U.add(e[1])
        def op(o, U, D):
            if o[0] in "cm": rd_place(o[1], U, D)
        def wr(p, U, D):
            if p[1]: rd_place(p, U, D)
            else: D.add(p[0])
        for i in self.rpo:
            U = set(); D = set()
            for s in bl[i]["s"]:
                if s[0] == "=":
                    r = s[2]; k = r[0]
                    if k in ("use", "repeat"): op(r[1], U, D)
                    elif k in ("ref", "rawptr"):
                        rd_place(r[2], U, D)
                        if not any(e[0] == "*" for e in r[2][1]): addr.add(r[2][0])
                    elif k == "cast": op(r[2], U, D)
                    elif k == "bin": op(r[2], U, D); op(r[3], U, D)
                    elif k == "un": op(r[2], U, D)
                    elif k == "discr": rd_place(r[1], U, D)
                    elif k == "agg":
                        for x in r[2]: op(x, U, D)
                    wr(s[1], U, D)
            t = bl[i]["t"]
            if t[0] == "switch": op(t[1], U, D)
            elif t[0] == "call":
                op(t[1], U, D)
                for a in t[2]: op(a, U, D)
                wr(t[3], U, D)
            elif t[0] == "assert": op(t[1], U, D)
            elif t[0] == "drop":
                if t[1][0] in self.guards: rd_place(t[1], U, D)
            elif t[0] == "ret":
                if 0 not in D: U.add(0)
            use[i] = U; df[i] = D
        live = {i: set() for i in self.rpo}
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                o = set()
                for s in self.succ[i]: o |= live[s]
                n = use[i] | (o - df[i])
                if n != live[i]: live[i] = n; ch = True
        for i in live: live[i] = live[i] | addr
        return live

class Frame:
    __slots__ = ("fn", "body", "fid", "cfg", "ints", "sints", "cells", "gen")
    def cell(self, l):
        c = self.cells.get(l)
        if c is None: c = self.cells[l] = mk("cell", self.fid, l)
        return c

class Event:
    __slots__ = ("kind", "guard", "loc", "fn", "data")
    def __init__(self, kind, guard, loc, fn, data=()):
        self.kind, self.guard, self.loc, self.fn, self.data = kind, guard, loc, fn, data
    def __repr__(self): return "%s@%s [%s] %s" % (self.kind, self.loc, show(self.guard), " ".join(map(show, self.data)))

INT_SIGNED = {"isize", "i8", "i16", "i32", "i64", "i128"}

class Interp:
    def __init__(self, mir, contracts=None, opaque=()):
        self.mir = mir
        self.contracts = contracts or {}
        self.cfgs = {}
        self.ev = []
        self.stack = []
        self.notes = []        # unsolved loops etc.
        self.loopstats = {"solved": 0, "unsolved": 0}
        self.nuid = 0
        self.fnvals = {}
        self.idioms = []
        self.keep_loops = None
        self.allsigned = False

    # ------------------------------------------------------------ types
    def ty(self, i): return self.mir.types[i]
    def is_int(self, fr, t):
        t = self.ty(t) if isinstance(t, int) else t
        if t["k"] == "ref": return self.is_int(fr, t["t"])
        if t["k"] == "int": return True
        if t["k"] == "param": return t["n"] in fr.ints
        return False
    def signed(self, t, fr=None):
        t = self.ty(t) if isinstance(t, int) else t
        if fr is not None and t["k"] == "param": return t["n"] in fr.sints
        return t["k"] == "int" and t["n"] in INT_SIGNED
    def optype(self, fr, o):
        if o[0] == "k": return o[1]["t"]
        return self.placetype(fr, o[1])
    def placetype(self, fr, p):
        t = fr.body["locals"][p[0]]
        for e in p[1]:
            if e[0] == "f": t = e[2]
            elif e[0] == "*" or e[0] in ("i", "ci"):
                d = self.ty(t)
                if "t" in d: t = d["t"]
                elif d["k"] == "adt" and d["a"]: t = d["a"][0]
            elif e[0] == "ss": pass
        return t
    def sort(self, fr, t):
        """element sort of a type"""
        d = self.ty(t)
        k = d["k"]
        if k == "int": return "z" if d["n"] in INT_SIGNED else "i"
        if k == "param": return ("z" if d["n"] in fr.sints else "i") if d["n"] in fr.ints else "t"
        if k == "float": return "t"
        if k == "bool": return "b"
        if k == "tuple": return ("U", tuple(self.sort(fr, x) for x in d["a"]))
        if k in ("slice", "array"): return ("S", self.sort(fr, d["t"]))
        if k == "adt" and d["p"] == "std::vec::Vec": return ("S", self.sort(fr, d["a"][0]))
        if k == "ref": return self.sort(fr, d["t"])
        return ("O", d["str"])
    def coerce(self, fr, v, t):
        if v.op in ("fld", "unk", "app", "read", "lastval", "K"):
            d = self.ty(t); k = d["k"]
            if k in ("int", "float", "param"): return P(v)
            if k == "bool": return bvar(v)
        return v

    # ------------------------------------------------------------ places
    def lval(self, fr, p, st):
        """('loc', cell, path) | ('val', value)"""
        cell = fr.cell(p[0]); path = (); val = None
        variant = None
        cur = ("loc", cell, ())
        t = fr.body["locals"][p[0]]
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.rdl(cur, st)
                v = self.unique(v)
                if v.op == "ref": cur = ("loc", v.args[0], v.args[1])
                elif v.op == "box": cur = ("val", v.args[0])
                elif v.op == "ite": cur = ("ite", v)
                else: cur = ("val", v)   # reference to an opaque value: identity view
            elif k == "d": variant = e[1]; continue
            elif k == "f":
                cur = self.ext(cur, ("f", e[1], variant)); 
            elif k == "i":
                i = st.get(fr.cell(e[1]), UNDEF)
                cur = self.ext(cur, ("ix", i if i.op == "poly" else P(i)))
            elif k == "ci":
                if e[2]:
                    v = self.rdl(cur, st)
                    cur = self.ext(cur, ("ix", sub(length(v), num(e[1]))))
                else: cur = self.ext(cur, ("ix", num(e[1])))
            elif k == "ss":
                v = self.rdl(cur, st)
                hi = sub(length(v), num(e[2])) if e[3] else num(e[2])
                cur = self.ext(cur, ("win", num(e[1]), hi))
            else: cur = ("val", unk("proj"))
            variant = None
        return cur
    def unique(self, v):
        return v
    def ext(self, cur, el):
        if cur[0] == "val": return ("val", self.proj(cur[1], el))
        if cur[0] == "ite": return ("itep", cur[1], (el,))
        if cur[0] == "itep": return ("itep", cur[1], cur[2] + (el,))
        return ("loc", cur[1], self.extpath(cur[2], el))
    def extpath(self, path, el):
        if path and path[-1][0] == "win" and el[0] in ("ix", "win"):
            w = path[-1]
            if el[0] == "ix": return path[:-1] + (("ix", add(w[1], el[1])),)
            return path[:-1] + (("win", add(w[1], el[1]), add(w[1], el[2])),)
        return path + (el,)
    def proj(self, v, el):
        if el[0] == "f": return field(v, el[1], el[2])
        if el[0] == "ix":
            if v.op == "ref": return unk("ixref")
            return read(v, el[1])
        if v.unk and v.op == "unk": return v
        if el[0] == "key": return models.mapval(v, el[1])
        return slice_(v, el[1], el[2])
    def rdl(self, lv, st):
        if lv[0] == "val": return lv[1]
        if lv[0] in ("ite", "itep"):
            return self.rditer(lv[1], lv[2] if lv[0] == "itep" else (), st)
        v = st.get(lv[1], UNDEF)
        for el in lv[2]: v = self.proj(v, el)
        return v
    def rditer(self, v, els, st):
        if v.op == "ite": return ite(v.args[0], self.rditer(v.args[1], els, st), self.rditer(v.args[2], els, st))
        v = self.deref(v, st)
        for el in els: v = self.proj(v, el)
        return v
    def deref(self, v, st):
        if v.op == "ref": return self.rdl(("loc", v.args[0], v.args[1]), st)
        if v.op == "ite": return ite(v.args[0], self.deref(v.args[1], st), self.deref(v.args[2], st))
        return v
    def rdd(self, v, st):
        """value behind any number of references"""
        for _ in range(8):
            if v.op == "ref": v = self.deref(v, st)
            elif v.op == "ite" and (v.args[1].op == "ref" or v.args[2].op == "ref"): v = self.deref(v, st)
            else: break
        return v
    def wrl(self, lv, val, st):
        if lv[0] == "val": self.note("write through opaque reference"); return
        if lv[0] in ("ite", "itep"):
            self.writer(lv[1], lv[2] if lv[0] == "itep" else (), val, st, TRUE); return
        cell, path = lv[1], lv[2]
        if not path: st[cell] = val
        else: st[cell] = self.upd(st.get(cell, UNDEF), path, val)
    def writer(self, v, els, val, st, g):
        if v.op == "ite":
            self.writer(v.args[1], els, val, st, band(g, v.args[0]))
            self.writer(v.args[2], els, val, st, band(g, bnot(v.args[0]))); return
        if v.op != "ref": self.note("write through opaque reference"); return
        path = v.args[1]
        for el in els: path = self.extpath(path, el)
        old = self.rdl(("loc", v.args[0], path), st)
        self.wrl(("loc", v.args[0], path), ite(g, val, old), st)
    def upd(self, v, path, new):
        if not path: return new
        el = path[0]
        if el[0] == "f":
            i = el[1]
            if v.op == "agg":
                a = list(v.args)
                while len(a) <= 2 + i: a.append(UNDEF)
                a[2 + i] = self.upd(a[2 + i], path[1:], new)
                return mk("agg", *a)
            if v.op == "ite": return ite(v.args[0], self.upd(v.args[1], path, new), self.upd(v.args[2], path, new))
            if v.args and isinstance(v.args[-1], tuple) and len(v.args[-1]) == 2 and v.args[-1][0] == "U" and v.op in ("mapval", "mapat"):
                return self.upd(mk("agg", "tuple", 0, *[field(v, k) for k in range(len(v.args[-1][1]))]), path, new)
            if v is UNDEF: return mk("agg", "tuple", 0, *([UNDEF] * i + [self.upd(UNDEF, path[1:], new)]))
            return unk("upd")
        if el[0] == "ix":
            if v.op == "unk": return v
            return store(v, el[1], self.upd(read(v, el[1]) if len(path) > 1 else UNDEF, path[1:], new))
        if el[0] == "key":
            if v.op == "ite": return ite(v.args[0], self.upd(v.args[1], path, new), self.upd(v.args[2], path, new))
            return models.mapins(v, el[1], self.upd(models.mapval(v, el[1]) if len(path) > 1 else UNDEF, path[1:], new))
        if el[0] == "win":
            lo, hi = el[1], el[2]
            inner = self.upd(slice_(v, lo, hi), path[1:], new)
            if lo is ZERO and hi is length(v): return inner
            x = fresh("x", "nn"); X = P(x)
            return lam(length(v), x, ite(band(le(lo, X), lt(X, hi)), read(inner, sub(X, lo)), read(v, X)))
        return unk("upd")
    def wr(self, ref, val, st):
        if ref.op == "ref":
            tgt = self.rdl(("loc", ref.args[0], ref.args[1]), st)
            if tgt.op == "ref": return self.wr(tgt, val, st)
            self.wrl(("loc", ref.args[0], ref.args[1]), val, st)
        elif ref.op == "ite": self.writer(ref, (), val, st, TRUE)
        else: self.note("write through opaque reference")
    def note(self, s):
        self.notes.append((s, self.stack[-1] if self.stack else "")); 

    # ------------------------------------------------------------ events
    def event(self, kind, g, loc, data=()):
        if g is FALSE: return
        self.ev.append(Event(kind, g, loc, self.stack[-1] if self.stack else "", tuple(data)))

    # ------------------------------------------------------------ operands / rvalues
    def const(self, fr, k, st):
        kk = k["k"]
        if kk == "int":
            t = self.ty(k["t"]); n = int(k["v"])
            if t["k"] == "bool": return TRUE if n else FALSE
            if t["k"] == "char": return mk("char", n)
            if t["k"] == "float":
                f = struct.unpack("<d", struct.pack("<Q", n))[0] if t["n"] == "f64" else struct.unpack("<f", struct.pack("<I", n))[0]
                return num(int(f)) if f == int(f) and abs(f) < 1e15 else P(mk("fconst", str(f)))
            return num(n)
        if kk == "fn":
            fv = mk("fnval", k["fn"]["res"] or k["fn"]["d"], k["fn"]["p"])
            self.fnvals[fv] = k["fn"]
            return fv
        if kk == "slice": return mk("str", bytes(k["b"]).decode("utf-8", "replace"))
        if kk == "refbytes":
            inner = self.ty(k["inner"])
            if inner["k"] in ("str", "slice", "array") :
                return mk("bytes", tuple(k["b"]))
            if inner["k"] == "int":
                cell = mk("cell", "const", "int%s" % bytes(k["b"]).hex())
                st[cell] = num(int.from_bytes(bytes(k["b"]), "little", signed=inner["n"] in INT_SIGNED)); return mk("ref", cell, ())
            return mk("bytes", tuple(k["b"]))
        if kk == "zst":
            t = self.ty(k["t"])
            if t["k"] == "closure": return agg("closure:" + t["d"], 0)
            if t["k"] == "fndef": return mk("fnval", t["d"], t["p"])
            if t["k"] == "tuple": return UNIT
            if t["k"] == "adt": return agg(t["p"], 0)
            return UNIT
        if kk == "promoted":
            cell = mk("cell", "promo:" + k["d"], k["i"])
            f = self.mir.fns.get(k["d"])
            if f is None: return unk("promoted")
            pb = f["prom"][k["i"]]
            fr2 = self.frame(f, "promo:%s:%d" % (k["d"], k["i"]), pb)
            st2 = {}
            r = self.run_body(fr2, st2, True)
            for c, v in st2.items(): st[c] = v
            st[cell] = r if r is not None else unk("promoted")
            return st[cell] if st[cell].op == "ref" else mk("ref", cell, ())
        if kk == "static": return mk("static", k["d"])
        return unk("const " + k.get("s", "")[:40])
    def operand(self, fr, o, st):
        if o[0] == "k": return self.const(fr, o[1], st)
        v = self.rdl(self.lval(fr, o[1], st), st)
        return self.coerce(fr, v, self.placetype(fr, o[1])) if v.op in ("fld", "unk", "app", "read", "lastval", "K") else v
    def rvalue(self, fr, r, st, g, loc):
        k = r[0]
        if k == "use": return self.operand(fr, r[1], st)
        if k in ("ref", "rawptr"):
            lv = self.lval(fr, r[2], st)
            if lv[0] == "loc": return mk("ref", lv[1], lv[2])
            if lv[0] == "ite": return lv[1]
            if lv[0] == "itep":
                def f(v):
                    if v.op == "ite": return ite(v.args[0], f(v.args[1]), f(v.args[2]))
                    if v.op == "ref":
                        p = v.args[1]
                        for el in lv[2]: p = self.extpath(p, el)
                        return mk("ref", v.args[0], p)
                    return v
                return f(lv[1])
            return lv[1]
        if k == "bin": return self.binop(fr, r, st, g, loc)
        if k == "un":
            v = self.operand(fr, r[2], st)
            if r[1] == "Not":
                if is_bool(v): return bnot(v)
                return P(mk("bitnot", v))
            if r[1] == "Neg": return neg(v if v.op == "poly" else P(v))
            if r[1] == "PtrMetadata": return length(self.rdd(v, st))
            return unk("un " + r[1])
        if k == "cast":
            v = self.operand(fr, r[2], st)
            t = self.ty(r[3]); ck = r[1]
            if ck == "Transmute" and t["k"] == "int" and v.op in ("ref", "agg", "ite", "undef"): return num(4096)     # the address of a live, aligned object
            if ck == "IntToInt":
                if is_bool(v): return P(v)
                src = self.ty(self.optype(fr, r[2]))
                if t["k"] == "int" and src["k"] == "int":
                    if t["n"] not in INT_SIGNED and src["n"] in INT_SIGNED:
                        self.event("negcast", band(g, lt(v, ZERO)), loc, (v,))
                    w = lambda n: {"usize": 64, "isize": 64}.get(n) or int(n[1:])
                    if w(t["n"]) < w(src["n"]): self.event("narrowcast", band(g, lt(num(2 ** (w(t["n"]) - (t["n"] in INT_SIGNED)) - 1), v)), loc, (v, num(w(t["n"]))))
                return v
            if ck in ("IntToFloat", "FloatToFloat", "FloatToInt"):
                return v if ck != "FloatToInt" else P(mk("f2i", v))
            if t["k"] == "closure" or "Closure" in ck or "ReifyFn" in ck: return v
            return v
        if k == "discr":
            v = self.rdl(self.lval(fr, r[1], st), st)
            return self.discr(v, self.placetype(fr, r[1]))
        if k == "agg":
            vs = [self.operand(fr, x, st) for x in r[2]]
            a = r[1]
            if a[0] == "tuple": return agg("tuple", 0, *vs)
            if a[0] == "array": return lit(*vs)
            if a[0] == "adt":
                ad = self.mir.adts[a[1]]
                return agg(ad["path"], a[2], *vs)
            if a[0] == "closure": return agg("closure:" + a[1], 0, *vs)
            return unk("agg")
        if k == "repeat":
            v = self.operand(fr, r[1], st)
            try: return const(num(int(r[2].split("_")[0])), v)
            except ValueError: return unk("repeat")
        return unk("rvalue " + k)
    def adt_by_path(self, path):
        if not hasattr(self, "_adtp"): self._adtp = {a["path"]: a for a in self.mir.adts.values()}
        return self._adtp.get(path)
    def discr(self, v, t):
        if v.op == "agg":
            ad = self.adt_by_path(v.args[0])
            d = ad["v"][v.args[1]]["d"] if ad else v.args[1]
            if v.args[0] == "std::cmp::Ordering" and d > 127: d -= 256       # bit patterns of signed discriminants
            elif d >= 1 << 63: d -= 1 << 64
            return num(d)
        if v.op == "ite": return ite(v.args[0], self.discr(v.args[1], t), self.discr(v.args[2], t))
        if v is UNDEF: return UNDEF
        if v.unk: return P(unk("discr"))
        return P(mk("discr", v))
    def binop(self, fr, r, st, g, loc):
        op = r[1]
        a, b = self.operand(fr, r[2], st), self.operand(fr, r[3], st)
        if op in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne") and is_bool(a) and is_bool(b):
            return {"BitAnd": band, "BitOr": bor, "BitXor": lambda x, y: bite(x, bnot(y), y), "Eq": lambda x, y: bite(x, y, bnot(y)), "Ne": lambda x, y: bite(x, bnot(y), y)}[op](a, b)
        if a.op == "char" or b.op == "char":
            if a.op == b.op: e = TRUE if a is b else FALSE
            else: e = bvar(mk("opeq", a, b))
            if op == "Eq": return e
            if op == "Ne": return bnot(e)
            return bvar(unk("char cmp"))
        t = self.ty(self.optype(fr, r[2]))
        isint = self.is_int(fr, t)
        return self.arith(op, a, b, isint, isint and not self.signed(t, fr), g, loc, t)
    def arith(self, op, a, b, isint, unsigned, g, loc, t=None):
        if a.op != "poly": a = P(a)
        if b.op != "poly": b = P(b)
        ov = op.endswith("WithOverflow")
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op == "Add": v = add(a, b)
        elif op == "Sub":
            v = sub(a, b)
            if unsigned: self.event("underflow", band(g, lt(a, b)), loc, (a, b))
        elif op == "Mul": v = mul(a, b)
        elif op == "Div":
            if isint:
                self.event("div0", band(g, eq0(b)), loc, (b,))
                v = idiv(a, b)
            else: v = tdiv(a, b)
        elif op == "Rem": v = irem(a, b) if isint else P(mk("trem", a, b))
        elif op in ("Eq", "Ne"):
            e = eq(a, b) if isint else teq(a, b)
            return e if op == "Eq" else bnot(e)
        elif op == "Lt": return lt(a, b) if isint else tlt(a, b)
        elif op == "Le": return le(a, b) if isint else tle(a, b)
        elif op == "Gt": return lt(b, a) if isint else tlt(b, a)
        elif op == "Ge": return le(b, a) if isint else tle(b, a)
        elif op == "Shl" and is_num(b): v = mul(a, num(1 << nval(b)))
        elif op == "Shr" and is_num(b): v = idiv(a, num(1 << nval(b)))
        elif op == "BitAnd" and is_num(b) and (nval(b) + 1) & nval(b) == 0: v = irem(a, num(nval(b) + 1))
        elif op == "BitAnd" and is_num(a) and (nval(a) + 1) & nval(a) == 0: v = irem(b, num(nval(a) + 1))
        elif op == "Cmp": return mk("cmp", a, b)
        else: v = P(unk("op " + op))
        return tup(v, FALSE) if ov else v

    # ------------------------------------------------------------ frames / functions
    def holds_guard(self, t, d=0):
        """a type that owns a lock guard"""
        t = self.ty(t)
        if t["k"] == "tuple": return any(self.holds_guard(x, d + 1) for x in t["a"])
        if t["k"] != "adt" or d > 4: return False
        if "Guard" in t["p"].split("::")[-1]: return True
        if any(self.holds_guard(x, d + 1) for x in t.get("a", ()) if isinstance(x, int)): return True
        ad = next((a for a in self.mir.adts.values() if a["path"] == t["p"]), None)
        return bool(ad and ad["local"]) and any(self.holds_guard(f["ty"], d + 1) for v in ad["v"] for f in v["f"])
    def frame(self, f, fid, body=None):
        fr = Frame(); fr.fn = f; fr.body = body or f["body"]; fr.fid = fid; fr.cells = {}
        key = (f["id"], id(fr.body))
        c = self.cfgs.get(key)
        if c is None: c = self.cfgs[key] = Cfg(fr.body, {i for i, t in enumerate(fr.body["locals"]) if self.holds_guard(t)})
        fr.cfg = c
        fr.ints = {n for n, tr in f.get("preds", []) if tr in ("traits::Integer", "num_traits::PrimInt")}
        fr.sints = {n for n, tr in f.get("preds", []) if tr in ("num_traits::Signed", "std::ops::Neg")} & fr.ints
        if self.allsigned: fr.sints = fr.ints
        return fr
    def run_body(self, fr, st, whole=False):
        self.stack.append(fr.fn["id"])
        try:
            exits = self.region(fr, set(fr.cfg.rpo), 0, st, TRUE, None)
        finally: self.stack.pop()
        rets = [(g, s) for t, g, s in exits if t == "ret"]
        G, s = self.merge(rets)
        if s is None: return None
        r = s.get(fr.cell(0), UNIT)
        st.clear()
        for c, v in s.items():
            if whole or not (c.op == "cell" and c.args[0] == fr.fid): st[c] = v
        return r
    def call_local(self, f, args, st, site):
        fid = "%s/%s" % (site, f["id"])
        if len(self.stack) > 40 or self.stack.count(f["id"]) > 0:
            self.note("recursion " + f["id"]); return unk("recursion")
        fr = self.frame(f, fid)
        for i, a in enumerate(args): st[fr.cell(i + 1)] = a
        return self.run_body(fr, st)
    def call_closure(self, c, args, st, site):
        """call a function value"""
        for _ in range(4):
            if c.op == "ref": cv = self.deref(c, st); 
            else: break
            if cv.op in ("ref",): c = cv; continue
            cref, c = c, cv
            break
        else: cref = None
        if c.op == "ite":
            g = c.args[0]
            s1, s2 = dict(st), dict(st)
            r1 = self.call_closure(c.args[1], args, s1, site + "a"); r2 = self.call_closure(c.args[2], args, s2, site + "b")
            _, s = self.merge([(g, s1), (bnot(g), s2)])
            st.clear(); st.update(s)
            return ite(g, r1, r2)
        if c.op == "agg" and str(c.args[0]).startswith("closure:"):
            f = self.mir.fns.get(c.args[0][8:])
            if f is None: return unk("closure")
            t1 = self.ty(f["body"]["locals"][1])
            cell = mk("cell", "clo", site)
            if t1["k"] == "ref":
                st[cell] = c
                ref = mk("ref", cell, ())
                # by-mut captures write through refs inside; by-value captured state is written back below
                r = self.call_local(f, [ref] + list(args), st, site)
                st.pop(cell, None)
                return r
            return self.call_local(f, [c] + list(args), st, site)
        if c.op == "fnval":
            f = self.mir.fns.get(c.args[0]); ct = self.contracts.get(c.args[0])
            if ct is not None: return ct(self, list(args), st, TRUE, getattr(self, "curloc", ""))
            if f: return self.call_local(f, list(args), st, site)
            fn = self.fnvals.get(c) or {"p": c.args[1], "name": c.args[1].split("::")[-1], "a": [], "trait": None, "impl": None}
            if str(fn.get("kind", "")).startswith("Ctor("):
                # a tuple constructor used as a function
                for ad in self.mir.adts.values():
                    for k, v in enumerate(ad["v"]):
                        if fn["p"] in (ad["path"], ad["path"] + "::" + v["n"]): return mk("agg", ad["path"], k, *args)
                if fn["p"].split("::")[-1] == "Some": return models.some(args[0])
                return unk("constructor")
            return models.call(self, None, fn, list(args), [], None, st, TRUE, site, site)
        if c.op in ("fnsym",):
            return self.app(c, args, st)
        return unk("indirect call")
    def app(self, c, args, st):
        a = [self.rdd(x, st) for x in args]
        t = mk("app", c.args[0], *a)
        return P(t) if c.args[1] == "t" else bvar(t) if c.args[1] == "b" else t

    def merge(self, lst):
        lst = [(g, s) for g, s in lst if g is not FALSE]
        if not lst: return FALSE, None
        G, S = lst[0]
        if len(lst) > 1:
            S = dict(S)
        for g, s in lst[1:]:
            tot = bor(G, g)
            c = brestrict(g, tot)
            keys = S.keys() | s.keys() if len(S) != len(s) or S.keys() != s.keys() else S.keys()
            for k in keys:
                a, b = s.get(k), S.get(k)
                if a is b: continue
                if a is None: continue
                if b is None: S[k] = a; continue
                S[k] = ite(c, a, b)
            G = tot
        return G, S

    # ------------------------------------------------------------ regions
    def region(self, fr, nodes, entry, st, g0, loophead):
        pend = {entry: [(g0, st)]}
        exits = []
        cfg = fr.cfg
        live = cfg.live_in
        fid = fr.fid
        for b in cfg.rpo:
            if b not in pend or b not in nodes: continue
            g, s = self.merge(pend.pop(b))
            if s is None: continue
            lv = live[b]
            s = {c: v for c, v in s.items() if c.args[0] != fid or c.args[1] in lv}
            if b in cfg.loops and b != loophead:
                outs = self.mirloop(fr, b, s, g)
            else:
                outs = self.block(fr, b, s, g)
            for t, ge, se in outs:
                if ge is FALSE: continue
                if t == "ret" or t == "skip": exits.append((t, ge, se))
                elif t == loophead: exits.append(("latch", ge, se))
                elif t in nodes: pend.setdefault(t, []).append((ge, se))
                else: exits.append((t, ge, se))
        return exits

    def block(self, fr, b, s, g):
        bl = fr.body["blocks"][b]
        for x in bl["s"]:
            if x[0] == "=":
                v = self.rvalue(fr, x[2], s, g, x[3])
                self.wrl(self.lval(fr, x[1], s), v, s)
            elif x[0] == "dead": s.pop(fr.cell(x[1]), None)
            elif x[0] == "sd":
                self.note("set discriminant")
        t = bl["t"]; k = t[0]
        if k == "goto": return [(t[1], g, s)]
        if k == "ret": return [("ret", g, s)]
        if k == "drop":
            if not t[1][1] and native.HELD in s: native.drop(s.get(fr.cell(t[1][0]), UNDEF), s)
            return [(t[2], g, s)]
        if k == "switch":
            v = self.operand(fr, t[1], s)
            outs = []; rest = g
            wrap = 0
            if len(t) > 4 and self.ty(t[4])["k"] == "int" and self.ty(t[4])["n"] in INT_SIGNED:      # the targets are listed as bit patterns
                w = self.ty(t[4])["n"][1:]; wrap = 1 << (64 if w == "size" else int(w))
            for val, tgt in t[2]:
                n = int(val)
                if wrap and n >= wrap >> 1: n -= wrap
                if is_bool(v): c = v if n else bnot(v)
                elif v.op == "char": c = TRUE if v.args[0] == n else FALSE
                elif v.op == "poly": c = eq(v, num(n))
                else: c = bvar(mk("opeq", v, num(n)))
                outs.append((tgt, band(rest, c)))
                rest = band(rest, bnot(c))
            outs.append((t[3], rest))
            outs = [(a, ge) for a, ge in outs if ge is not FALSE]
            res = []
            for i, (a, ge) in enumerate(outs):
                res.append((a, ge, s if i == len(outs) - 1 else dict(s)))
            return res
        if k == "assert":
            m = t[3]; c = self.operand(fr, t[1], s)
            if not is_bool(c): c = bvar(c)
            bad = bnot(c) if t[2] else c
            if m[0] == "bounds":
                n, i = self.operand(fr, m[1], s), self.operand(fr, m[2], s)
                self.event("bounds", band(g, bad), t[5], (i, n))
            elif m[0] == "div0": self.event("div0", band(g, bad), t[5])
            else: self.event("assert", band(g, bad), t[5])
            return [(t[4], g, s)]
        if k == "call":
            return self.call(fr, b, t, s, g)
        return []

    def call(self, fr, b, t, s, g):
        fo, loc = t[1], t[5]
        args = [self.operand(fr, a, s) for a in t[2]]
        site = "%s.%d" % (fr.fid, b)
        res = None
        if fo[0] == "k" and fo[1]["k"] == "fn":
            fn = fo[1]["fn"]
            rid = fn["res"] or ""
            f = self.mir.fns.get(rid)
            ct = self.contracts.get(rid)
            if ct is not None:
                res = ct(self, args, s, g, loc)
            elif f is not None:
                if f["kind"] == "Closure" and len(args) == 2 and "{closure" not in str(fn["p"]).split("::")[-1]:
                    # resolved call of a closure: its arguments arrive as one tuple
                    n = f["body"]["argc"] - 1
                    args = [args[0]] + [field(args[1], i) for i in range(n)]
                self.curloc = loc
                saved = self.ev; self.ev = []
                res = self.call_local(f, args, s, site)
                for e in self.ev:
                    e.guard = band(g, e.guard); saved.append(e)
                self.ev = saved
            else:
                res = models.call(self, fr, fn, args, t[6], t[7], s, g, loc, site)
        else:
            fv = self.operand(fr, fo, s)
            saved = self.ev; self.ev = []
            self.curloc = loc
            res = self.call_closure(fv, args, s, site)
            for e in self.ev:
                e.guard = band(g, e.guard); saved.append(e)
            self.ev = saved
        if res is None or t[4] is None:
            if not self.ev or self.ev[-1].kind != "panic" or self.ev[-1].loc != loc:
                self.event("panic", g, loc)
            return []
        if isinstance(res, tuple) and res[0] == "skip":
            # iterator with a filter: (has, keep, option, state_skip)
            _, keep, val, skipst = res
            d = self.lval(fr, t[3], s); self.wrl(d, val, s)
            # target of the innermost loop containing this block
            heads = [h for h, L in fr.cfg.loops.items() if b in L]
            if heads:
                h = min(heads, key=lambda h: len(fr.cfg.loops[h]))
                outs = [(t[4], band(g, keep), s), (h, band(g, bnot(keep)), skipst)]
                return outs
            self.note("filter outside loop"); res = unk("filter")
        res = self.coerce(fr, res, t[7])
        self.wrl(self.lval(fr, t[3], s), res, s)
        return [(t[4], g, s)]

    def mirloop(self, fr, h, s, g):
        L = fr.cfg.loops[h]
        def body(st):
            ex = self.region(fr, L, h, st, TRUE, h)
            return ex
        live = fr.cfg.live_in
        fid = fr.fid
        def keep(tag, c):
            if c.args[0] != fid: return True
            if tag == "ret": return c.args[1] == 0
            return c.args[1] in live[tag]
        bl = fr.body["blocks"][h]
        loc = bl["t"][5] if bl["t"][0] == "call" else fr.fn["loc"]
        for x in bl["s"]:
            if x[0] == "=": loc = x[3]; break
        import loops
        outs = loops.eval_loop(self, s, body, g, loc, keep)
        return [(t, band(g, ge), se) for t, ge, se in outs]

def idiv(a, b):
    if is_num(b) and nval(b) == 1: return a
    if is_num(a) and is_num(b) and nval(b) != 0: return num(int(nval(a) / nval(b)) if nval(a) >= 0 else -((-nval(a)) // nval(b)))
    return P(mk("idiv", a, b))
def irem(a, b):
    if is_num(b) and nval(b) == 1: return ZERO
    if is_num(a) and is_num(b) and nval(b) != 0 and nval(a) >= 0: return num(nval(a) % nval(b))
    return P(mk("irem", a, b))
def tdiv(a, b):
    if is_num(b) and nval(b) == 1: return a
    return P(mk("tdiv", a, b))
REBUILD["idiv"] = idiv; REBUILD["irem"] = irem; REBUILD["tdiv"] = tdiv
def _fieldpoly(a, i, v): return field(a, i, v if v >= 0 else None)
