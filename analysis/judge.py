"""Meaning of a function summary on a finite structure: binding of arguments, events, decoded results."""
import signal, time, sys
from terms import *
import terms as TM
from evalterm import *
import run, contracts, targets, native, signatures

ORACLES = dict(contracts.ORACLES); ORACLES.update(native.ORACLES)
class Bot:
    def __init__(s, why): s.why = why
    def __repr__(s): return "?(%s)" % s.why
class V:
    """plain record"""
    def __init__(s, **k): s.__dict__.update(k)
    def __repr__(s): return "%s(%s)" % (type(s).__name__, ", ".join("%s=%r" % kv for kv in s.__dict__.items()))
    def __eq__(s, o): return type(s) is type(o) and s.__dict__ == o.__dict__
class CSRv(V): pass
class CSCv(V): pass
class COOv(V): pass
class DOKv(V): pass
class Some(V): pass
class Ok(V): pass
class Err(V): pass
class Enum(V): pass
class Variant(V):
    """a variant of a local enum, by name"""
    def __init__(s, enum, name): s.enum, s.name = enum, name
class Hidden(V):
    """an extra item of a structure that only the check reads"""
NONE_ = Enum(tag="Option", variant=0)
def csr(rows, cols, p, j, x): return CSRv(rows=rows, cols=cols, rowptr=p, colidx=j, values=x)
def csc(rows, cols, i, p, x): return CSCv(rows=rows, cols=cols, rowidx=i, colptr=p, values=x)
def coo(rows, cols, i, j, x): return COOv(rows=rows, cols=cols, rowidx=i, colidx=j, values=x)
def dok(rows, cols, d): return DOKv(rows=rows, cols=cols, values=d)
STRUCT = {"CSR": CSRv, "CSC": CSCv, "Coo": COOv, "DoK": DOKv}
FIELDS = {"CSR": ("rows", "cols", "rowptr", "colidx", "values"), "CSC": ("rows", "cols", "rowidx", "colptr", "values"),
          "Coo": ("rows", "cols", "rowidx", "colidx", "values"), "DoK": ("rows", "cols", "values")}

class Tree:
    """one analysed source tree"""
    def __init__(self, mir, limit=60):
        self.m = mir; self.idx = targets.index(mir); self.cache = {}; self.limit = limit
        self.lost = signatures.align(mir, self.idx)
        here = {f["id"] for l in self.idx.values() for f in l}
        self.ct = {k: contracts.contract(k) for k in contracts.K if k in here}
        self.adt = {}
        for a in mir.adts.values():
            if a["local"] and len(a["v"]) == 1: self.adt[a["path"]] = a
        self.roles()
    def roles(self):
        """field roles; private fields renamed in declaration order keep their role through the accessors"""
        run.ROLES.clear(); self.order = {}
        for p, a in self.adt.items():
            n = p.split("::")[-1]
            if n not in FIELDS: continue
            fs = [f["n"] for f in a["v"][0]["f"]]
            if sorted(fs) == sorted(FIELDS[n]): self.order[n] = fs; continue
            ro = {}
            for role in FIELDS[n]:
                if role in fs: ro[role] = role
            for role in FIELDS[n]:
                if role in ro: continue
                for f in self.idx.get("%s::%s" % (n, role), []):
                    k = returned_field(self.m, f)
                    if k is not None and fs[k] not in ro.values(): ro[role] = fs[k]
            left = [f for f in fs if f not in ro.values()]; miss = [r for r in FIELDS[n] if r not in ro]
            if len(left) == len(miss): ro.update(dict(zip(miss, left)))
            inv = {v: k for k, v in ro.items()}
            self.order[n] = [inv.get(f, f) for f in fs]
            for f in fs: run.ROLES[(p, f)] = inv.get(f, f)
    def variant(self, v):
        for a in self.m.adts.values():
            if a["local"] and a["path"].split("::")[-1] == v.enum:
                for i, x in enumerate(a["v"]):
                    if x["n"] == v.name: return A_(a["path"], i)
        raise Unknown("no such variant")
    def fn(self, label):
        l = self.idx.get(label, [])
        return l[0] if l else None
    def summary(self, label, ptr=True, which=0, contracts_on=True, limit=None, signed=False):
        key = (label, ptr, which, signed)
        if key in self.cache: return self.cache[key]
        l = self.idx.get(label, [])
        if len(l) <= which: s = None
        else:
            f = l[which]
            ct = {k: v for k, v in self.ct.items() if k != f["id"]}
            def alarm(*a): raise TimeoutError()
            old = signal.signal(signal.SIGALRM, alarm); signal.alarm(limit or self.limit)
            try:
                s = run.summarise(self.m, f["id"], {"#ptr": ptr, "#signed": signed}, ct)
                s.f = f; s.err = None
            except TimeoutError:
                s = run.Summary(); s.f = f; s.err = "summary takes too long"
            except (RecursionError, MemoryError) as e:
                s = run.Summary(); s.f = f; s.err = type(e).__name__
            except Exception as e:
                s = run.Summary(); s.f = f; s.err = "%s: %s" % (type(e).__name__, str(e)[:120])
            finally:
                signal.alarm(0); signal.signal(signal.SIGALRM, old)
            if s.err is None: s.serious = [n[0] for n in s.notes if serious(n[0])]
        self.cache[key] = s
        return s

def returned_field(m, f):
    b = f["body"]
    for bb in b["blocks"]:
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] in ("ref", "use"):
                pl = s[2][2] if s[2][0] == "ref" else (s[2][1][1] if s[2][1][0] in "cm" else None)
                if pl and pl[0] == 1:
                    k = [e[1] for e in pl[1] if e[0] == "f"]
                    if k: return k[0]
    return None
QUIET = ("iteration", "unsolved", "loop")
def serious(n):
    """notes after which the summary may be wrong rather than merely incomplete"""
    return n.startswith(("write through", "recursion", "filter outside", "set discriminant", "havoc"))

def bindval(m, apps, name, v):
    if isinstance(v, (CSRv, CSCv, COOv, DOKv)):
        for k, x in v.__dict__.items(): bindval(m, apps, "%s.%s" % (name, k), x)
    elif v is None: m[name + "?"] = False
    elif isinstance(v, Some): m[name + "?"] = True; bindval(m, apps, name + "!", v.v)
    elif callable(v): apps[name] = v; m[name] = v
    elif isinstance(v, dict):
        m[name] = Ix((freeze(Agg(("tuple", 0) + k)), x) for k, x in v.items())
    elif isinstance(v, tuple) and not isinstance(v, Agg):
        for i, x in enumerate(v): bindval(m, apps, "%s.%d" % (name, i), x)
        m[name] = v
    else:
        m[name] = v
        if isinstance(v, list) and len(v) <= 4:
            for i, x in enumerate(v):
                if isinstance(x, (V, list)): bindval(m, apps, "%s.%d" % (name, i), x)

class Outcome:
    """panic: Event | None | Bot ; ret / out(i) decoded lazily"""
    def __init__(self, tree, s, args, imax=None, order=0, dump=None, depth=0):
        self.s = s; self.tree = tree; m = {}; apps = {}
        for i, a in enumerate(args):
            if isinstance(a, Hidden): m.update(a.__dict__.get("env", {})); continue
            bindval(m, apps, "a%d" % i, tree.variant(a) if isinstance(a, Variant) else a)
        if imax is not None: m["#IMAX"] = imax
        if order: m["#order"] = order
        self.E = Ev(m, ORACLES, apps, s.st)
        self.depth = depth
        if depth < 3: self.E.own = lambda name, a: self.own(name, a, imax, order)
        self.events()
    def own(self, name, args, imax, order):
        """the kernel's summary in place of its contract, where the contract does not apply"""
        if name not in contracts.K: raise Unknown("no summary")
        s = self.tree.summary(name.split("::")[-1])
        if s is None or s.err or s.serious: raise Unknown("no summary")
        o = Outcome(self.tree, s, args, imax=imax, order=order, depth=self.depth + 1)
        if o.panic is not None: raise Panic("%s in %s" % (o.panic.kind, name))
        if o.evunk is not None: raise Unknown("events of %s" % name)
        r = {k: o.ret if k == "ret" else o.out(k) for k in contracts.K[name][1]}
        if not known(list(r.values())): raise Unknown("parts of %s" % name)
        return r
    def events(self):
        self.panic = None; self.evunk = None; self.overflow = None; self.fired = []; self.bad = False
        for e in self.s.ev:
            try: v = self.E.certain(e.guard)
            except (Unknown, Stuck, Panic, RecursionError, OverflowError) as x:
                if e.kind == "assume": self.bad = True
                if not isinstance(x, Stuck) or True: self.evunk = self.evunk or (e, x)
                continue
            except TypeError as x:
                self.evunk = self.evunk or (e, Unknown("type")); continue
            if v is True and e.kind == "assume": self.evunk = self.evunk or (e, Unknown("assumption")); self.bad = True; continue
            if v is True:
                self.fired.append(e)
                if e.kind != "iadd": break
        if self.bad: self.fired = []
        for e in self.fired:
            if e.kind == "iadd": self.overflow = self.overflow or e
            else: self.panic = self.panic or e
    def val(self, t):
        if t is None: return Bot("diverges")
        if self.bad: return Bot("assumption of a loop summary does not hold here")
        try: return self.dec(t)
        except (Unknown, Panic) as x: return Bot(str(x))
        except Stuck as x: return Bot("undefined: %s" % x)
        except (TypeError, AttributeError, RecursionError, OverflowError, IndexError, ZeroDivisionError) as x: return Bot("%s %s" % (type(x).__name__, str(x)[:60]))
    @property
    def ret(self):
        if not hasattr(self, "_ret"): self._ret = self.val(self.s.ret)
        return self._ret
    def out(self, i):
        n = "a%d" % i
        if n not in self.s.out: return Bot("no such output")
        return self.val(self.s.out[n])
    def dec(self, t):
        if t.op == "agg":
            return self.rec(t.args[0], t.args[1], [self.val(x) for x in t.args[2:]])
        if t.op == "ite":
            return self.dec(t.args[1] if self.E.ev(t.args[0]) else t.args[2])
        if t.op == "ref":
            v = self.s.st.get(t.args[0])
            if v is not None and not t.args[1]: return self.dec(v)
        if t.op == "box": return self.dec(t.args[0])
        return self.conv(self.E.ev(t))
    def conv(self, v):
        if isinstance(v, Agg): return self.rec(v[0], v[1], [self.conv(x) for x in v[2:]])
        if isinstance(v, list): return [self.conv(x) for x in v]
        if isinstance(v, Ix): return {(k[3:] if isinstance(k, tuple) and k[:3] == ("A", "tuple", 0) else k): self.conv(x) for k, x in v.items()}
        return v
    def rec(self, tag, variant, fs):
        if tag == TM.OPT: return Some(v=fs[0]) if variant == 1 else NONE_
        if tag == TM.RES: return Ok(v=fs[0]) if variant == 0 else Err(v=fs[0] if fs else None)
        if tag == "tuple": return tuple(fs)
        n = str(tag).split("::")[-1]
        if n in STRUCT and len(fs) == len(self.tree.order[n]):
            return STRUCT[n](**dict(zip(self.tree.order[n], fs)))
        if n == "Mat": return Enum(tag="Mat", variant=0, f=fs)
        if tag in ("div0", "errv", "disp", "pretty"): return A_(tag, variant, *fs)
        return Enum(tag=str(tag), variant=variant, f=fs)

def known(v):
    """no Bot inside"""
    if isinstance(v, Bot): return False
    if isinstance(v, V): return all(known(x) for x in v.__dict__.values())
    if isinstance(v, (list, tuple)): return all(known(x) for x in v)
    if isinstance(v, dict): return all(known(x) for x in v.values())
    return True
