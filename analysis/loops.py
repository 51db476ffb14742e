"""Loop summarisation: one symbolic pass over the loop body gives the recurrence system of the loop
(phi -> f(phi)); the system is solved in closed form (linear counters, reductions, scatters, prefix scans,
appends, first-exit searches).  What has no closed form stays in the summary as a recurrence operator (its meaning:
the least fixpoint over a finite structure); what cannot even be put as one becomes an explicit unknown.
"""
from terms import *
import terms as TM

SEQOPS = {"splice", "llnext", "lluniq", "llclear", "lit", "const", "lam", "append", "store", "slice", "sseq", "hole", "concat", "resize", "sorted", "sortedm", "K", "recs"}
MAPOPS = {"recm", "smap", "emptymap", "mapins", "maprem", "updmap"}

class Unsolved(Exception): pass

def isseq(v):
    return v.op in SEQOPS or (v.op == "ite" and isseq(v.args[1])) or (v.op == "read" and isinstance(v.args[3], tuple) and v.args[3][0] == "S") \
        or (v.op == "K" and isinstance(v.args[0], str) and v.args[1] is not None and False)
def ismap(v):
    return v.op in MAPOPS or (v.op == "ite" and ismap(v.args[1])) or (v.op == "hole" and isinstance(v.args[1], tuple) and v.args[1][0] == "M")

def implied(g, lit):
    return bite(g, bnot(lit), FALSE) is FALSE

def nonneg_under(p, g):
    if nonneg(p): return True
    it = single_atom(p)
    if it is not None and it.op == "ite":
        return nonneg_under(it.args[1], band(g, it.args[0])) and nonneg_under(it.args[2], band(g, bnot(it.args[0])))
    for a in batoms(g):
        if a.op != "lt0": continue
        for pos in (True, False):
            l = bvar(a) if pos else bnot(bvar(a))
            if implied(g, l):
                q = neg(add(TM._ineq(a, pos), ONE))     # q >= 0
                if nonneg(sub(p, q)): return True
        
    return False

class Leaf:
    """one changing component of the loop state"""
    __slots__ = ("cell", "path", "kind", "phi", "sym", "init", "f", "val", "nn", "push", "es", "name", "lensym")

def getpath(v, path):
    for k in path: v = field(v, k)
    return v
def setpath(v, path, x):
    if not path: return x
    a = list(v.args); a[2 + path[0]] = setpath(a[2 + path[0]], path[1:], x)
    return mk("agg", *a)

def shape_diff(a, b, path=()):
    """paths where a and b differ"""
    if a is b: return []
    if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) and len(a.args) > 2:
        r = []
        for i in range(len(a.args) - 2): r += shape_diff(a.args[2 + i], b.args[2 + i], path + (i,))
        return r
    return [path]

_n = [0]
def mkleaf(cell, path, init, new):
    l = Leaf(); l.cell, l.path, l.init = cell, path, init
    _n[0] += 1
    nm = "phi%d" % _n[0]
    l.name = nm; l.push = False; l.es = None; l.val = None; l.f = None; l.lensym = None
    if ismap(init) or (init.op == "hole" and isinstance(init.args[1], tuple) and init.args[1][0] == "M"):
        import models
        l.kind = "map"
        vs = models.mapvs(init)
        if vs is None and ismap(new): vs = models.mapvs(new)
        l.es = ("M", vs); l.phi = l.sym = hole(nm, l.es, None)
    elif isseq(init):
        l.kind = "seq"; l.es = esort(init) or (esort(new) if isseq(new) else None)
        l.phi = l.sym = hole(nm, l.es, length(init))
    elif is_bool(init):
        l.kind = "bool"; l.sym = mk("sym", nm, ""); l.phi = bvar(l.sym)
    elif init.op == "poly":
        l.kind = "poly"; l.nn = nonneg(init)
        l.sym = mk("sym", nm, "nn" if l.nn else ""); l.phi = P(l.sym)
    else:
        l.kind = "opaque"; l.sym = mk("sym", nm, "o"); l.phi = l.sym
    return l

def eval_loop(I, st0, body, g, loc, keep):
    saved_ev = I.ev
    saved_notes = len(I.notes)
    leaves = []
    ok_ = False
    stats = dict(I.loopstats)
    for it in range(16):
        st = dict(st0)
        for l in leaves: st[l.cell] = setpath(st[l.cell], l.path, l.phi)
        base = dict(st)
        I.ev = []; del I.notes[saved_notes:]; I.loopstats = dict(stats)
        exits = body(st)
        lat = [(ge, se) for t, ge, se in exits if t == "latch"]
        gl, sl = I.merge(lat)
        if sl is None:
            # the body never comes back: not a loop on these paths
            for e in I.ev: saved_ev.append(e)
            I.ev = saved_ev
            return [(t, ge, se) for t, ge, se in exits]
        again = False
        for c, v0 in base.items():
            v1 = sl.get(c)
            if v1 is None or v1 is v0: continue
            for p in shape_diff(v0, v1):
                known = [l for l in leaves if l.cell is c and l.path == p[:len(l.path)]]
                if known: continue
                # a shorter path swallows longer ones
                leaves = [l for l in leaves if not (l.cell is c and l.path[:len(p)] == p)]
                leaves.append(mkleaf(c, p, getpath(st0[c], p), getpath(v1, p)))
                again = True
        if not again:
            for l in leaves:
                f = getpath(sl[l.cell], l.path) if l.cell in sl else UNDEF
                l.f = f
                if l.kind == "poly" and l.nn and not (f.op == "poly" and nonneg_under(f, gl)):
                    l.nn = False; l.sym = mk("sym", l.name, ""); l.phi = P(l.sym); again = True
                elif l.kind == "seq" and not l.push:
                    if not isseq(f) or length(f) is not length(l.phi):
                        l.push = True; l.lensym = mk("sym", l.name + "n", "nn")
                        if l.es is None and isseq(f): l.es = esort(f)
                        l.phi = l.sym = hole(l.name, l.es, P(l.lensym)); again = True
                elif l.kind in ("seq", "map") and l.es is None and isseq(f) and esort(f) is not None:
                    l.es = esort(f); l.phi = l.sym = hole(l.name, l.es, P(l.lensym) if l.push else length(l.init)); again = True
                elif l.kind == "map" and l.es[1] is None:
                    import models
                    vs = models.mapvs(f) if ismap(f) else None
                    if vs is not None: l.es = ("M", vs); l.phi = l.sym = hole(l.name, l.es, None); again = True
        if not again: ok_ = True; break
    ev = I.ev; I.ev = saved_ev
    S = Solver(I, st0, leaves, gl, exits, ev, g, loc)
    if ok_:
        saved = (len(saved_ev), len(I.notes), [(l, l.f) for l in leaves], [(e, e.guard, e.data) for e in ev], dict(I.loopstats))
        try:
            outs = S.solve()
        except Unsolved as e:
            S.why = str(e); outs = None
        if (outs is None or S.partial) and not any(l.f.unk for l, _ in saved[2]) and not gl.unk:
            why = S.why
            del saved_ev[saved[0]:]; del I.notes[saved[1]:]; I.loopstats = saved[4]
            for l, f in saved[2]: l.f = f; l.val = None
            for e, gd, dt in saved[3]: e.guard, e.data = gd, dt
            S = Solver(I, st0, leaves, gl, exits, ev, g, loc); S.why = why
            outs = S.recursion()
    else: outs = None
    if outs is None:
        outs = S.unsolved()
    res = []
    for t, ge, se in outs:
        if ge is FALSE: continue
        res.append((t, ge, {c: v for c, v in se.items() if (c in st0 or keep(t, c)) and keep(t, c)}))
    return res

DEBUG = False
class Solver:
    def __init__(self, I, st0, leaves, gl, exits, ev, g, loc):
        self.I, self.st0, self.leaves, self.gl, self.ev, self.loc = I, st0, leaves, gl, ev, loc
        self.g = g
        self.exits = [(t, ge, se) for t, ge, se in exits if t != "latch"]
        self.why = ""; self.partial = False
        self.syms = {}
        for l in leaves:
            self.syms[l.sym] = l
            if l.push: self.syms[l.lensym] = l
    # ------------------------------------------------------------------
    def phis(self, t): return {s for s in t.fv if s in self.syms}

    def solve(self):
        gl = self.gl
        # panicking paths are reported as events; assume they are not taken
        cover = gl
        for t, ge, _ in self.exits: cover = bor(cover, ge)
        self.panicg = bnot(cover)
        pick = self.primary()
        if pick is None: pick = self.jump()
        mg = self.merge() if pick is None else None
        if pick is None and mg is None:
            if DEBUG: print("PICK", self.loc, show(gl)[:600], [(l.kind, l.name, show(l.f)[:200]) for l in self.leaves])
            raise Unsolved("no counter with a bound")
        if mg is not None:
            self.lo, self.kap, self.m, hi, bound = mg
            his = [hi]; lits = []; c = ONE; l = None
        else:
            l, c, lits = pick
            x0 = l.init
            if c is ONE:
                self.lo = x0
                self.kap = fresh("k", "nn" if nonneg(x0) else "")
                prim = P(self.kap)
            else:
                self.lo = ZERO
                self.kap = fresh("k", "nn")
                prim = add(x0, mul(c, P(self.kap)))
            # values of the solved leaves at the start of iteration kap
            self.m = {l.sym: prim}
            l.val = prim
            his = []
            bound = TRUE
        K = P(self.kap)
        # other linear counters
        for o in self.leaves:
            if o is l or o.kind != "poly" or o.val is not None: continue
            d = sub(o.f, o.phi) if o.f.op == "poly" else None
            if d is not None and not self.phis(d):
                o.val = add(o.init, mul(d, sub(K, self.lo)))
                self.m[o.sym] = o.val
        # bound
        for p in lits:
            q = subst(p, self.m)
            cl = coeff_linear(q, self.kap)
            if cl is None: raise Unsolved("bound not linear")
            a, rest = cl
            if self.phis(rest): continue
            if is_num(a) and nval(a) == 1: his.append(neg(rest))
            else: his.append(ceildiv(neg(rest), a, self, rest))
            bound = band(bound, lt0(p))
        if not his: raise Unsolved("no usable bound")
        hi = his[0]
        for h in his[1:]: hi = minp(hi, h)
        self.hi = hi
        self.bound = bound
        if not (is_num(c)):
            # a zero step never terminates
            self.I.event("nonterm", band(self.g, self.inst(gl, {o.sym: o.init for o in self.leaves}), eq0(c)), self.loc)
        R = brestrict(bor(gl, self.panicg), bound)
        self.resolve_leaves()
        m = self.m
        R = subst(R, m, None)
        care_in = band(le(self.lo, K), lt(K, hi)) if False else lt(K, hi)
        R = imp_lits(care_in, R) if is_bool(R) else R
        if R.unk: raise Unsolved("exit condition unknown")
        lo = self.lo
        inv = TRUE
        if R is not TRUE and R is not FALSE and is_bool(R):
            for a in batoms(R):
                if a.fv & self.allsyms: continue
                for lt_ in (bvar(a), bnot(bvar(a))):
                    if implied(R, lt_): inv = band(inv, lt_); R = brestrict(R, lt_); break
        if inv is not TRUE:
            # the whole loop is skipped unless a loop-invariant condition holds
            hi = self.hi = ite(inv, hi, lo)
            bound = self.bound = band(bound, inv)
        end = hi if known_ge(hi, lo) else maxp(lo, hi)
        self.I.loopstats["solved"] += 1
        outs = []
        nb = bnot(bound)
        early = [(t, brestrict(band(ge, bound), bound), se) for t, ge, se in self.exits if band(ge, bound) is not FALSE]
        late = [(t, brestrict(band(ge, nb), nb), se) for t, ge, se in self.exits if band(ge, nb) is not FALSE]
        if R is TRUE: early = []; E = FALSE; KE = None
        else:
            nR = bnot(R)
            E = exists(self.kap, lo, hi, nR)
            KE = first(self.kap, lo, hi, nR)
            if E is FALSE: early = []
        mE = None
        if early:
            mE = self.at(KE)
        mL = self.at(end)
        for lst, mm, G in ((early, mE, E), (late, mL, bnot(E))):
            single = len(lst) == 1
            tot = FALSE
            for i, (t, ge, se) in enumerate(lst):
                if single: gg = G
                else:
                    x = self.inst(ge, mm)
                    if i == len(lst) - 1: gg = band(G, bnot(tot))
                    else:
                        gg = band(G, bnot(tot), x); tot = bor(tot, x)
                if gg is FALSE: continue
                outs.append((t, gg, {c: (self.inst(v, mm) if self.needs(v) else v) for c, v in se.items()}))
        if not self.exits: self.I.event("nonterm", self.g, self.loc)
        self.emit_events(E, KE, hi)
        return outs
    def needs(self, v):
        return bool(v.fv & self.allsyms)
    @property
    def allsyms(self):
        if not hasattr(self, "_as"): self._as = frozenset(self.syms) | {self.kap}
        return self._as
    def at(self, k):
        m = {self.kap: k}
        for s, v in self.m.items(): m[s] = subst(v, {self.kap: k})
        return m
    def inst(self, t, mm):
        r = subst(t, mm)
        return r
    def emit_events(self, E, KE, hi):
        if not self.ev: return
        K = P(self.kap)
        if E is FALSE: hi2 = hi
        else: hi2 = None
        for e in self.ev:
            gq = subst(e.guard, self.m)
            if gq is FALSE: continue
            inside = brestrict(e.guard, bnot(self.bound))
            h = hi2
            # events guarded by the bound (inside the body) happen for kap<hi; header events also at kap==hi
            if band(e.guard, bnot(self.bound)) is FALSE:
                gq = subst(brestrict(e.guard, self.bound), self.m)
                top = hi
            else: top = add(hi, ONE)
            if E is FALSE: lim = top
            else: lim = None
            if lim is not None: gx = exists(self.kap, self.lo, lim, gq)
            else: gx = exists(self.kap, self.lo, top, band(gq, le(K, KE)))
            gx = band(self.g, gx)
            if gx is FALSE: continue
            e.guard = gx
            e.data = tuple(d for d in e.data)
            self.I.ev.append(e)

    # ------------------------------------------------------------------ counters
    def primary(self):
        best = None
        for l in self.leaves:
            if l.kind != "poly" or l.f.op != "poly": continue
            d = sub(l.f, l.phi)
            d = undercare(d, self.gl)
            if self.phis(d) or d.unk: continue
            if is_num(d) and nval(d) == 0: continue
            lits = []
            for a in batoms(self.gl):
                if a.op != "lt0" or l.sym not in a.fv: continue
                for pos in (True, False):
                    lt_ = bvar(a) if pos else bnot(bvar(a))
                    if not implied(self.gl, lt_): continue
                    p = TM._ineq(a, pos)
                    cl = coeff_linear(p, l.sym)
                    if cl is None or not is_num(cl[0]): continue
                    # other phis may occur only as linear counters
                    if any(not self.linear(self.syms[s]) for s in self.phis(cl[1])): continue
                    sgn = nval(cl[0])
                    # total drift of p per iteration must be positive
                    dr = scale(d, sgn)
                    for s in self.phis(cl[1]):
                        o = self.syms[s]; c2 = coeff_linear(cl[1], s)
                        if c2 is None or not is_num(c2[0]): dr = None; break
                        dr = add(dr, scale(sub(o.f, o.phi), nval(c2[0])))
                    if dr is None: continue
                    if is_num(dr) and nval(dr) > 0 or (not is_num(dr) and nonneg(dr)): lits.append(p)
            if not lits:
                for a in batoms(self.gl):
                    # x != hi  with unit step
                    if a.op == "eq0" and l.sym in a.fv and implied(self.gl, bnot(bvar(a))) and is_num(d) and abs(nval(d)) == 1:
                        cl = coeff_linear(a.args[0], l.sym)
                        if cl is None or not is_num(cl[0]) or abs(nval(cl[0])) != 1 or self.phis(cl[1]): continue
                        e = neg(cl[1]) if nval(cl[0]) == 1 else cl[1]       # x != e
                        p = sub(l.phi, e) if nval(d) == 1 else sub(e, l.phi)
                        if nonneg(neg(subst(p, {l.sym: l.init}))):
                            # x <= e throughout: replace the literal by the inequality
                            self.gl = band(subst_atom(self.gl, a, bnot(lt0(p))))
                            self.exits = [(t, subst_atom(ge, a, bnot(lt0(p))), se) for t, ge, se in self.exits]
                            for ev in self.ev: ev.guard = subst_atom(ev.guard, a, bnot(lt0(p)))
                            lits.append(p)
                            break
            if not lits:
                p = self.splitbound(self.gl, l, d)
                if p is not None and p is not FALSE: lits.append(p)
            if not lits: continue
            rank = (0 if d is ONE else 1 if is_num(d) else 2, 0 if l.path or True else 1)
            if best is None or rank < best[0]: best = (rank, l, d, lits)
        if best is None: return None
        _, l, d, lits = best
        l.f = add(l.phi, d)
        return l, d, lits
    def jump(self):
        """v advances to the first later position whose key differs from the key at v (or to the bound): the
        positions visited are the starts of the runs of equal keys; the loop is put in unit-step form, doing
        nothing at the other positions"""
        for l in self.leaves:
            if l.kind != "poly" or l.f.op != "poly" or l.f.unk: continue
            v = l.phi
            for a in batoms(self.gl):
                if a.op != "lt0" or l.sym not in a.fv or self.gl is not bnot(bvar(a)) and self.gl is not bvar(a): continue
                p = TM._ineq(a, self.gl is bvar(a))
                cl = coeff_linear(p, l.sym)
                if cl is None or not is_num(cl[0]) or nval(cl[0]) != 1 or self.phis(cl[1]): continue
                H = neg(cl[1])
                fs = set()
                walk(l.f, lambda x: fs.add(x) if x.op == "first" else None)
                for fr in fs:
                    t, a0, b0, Q = fr.args
                    if a0 is not add(v, ONE) or b0 is not H: continue
                    at = batoms(Q)
                    if len(at) != 1: continue
                    at = list(at)[0]
                    if at.op not in ("eq0", "teq0") or Q is not bnot(bvar(at)): continue
                    kt, kv = TM._depsplit(at.args[0], t)
                    if l.sym in kt.fv: continue
                    if subst(kt, {t: v}) is not neg(kv): continue
                    if not self.is_jump(l.f, P(fr), H, fr): continue
                    # keys as they were before the loop
                    key = kt
                    conds = []; okk = True
                    for s in [x for x in self.leaves if x.kind == "seq" and x.sym in key.fv]:
                        cs = [c for c in self.leaves if c.kind == "poly" and as_splice(s.f, s.sym, c.phi) not in (None, EMPTY)]
                        if s.push or len(cs) != 1: okk = False; break
                        rs = set(); collect_reads(key, s.sym, rs)
                        for r in rs:
                            conds.append(lt(subst(r, {t: v}), cs[0].phi))
                            key = repl_read(key, s.sym, r, (), read(s.init, r), whole=True)
                    if not okk or self.phis(key): continue
                    k1, k0 = subst(key, {t: v}), subst(key, {t: TM.clip(sub(v, ONE), l.init)})
                    vis = bor(eq(v, l.init), bnot(eq0(sub(k1, k0)) if at.op == "eq0" else teq(k1, k0)))
                    for o in self.leaves:
                        if o is l: continue
                        o.f = ite(vis, o.f, o.phi) if not is_bool(o.f) else bite(vis, o.f, o.phi)
                    l.f = add(v, ONE)
                    inb = lt(v, H)
                    for e in self.ev:
                        if band(e.guard, bnot(inb)) is FALSE: e.guard = band(e.guard, vis)
                    self.bound = inb
                    for c in conds: self.assume_ev(band(vis, c))
                    return l, ONE, [p]
        return None
    def merge(self):
        """two positions advancing along two strictly increasing index runs, the smaller (or both, when equal)
        each time, while neither run is exhausted"""
        ls = []
        for l in self.leaves:
            if l.kind != "poly" or l.f.op != "poly" or l.f.unk: continue
            for a in batoms(self.gl):
                if a.op != "lt0" or l.sym not in a.fv: continue
                for pos in (True, False):
                    if not implied(self.gl, bvar(a) if pos else bnot(bvar(a))): continue
                    p = TM._ineq(a, pos)
                    cl = coeff_linear(p, l.sym)
                    if cl is None or not is_num(cl[0]) or nval(cl[0]) != 1 or self.phis(cl[1]): continue
                    ls.append((l, neg(cl[1])))
        for i, (u, hu) in enumerate(ls):
            for w, hw in ls[i + 1:]:
                if u is w: continue
                bound = band(lt(u.phi, hu), lt(w.phi, hw))
                if brestrict(self.gl, bound) is not TRUE and brestrict(bor(self.gl, self.panicg), bound) is not TRUE: continue
                du, dw = sub(u.f, u.phi), sub(w.f, w.phi)
                ats = batoms_deep(du) | batoms_deep(dw)
                diff = None
                for a in ats:
                    if a.op not in ("lt0", "eq0"): continue
                    ra = [x for x in atoms_of(a.args[0]) if x.op == "read" and x.args[1] is u.phi and x.args[2] == ()]
                    rb = [x for x in atoms_of(a.args[0]) if x.op == "read" and x.args[1] is w.phi and x.args[2] == ()]
                    if len(ra) == 1 and len(rb) == 1: diff = (ra[0], rb[0]); break
                if diff is None or self.phis(diff[0].args[0]) or self.phis(diff[1].args[0]): continue
                d = sub(P(diff[0]), P(diff[1]))
                want = {-1: (1, 0), 0: (1, 1), 1: (0, 1)}
                okk = True
                for sg, (x, y) in want.items():
                    if under_sign(du, d, sg) is not num(x) or under_sign(dw, d, sg) is not num(y): okk = False; break
                if not okk: continue
                kap = fresh("k", "nn")
                A = (diff[0].args[0], u.init, hu, diff[1].args[0], w.init, hw)
                u.val = P(mk("mpos", 0, *A, P(kap))); w.val = P(mk("mpos", 1, *A, P(kap)))
                return ZERO, kap, {u.sym: u.val, w.sym: w.val}, P(mk("mlen", *A)), bound
        return None
    def is_jump(self, f, fr, H, fa):
        """f = first(..) when there is such a position and H otherwise, under the loop guard"""
        ex = [x for x in batoms_deep(f) if x.op == "exists" and x.args[1:] == fa.args[1:]]
        if not ex: return f is fr
        f1, f0 = assume_poly(f, ex[0], TRUE), assume_poly(f, ex[0], FALSE)
        def leaves(p, g):
            it = single_atom(p)
            if it is None or it.op != "ite": return [(g, p)]
            return leaves(it.args[1], band(g, it.args[0])) + leaves(it.args[2], band(g, bnot(it.args[0])))
        for p, want in ((f1, fr), (f0, H)):
            for g, x in leaves(p, self.gl):
                if g is FALSE or x is want: continue
                if want is fr: return False
                if not (imp_lits(g, le(x, want)) is TRUE and imp_lits(g, le(want, x)) is TRUE): return False
        return True
    def splitbound(self, f, l, d, depth=0):
        """bound that depends on loop-invariant conditions: poly p with  f => p<0"""
        if f is FALSE: return FALSE
        if f.op != "bdd" or depth > 12: return None
        a, h, lo_ = f.args
        if not self.phis(a):
            x, y = self.splitbound(h, l, d, depth + 1), self.splitbound(lo_, l, d, depth + 1)
            if x is None or y is None: return None
            if x is FALSE and y is FALSE: return FALSE
            z = sub(l.phi, l.init) if not (is_num(d) and nval(d) < 0) else sub(l.init, l.phi)
            x = z if x is FALSE else x; y = z if y is FALSE else y
            return ite(bvar(a), x, y)
        best = None
        for b in batoms(f):
            if b.op != "lt0" or l.sym not in b.fv: continue
            for pos in (True, False):
                if not implied(f, bvar(b) if pos else bnot(bvar(b))): continue
                p = TM._ineq(b, pos)
                cl = coeff_linear(p, l.sym)
                if cl is None or not is_num(cl[0]) or self.phis(cl[1]): continue
                if nval(cl[0]) * (nval(d) if is_num(d) else (1 if nonneg(d) else 0)) <= 0: continue
                best = p if best is None else maxp(best, p)
        return best
    def linear(self, o):
        if o.kind != "poly" or o.f.op != "poly": return False
        return not self.phis(sub(o.f, o.phi))

    # ------------------------------------------------------------------ other leaves
    def resolve_leaves(self):
        gl = self.gl
        todo = [l for l in self.leaves if l.val is None]
        for l in todo:
            l.f = subst(l.f, self.m, None) if l.f.fv & self.allsyms else l.f
            cg = subst(gl, self.m)
            l.f = care(l.f, cg)
        self.cg = subst(gl, self.m)
        self.fresh_reads(todo)
        prog = True
        while self.linked(todo): pass
        if self.walked(todo): self.fresh_reads(todo)
        while self.cursor(todo): pass
        hold = True
        while todo and prog:
            prog = False
            held = self.cursors(todo) if hold else ()
            for l in list(todo):
                if l in held: continue
                deps = {self.syms[s] for s in self.phis(l.f)} - {l}
                if deps: continue
                v = self.solve_leaf(l)
                if v is None: continue
                self.bindleaf(l, v); todo.remove(l); prog = True
                for o in todo: o.f = care(subst(o.f, self.m), TRUE)
            if todo and not prog:
                if self.linked(todo) or self.cursor(todo): prog = True; continue
                if held: hold = False; prog = True; continue
                if self.segments(todo) or self.scan(todo): prog = True; continue
        for l in todo:
            self.why = "leaf " + l.kind; self.partial = True
            self.I.note("unsolved loop variable at %s (%s): %s" % (self.loc, l.kind, show(l.f)[:300]))
            v = unk("loop")
            l.val = P(v) if l.kind == "poly" else bvar(v) if l.kind == "bool" else v
            if l.kind == "seq":
                l.val = mk("unkseq", l.es, self.loc, unk("loop")) if False else unk("loop")
            self.m[l.sym] = l.val
            if l.push: self.m[l.lensym] = P(unk("len"))
    def bindleaf(self, l, v):
        l.val = v
        self.m[l.sym] = v
        if l.push: self.m[l.lensym] = length(v) if isseq(v) else P(unk("len"))
    def hist(self, k=None):
        """fresh bound variable for earlier iterations"""
        return fresh("t", self.kap.args[1])
    def solve_leaf(self, l):
        lo = self.lo
        if l.kind == "poly": return self.scalar(l.sym, l.init, l.f)
        if l.kind == "bool": return self.boolean(l.sym, l.init, l.f)
        if l.kind == "seq":
            return self.pushed(l) if l.push else self.array(l.sym, l.init, l.f)
        if l.kind == "map": return self.map(l)
        if l.kind == "opaque":
            if l.sym not in l.f.fv: return self.last(l.init, l.f)
        return None
    def prev(self, f):
        return subst(f, {self.kap: sub(P(self.kap), ONE)})
    def last(self, init, f):
        K = P(self.kap)
        if self.kap not in f.fv:
            return ite(eq(K, self.lo), init, f)
        p = self.prev(f)
        if not p.unk and subst(p, {self.kap: self.lo}) is init: return p
        return ite(eq(K, self.lo), init, p)
    def scalar(self, s, init, f):
        K = P(self.kap); lo = self.lo
        if f.op != "poly": f = P(f)
        if s not in f.fv: return self.last(init, f)
        d = sub(f, P(s))
        if s not in d.fv:
            t = self.hist()
            return add(init, summ(t, lo, K, subst(d, {self.kap: P(t)})))
        cs = cases(f, s)
        if cs is not None:
            keepg = FALSE; over = []
            bad = False
            for gg, v in cs:
                if v is P(s) or v.op == "poly" and v is P(s): keepg = bor(keepg, gg)
                elif s in v.fv or s in gg.fv: bad = True
                else: over.append((gg, v))
            if not bad and s not in keepg.fv:
                e = over[-1][1]
                for gg, v in over[:-1][::-1]: e = ite(gg, v, e)
                ch = bnot(keepg)
                t = self.hist(); T_ = {self.kap: P(t)}
                ex = exists(t, lo, K, subst(ch, T_))
                t2 = self.hist(); T2 = {self.kap: P(t2)}
                return ite(ex, lastval(t2, lo, K, subst(ch, T2), subst(e, T2)), init)
        if f.unk: return None
        t = self.hist()
        return fold(t, lo, K, s, init, subst(f, {self.kap: P(t)}))
    def boolean(self, s, init, f):
        K = P(self.kap); lo = self.lo
        if not is_bool(f): f = bvar(f)
        if s not in f.fv: return self.last(init, f)
        a = subst(f, {s: TRUE}); b = subst(f, {s: FALSE})
        if s in a.fv or s in b.fv: return None
        setg = band(a, b); rst = band(bnot(a), bnot(b)); tog = band(bnot(a), b)
        t = self.hist(); T_ = {self.kap: P(t)}
        if tog is FALSE:
            if rst is FALSE: return bor(init, exists(t, lo, K, subst(setg, T_)))
            if setg is FALSE: return band(init, bnot(exists(t, lo, K, subst(rst, T_))))
            ch = bor(setg, rst)
            t2 = self.hist(); T2 = {self.kap: P(t2)}
            return bite(exists(t, lo, K, subst(ch, T_)), lastval(t2, lo, K, subst(ch, T2), subst(setg, T2)), init)
        return None
    def array(self, h, init, f):
        """fixed-length sequence"""
        if h not in f.fv and (h.args[2] is None or True) and not reads_hole(f, h): return self.last(init, f)
        n = length(init)
        x = fresh("x", "nn"); X = P(x)
        es = h.args[1]
        r = pointwise(f, h, X)
        if r is None: return None
        HX = typed(h, X, (), es)
        rr = self.element(h, X, es, r, read(init, X))
        if rr is None: return None
        return lam(n, x, rr)
    def element(self, h, X, es, r, init):
        """solve the recurrence of one element; r is expressed with reads of h at X"""
        if es in ("i", "z", "t", None):
            s = fresh("e", "nn" if es == "i" else "")
            r2 = repl_read(r, h, X, (), P(s))
            if reads_hole(r2, h): return None
            return self.scalar(s, init, r2)
        if es == "b":
            s = fresh("e", "")
            r2 = repl_read(r, h, X, (), bvar(s))
            if reads_hole(r2, h): return None
            return self.boolean(s, init, r2)
        if isinstance(es, tuple) and es[0] == "U":
            out = []
            # all components must only use themselves
            for k, e in enumerate(es[1]):
                rk = field(r, k)
                if e in ("i", "z", "t"):
                    s = fresh("e", "nn" if e == "i" else "")
                    r2 = repl_read(rk, h, X, (k,), P(s))
                    if reads_hole(r2, h): return None
                    out.append(self.scalar(s, field(init, k), r2))
                else: return None
            if any(o is None for o in out): return None
            return tup(*out)
        if isinstance(es, tuple) and es[0] == "S":
            inner = mk("hole", fresh("hin").args[0], es[1], length(init))
            r2 = repl_read(r, h, X, (), inner)
            if reads_hole(r2, h): return None
            if r2.op != "unk" and isseq(r2):
                if length(r2) is length(inner): return self.array(inner, init, r2)
                return self.pushseq(inner, init, r2)
            return None
        # opaque elements: conditional overwrite
        mark = mk("sym", fresh("o").args[0], "o")
        r2 = repl_read(r, h, X, (), mark)
        if reads_hole(r2, h): return None
        return self.opaque(mark, init, r2)
    def opaque(self, mark, init, r):
        if mark not in r.fv: return self.last(init, r)
        if r is mark: return init
        if r.op == "ite":
            g, a, b = r.args
            if mark in g.fv: return None
            for gg, u, v in ((g, a, b), (bnot(g), b, a)):
                if v is mark and mark not in u.fv:
                    t = self.hist(); T_ = {self.kap: P(t)}
                    t2 = self.hist(); T2 = {self.kap: P(t2)}
                    K = P(self.kap)
                    return ite(exists(t, self.lo, K, subst(gg, T_)), lastval(t2, self.lo, K, subst(gg, T2), subst(u, T2)), init)
        return None
    def pushed(self, l):
        h = l.sym; f = l.f
        if h not in f.fv:
            if l.lensym in f.fv: return None
            return self.last(l.init, f)
        if not isseq(f): return None
        return self.pushseq(h, l.init, f, l.lensym)
    def pushseq(self, h, init, f, ls=None):
        parts = []
        while f.op == "append":
            parts.append(f.args[1]); f = f.args[0]
        if f is not h or not parts: return None
        e = EMPTY
        for p in parts[::-1]: e = append(e, p)
        if h in e.fv: return None
        K = P(self.kap); lo = self.lo
        if ls is not None and ls in e.fv and e.op != "lit":
            # the appended part depends only on whether anything was appended before
            z = mk("eq0", P(ls)); e0, e1 = assume(e, z, TRUE), assume(e, z, FALSE)
            if ls not in e0.fv and ls not in e1.fv:
                t = self.hist(); t2 = self.hist()
                n0 = length(e0)
                def b(k): return band(eq0(length(init)), bnot(exists(t2, lo, k, bnot(eq0(subst(n0, {self.kap: P(t2)}))))))
                body = ite(b(P(t)), subst(e0, {self.kap: P(t)}), subst(e1, {self.kap: P(t)}))
                return append(init, concat(t, lo, K, body))
        if ls is not None and ls in e.fv:
            # the appended part may use the current length
            le_ = length(e)
            if ls in le_.fv: return None
            t = self.hist()
            L = add(length(init), summ(t, lo, K, subst(le_, {self.kap: P(t)})))
            e = subst(e, {ls: L})
        t = self.hist()
        return append(init, concat(t, lo, K, subst(e, {self.kap: P(t)})))
    def map(self, l):
        h, f = l.sym, l.f
        if h not in f.fv: return self.last(l.init, f)
        if f.unk: return None
        t = self.hist()
        return updmap(t, self.lo, P(self.kap), h, l.init, subst(f, {self.kap: P(t)}))

    # ------------------------------------------------------------------ reads of arrays under modification
    def writes(self, f, h):
        """indices written in f (over hole h), or None"""
        out = []
        def go(v):
            if v is h: return True
            if v.op == "store":
                out.append(v.args[1]); return go(v.args[0])
            if v.op == "ite": return go(v.args[1]) and go(v.args[2])
            return False
        return out if go(f) else None
    def fresh_reads(self, todo):
        """reads of positions not written by any earlier iteration see the initial array"""
        K = P(self.kap)
        dl = fresh("d", "nn")
        for l in todo:
            if l.kind != "seq" or l.push: continue
            ws = self.writes(l.f, l.sym)
            if ws is None: continue
            reads = set()
            for o in todo: collect_reads(o.f, l.sym, reads)
            for ev in self.ev: collect_reads(subst(ev.guard, self.m) if ev.guard.fv & self.allsyms else ev.guard, l.sym, reads)
            collect_reads(self.gl, l.sym, reads)
            for r in reads:
                if r.fv & {s for s in r.fv if s.op == "sym" and str(s.args[0]).startswith("c")} and False: continue
                if self.phis(r): continue
                okk = True
                for w in ws:
                    if self.phis(w): okk = False; break
                    w2 = subst(w, {self.kap: sub(sub(K, ONE), P(dl))})     # an earlier iteration
                    d = sub(r, w2)
                    x, y = single_atom(r), single_atom(w2)
                    if x is not None and y is not None and x.op == y.op == "llat" and x.args[:4] == y.args[:4]: d = sub(x.args[4], y.args[4])
                    if not (nonneg(sub(d, ONE)) or nonneg(sub(neg(d), ONE))): okk = False; break
                if okk:
                    v = read(l.init, r)
                    for o in todo: o.f = repl_read(o.f, l.sym, r, (), v, whole=True)
                    self.gl = repl_read(self.gl, l.sym, r, (), v, whole=True)
                    self.exits = [(t, ge, se) for t, ge, se in self.exits]
    def freeze_reads(self, todo, h, init, F, skip=None):
        """every read of h is of a position no earlier iteration has written (all earlier writes are below F):
        it sees the initial array.  The side condition is recorded as an assumption, settled where the summary
        is evaluated."""
        conds = []
        for o in todo:
            rs = []
            frontier_reads(o.f, h, rs)
            for idx, low in rs:
                if skip is not None and skip(idx): continue
                if low is None: return False
                if not nonneg(sub(low, F)): conds.append(lt(low, F))
        for o in todo:
            rs = set(); collect_reads(o.f, h, rs)
            for r in rs:
                if skip is not None and skip(r): continue
                o.f = repl_read(o.f, h, r, (), read(init, r), whole=True)
        for c in conds:
            if c is FALSE: continue
            self.assume_ev(c)
        return True
    def assume_ev(self, c):
        from interp import Event
        g = band(self.bound, c)
        if any(e.kind == "assume" and e.guard is g for e in self.ev): return
        self.ev.append(Event("assume", g, self.loc, None, ()))
    def cursors(self, todo):
        """counters that index stores of arrays still to be solved"""
        r = []
        for c in todo:
            if c.kind != "poly" or c.f.op != "poly" or c.f.unk: continue
            for l in todo:
                if l.kind == "seq" and not l.push and not l.f.unk and as_splice(l.f, l.sym, c.phi) not in (None, EMPTY): r.append(c); break
        return r
    def linked(self, todo):
        """a worklist chained through an index array"""
        for l in todo:
            if l.kind != "seq" or l.push or l.f.unk: continue
            cond = None
            f = l.f; g0 = TRUE
            if f.op == "ite":
                if f.args[2] is l.sym: g0, f = f.args[0], f.args[1]
                elif f.args[1] is l.sym: g0, f = bnot(f.args[0]), f.args[2]
            if f.op == "store" and f.args[0] is l.sym:
                k, v = f.args[1], f.args[2]
                own = read(l.sym, k); oa = single_atom(own)
                if oa is None: continue
                it = single_atom(v) if v.op == "poly" else None
                if it is not None and it.op == "ite" and it.args[1] is own: cond, H = bnot(it.args[0]), it.args[2]
                elif it is not None and it.op == "ite" and it.args[2] is own: cond, H = it.args[0], it.args[1]
                else: cond, H = TRUE, v
                cond = band(g0, cond)
                hd = [o for o in todo if o.kind == "poly" and o.phi is H]
                if len(hd) != 1: continue
                hd = hd[0]; s = None
                for a in batoms(cond):
                    if a.op != "eq0" or not implied(cond, bvar(a)): continue
                    cl = coeff_linear(a.args[0], oa)
                    if cl and is_num(cl[0]) and abs(nval(cl[0])) == 1 and is_num(cl[1]):
                        s = num(-nval(cl[1]) * nval(cl[0])); g = brestrict(cond, bvar(a))
                if s is None or self.phis(g) or self.phis(k) or hd.f is not ite(cond, k, hd.phi): continue
                S = ite(g, lit(k), EMPTY)
            elif l.f.op == "llnext" and l.f.args[0] is l.sym:
                hd = [o for o in todo if o.kind == "poly" and o.phi is l.f.args[1]]
                S, s = l.f.args[2], l.f.args[3]
                if len(hd) != 1 or self.phis(S) or self.phis(s): continue
                hd = hd[0]
                if hd.f is not llhead(*l.f.args): continue
            else: continue
            one = ite(cond, ONE, ZERO) if cond is not None else lllen(l.sym, hd.phi, S, s)
            els = ite(cond, lit(k), EMPTY) if cond is not None else lluniq(l.sym, hd.phi, S, s)
            K = P(self.kap)
            def acc():
                t = self.hist()
                return concat(t, self.lo, K, subst(S, {self.kap: P(t)}))
            U = (l.init, hd.init, acc(), s)
            for o in list(todo):
                if o.kind == "poly" and o is not hd and o.f.op == "poly" and sub(o.f, o.phi) is one:
                    self.bindleaf(o, add(o.init, lllen(*U))); todo.remove(o)
                elif o.kind == "seq" and o.push and o.f is append(o.sym, els):
                    self.bindleaf(o, append(o.init, lluniq(*U))); todo.remove(o)
            self.bindleaf(l, llnext(*U)); todo.remove(l)
            self.bindleaf(hd, llhead(*U)); todo.remove(hd)
            for o in todo: o.f = care(subst(o.f, self.m), TRUE)
            return True
        return False
    def walked(self, todo):
        """the walk along such a chain from its head"""
        for hd in todo:
            if hd.kind != "poly" or hd.f.op != "poly": continue
            r = single_atom(hd.f)
            if r is None or r.op != "read" or r.args[1] is not hd.phi or r.args[2] != (): continue
            A = r.args[0]; N = None
            if A.op == "hole":
                N = self.syms.get(A)
                if N is None or N not in todo: continue
                A = N.init
                if not (N.f is N.sym or N.f.op == "store" and N.f.args[0] is N.sym and N.f.args[1] is hd.phi): continue
            if A.op != "llnext" or self.phis(A) or hd.init is not llhead(*A.args): continue
            if self.lo is not ZERO: continue
            K = P(self.kap)
            self.bindleaf(hd, llat(*A.args, K)); todo.remove(hd)
            if N is not None and N.f.op == "store" and N.f.args[2] is A.args[3]:
                self.bindleaf(N, llclear(*A.args, K)); todo.remove(N)
            for o in todo: o.f = care(subst(o.f, self.m), TRUE)
            return True
        return False
    def cursor(self, todo):
        """stores at a counter that advances with them: the array is its initial value with the written elements
        spliced in; the counter is the number of elements written"""
        for c in todo:
            if c.kind != "poly" or c.f.op != "poly" or c.f.unk: continue
            group = []
            n = sub(c.f, c.phi)
            for l in todo:
                if l.kind != "seq" or l.push or l.f.unk: continue
                S = as_splice(l.f, l.sym, c.phi)
                if S is None or S is EMPTY or not same(length(S), n): continue
                group.append((l, S))
            if not group: continue
            if c.sym in n.fv and not all(self.phis(n) <= {l.sym for l, _ in group} for _ in (0,)): 
                pass
            ls = [l for l, _ in group]
            # reads of the arrays being rewritten
            okk = True
            saved = [o.f for o in todo], len(self.ev)
            for l in ls:
                if not self.freeze_reads(todo, l.sym, l.init, c.phi, skip=lambda r: c.sym in r.fv): okk = False; break
            if okk:
                grp2 = [(l, as_splice(l.f, l.sym, c.phi)) for l in ls]
                n = sub(c.f, c.phi)
                if self.phis(n) or any(S is None or self.phis(S) or not same(length(S), n) for _, S in grp2): okk = False
            if not okk:
                for o, f in zip(todo, saved[0]): o.f = f
                del self.ev[saved[1]:]
                continue
            K = P(self.kap); lo = self.lo
            t = self.hist(); T_ = {self.kap: P(t)}
            self.bindleaf(c, add(c.init, summ(t, lo, K, subst(n, T_))))
            todo.remove(c)
            for l, S in grp2:
                t = self.hist()
                self.bindleaf(l, splice(l.init, c.init, concat(t, lo, K, subst(S, {self.kap: P(t)}))))
                todo.remove(l)
            for o in todo: o.f = care(subst(o.f, self.m), TRUE)
            return True
        return False
    def segments(self, todo):
        """arrays rewritten segment by segment, each element from the same segment's initial content"""
        prog = False
        for l in todo:
            if l.kind != "seq" or l.push or l.f.op != "lam" or l.f.unk: continue
            x, n, B = l.f.args
            at = single_atom(B) if B.op == "poly" else B
            if at is None or at.op != "ite": continue
            own = read(l.sym, P(x))
            hp = l.sym
            W = None
            if at.args[1] is typed(hp, P(x), (), l.es): W = bnot(at.args[0])
            elif at.args[2] is typed(hp, P(x), (), l.es): W = at.args[0]
            if W is None or self.phis(W): continue
            s = TM._segment(W, self.kap)
            if s is None or s[0] is not P(x):
                s = segment2(W, self.kap, P(x))
                if s is None: continue
                L = s
            else: L = s[1]
            if l.sym not in self.phis_deep(todo): continue
            before = [o.f for o in todo]
            if not self.freeze_reads(todo, l.sym, l.init, L, skip=lambda r: False if not (r.op == "poly" and single_atom(r) is x) else True): continue
            if any(o.f is not b for o, b in zip(todo, before)):
                self.assume_ev(lt(subst(L, {self.kap: add(P(self.kap), ONE)}), L))
                prog = True
        return prog
    def phis_deep(self, todo):
        r = set()
        for o in todo: r |= self.phis(o.f)
        return r
    def scan(self, todo):
        """read(h, r(kap)) with r linear in kap or invariant: carry the element as an extra scalar"""
        K = P(self.kap)
        for l in todo:
            if l.kind != "seq" or l.push or l.es not in ("i", "z", "t"): continue
            reads = set()
            for o in todo: collect_reads(o.f, l.sym, reads)
            cand = [r for r in reads if not self.phis(r) and not bound_inside(r)]
            for r in cand:
                nxt = read(l.f, subst(r, {self.kap: add(K, ONE)}))
                s = mk("sym", fresh("scan").args[0], "nn" if l.es == "i" else "")
                nxt2 = repl_read(nxt, l.sym, r, (), P(s))
                if reads_hole(nxt2, l.sym): continue
                if any(x is not s for x in self.phis(nxt2)): continue
                v = self.scalar(s, read(l.init, subst(r, {self.kap: self.lo})), nxt2)
                if v is None: continue
                for o in todo:
                    if o is l:
                        # the write-back itself keeps pointwise form elsewhere
                        o.f = repl_read(o.f, l.sym, r, (), v)
                    else: o.f = repl_read(o.f, l.sym, r, (), v)
                self.gl = repl_read(self.gl, l.sym, r, (), v)
                return True
        return False

    # ------------------------------------------------------------------ no closed form: recursion operator
    def recursion(self):
        """the recurrence system itself becomes a term: its meaning is the least fixed point of the system"""
        I = self.I
        I.loopstats["recursion"] = I.loopstats.get("recursion", 0) + 1
        names = []; fs = []; inits = []
        for l in self.leaves:
            names.append(l.sym); fs.append(l.f); inits.append(l.init)
            if l.push:
                if not isseq(l.f): return None
                names.append(l.lensym); fs.append(length(l.f)); inits.append(length(l.init))
        pos = {n: i for i, n in enumerate(names)}
        W = mk("rec", tuple(names), self.gl, tuple(fs), tuple(inits))
        m = {}
        for l in self.leaves:
            i = pos[l.sym]
            if l.kind == "poly": v = P(mk("recv", W, i, "nn" if l.nn else ""))
            elif l.kind == "bool": v = bvar(mk("recv", W, i, "b"))
            elif l.kind == "seq":
                n = P(mk("recv", W, pos[l.lensym], "nn")) if l.push else length(l.init)
                v = mk("recs", W, i, l.es, n)
                if l.push: m[l.lensym] = n
            elif l.kind == "map": v = mk("recm", W, i, l.es)
            else: v = mk("recv", W, i, "o")
            m[l.sym] = v
        self.kap = mk("sym", "nokap", "")
        outs = []; tot = FALSE
        for i, (t, ge, se) in enumerate(self.exits):
            if len(self.exits) == 1: gg = TRUE
            elif i == len(self.exits) - 1: gg = bnot(tot)
            else:
                x = subst(ge, m); gg = band(x, bnot(tot)); tot = bor(tot, x)
            if gg is FALSE: continue
            outs.append((t, gg, {c: (subst(v, m) if v.fv & self.allsyms else v) for c, v in se.items()}))
        for e in self.ev:
            gx = band(self.g, bvar(recev(W, e.guard))) if e.guard is not FALSE else FALSE
            if gx is FALSE: continue
            e.guard = gx; I.ev.append(e)
        I.event("nonterm", band(self.g, bvar(mk("recloop", W))), self.loc)
        return outs
    # ------------------------------------------------------------------ give up
    def unsolved(self):
        I = self.I
        I.loopstats["unsolved"] += 1
        I.note("unsolved loop at %s: %s" % (self.loc, self.why))
        m = {}
        for l in self.leaves:
            v = unk("loop")
            m[l.sym] = P(v) if l.kind == "poly" else bvar(v) if l.kind == "bool" else v
            if l.push: m[l.lensym] = P(v)
        for e in self.ev:
            e.guard = subst(e.guard, m)
            if e.guard is not FALSE: e.guard = band(self.g, bvar(unk("loop event"))); I.ev.append(e)
        outs = []
        ex = self.exits
        for i, (t, ge, se) in enumerate(ex):
            gg = TRUE if len(ex) == 1 else bvar(unk("exit%d" % i))
            outs.append((t, gg, {c: (subst(v, m) if v.fv & frozenset(m) else v) for c, v in se.items()}))
        if len(outs) > 1:
            # make the guards a partition
            rest = TRUE; o2 = []
            for i, (t, gg, se) in enumerate(outs):
                if i == len(outs) - 1: o2.append((t, rest, se))
                else: o2.append((t, band(rest, gg), se)); rest = band(rest, bnot(gg))
            outs = o2
        return outs

# ---------------------------------------------------------------------- helpers
def ceildiv(n, a, S, rest):
    """iterations until a*k >= n:  max(0, ceil(n/a)); a>0"""
    from interp import idiv
    if is_num(a) and is_num(n): return num(max(0, -((-nval(n)) // nval(a))))
    return ite(lt(ZERO, n), idiv(sub(add(n, a), ONE), a), ZERO)
def subst_atom(f, atom, rep):
    if f.op != "bdd": return f
    memo = {}
    def go(f):
        if f.op != "bdd": return f
        r = memo.get(f)
        if r is None:
            a, h, l = f.args
            r = memo[f] = bite(rep if a is atom else bvar(a), go(h), go(l))
        return r
    return go(f)
def assume(t, atom, val):
    """t with the boolean atom replaced by a constant"""
    memo = {}
    def go(t):
        if not isinstance(t, T): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == "bdd":
            a, h, l = t.args
            if a is atom: r = go(h if val is TRUE else l)
            else: r = bite(bvar(a), go(h), go(l))
        elif t.op == "ite": r = ite(go(t.args[0]), go(t.args[1]), go(t.args[2]))
        elif t.op == "append": r = append(go(t.args[0]), go(t.args[1]))
        elif t.op == "concat" and not (atom.fv & {t.args[0]}): r = concat(t.args[0], t.args[1], t.args[2], go(t.args[3]))
        else: r = t
        memo[t] = r
        return r
    return go(t)
def undercare(p, g):
    return TM.under(p, g) if p.op == "poly" else p
def care(v, g):
    if g is TRUE or not isinstance(v, T): return v
    if v.op == "poly": return TM.under(v, g)
    if is_bool(v): return imp_lits(g, v)
    if v.op == "ite":
        h = brestrict(v.args[0], g)
        if h is TRUE: return care(v.args[1], g)
        if h is FALSE: return care(v.args[2], g)
    return v
def cases(f, s, depth=0):
    """[(guard, value)] splitting the ite atoms of f that mention s"""
    its = [a for m, c in f.args[1] for a, q in m if a.op == "ite" and s in a.fv]
    if not its: return [(TRUE, f)]
    if depth > 5: return None
    a = its[0]
    g, u, v = a.args
    out = []
    for gg, br in ((g, u), (bnot(g), v)):
        f2 = repl_atom(f, a, br)
        r = cases(f2, s, depth + 1)
        if r is None: return None
        out += [(band(gg, h), x) for h, x in r]
    return [(h, x) for h, x in out if h is not FALSE]
def repl_atom(p, a, v):
    acc = [num(p.args[0])]
    for m, c in p.args[1]:
        t = num(c)
        for b, q in m:
            for _ in range(q): t = mul(t, v if b is a else P(b))
        acc.append(t)
    return add(*acc)
def walk(t, fn, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple): st.extend(x)
            continue
        if x in seen: continue
        seen.add(x)
        fn(x)
        st.extend(x.args)
def reads_hole(t, h):
    if h not in t.fv: return False
    return True
def collect_reads(t, h, acc):
    if h not in t.fv: return
    def f(x):
        if x.op == "read" and x.args[0] is h: acc.add(x.args[1])
    walk(t, f)
def batoms_deep(t):
    out = set()
    walk(t, lambda x: out.add(x) if x.op in ("exists", "lt0", "eq0", "teq0") else None)
    return out
def infeasible(f):
    """every way of satisfying f uses contradictory comparisons of the same difference"""
    def contra(a, pa, b, pb):
        for x, px, y, py in ((a, pa, b, pb), (b, pb, a, pa)):
            if x.op == "eq0" and px and y.op in ("lt0", "eq0"):
                for k in (1, -1):
                    e = sub(y.args[0], scale(x.args[0], k))
                    if is_num(e):
                        v = (nval(e) < 0) if y.op == "lt0" else (nval(e) == 0)
                        return v != py
        if a.op == b.op == "lt0":
            p, q = TM._ineq(a, pa), TM._ineq(b, pb)      # p<0, q<0 integers
            e = add(p, q)
            return is_num(e) and nval(e) >= -1
        return False
    def go(f, path):
        if f is FALSE: return True
        if f is TRUE: return False
        a, h, l = f.args
        for v, br in ((True, h), (False, l)):
            if br is FALSE or any(contra(a, v, b, pb) for b, pb in path): continue
            if not go(br, path + [(a, v)]): return False
        return True
    return go(f, [])
def same(p, q):
    """p = q, up to comparisons that cannot hold together"""
    if p is q: return True
    return zero_diff(sub(p, q))
def zero_diff(d):
    if is_num(d): return nval(d) == 0
    sums = [(m[0][0], c) for m, c in d.args[1] if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sum"]
    if sums:
        # sums over the same range are compared term by term
        x, c = sums[0]
        for y, e in sums[1:]:
            if e == -c and y.args[:3] == x.args[:3] and same(x.args[3], y.args[3]):
                return zero_diff(sub(d, scale(sub(P(x), P(y)), c)))
        return False
    its = list(TM._ite_atoms(d))
    if not its or len(its) > 4: return False
    rest = d; cs = []
    for a in its:
        c = coeff_linear(d, a)
        if c is None or not is_num(c[0]) or not all(is_num(x) for x in a.args[1:]): return False
        rest = sub(rest, scale(P(a), nval(c[0]))); cs.append(nval(c[0]))
    if not is_num(rest): return False
    def go(i, g, v):
        if i == len(its): return v == 0 or infeasible(g)
        if g is FALSE: return True
        a = its[i]
        return go(i + 1, band(g, a.args[0]), v + cs[i] * nval(a.args[1])) and go(i + 1, band(g, bnot(a.args[0])), v + cs[i] * nval(a.args[2]))
    return go(0, TRUE, nval(rest))
def under_sign(p, d, sg):
    """poly p when d < 0, d = 0, d > 0 (sg -1, 0, 1; integers)"""
    def dec(a):
        q = a.args[0]
        for k in (1, -1):
            e = sub(q, scale(d, k))
            if not is_num(e): continue
            e = nval(e)              # q = k*d + e
            if a.op == "eq0":
                if sg == 0: return e == 0
                if e == 0 or (k * sg > 0) == (e > 0): return False
                return None
            lo_, hi_ = (e, e) if sg == 0 else (e + 1, None) if k * sg > 0 else (None, e - 1)
            if hi_ is not None and hi_ < 0: return True
            if lo_ is not None and lo_ >= 0: return False
        return None
    for a in batoms_deep(p):
        r = dec(a) if a.op in ("lt0", "eq0") else None
        if r is not None: p = assume_poly(p, a, TRUE if r else FALSE)
    return p
def assume_poly(p, atom, val):
    def go(x):
        if x.op == "poly":
            acc = [num(x.args[0])]
            for m, c in x.args[1]:
                q = num(c)
                for a, e in m:
                    v = ite(assume(a.args[0], atom, val), go(a.args[1]), go(a.args[2])) if a.op == "ite" else P(a)
                    for _ in range(e): q = mul(q, v)
                acc.append(q)
            return add(*acc)
        return x
    return go(p)
def frontier_reads(t, h, out):
    """(index, lower bound free of inner bound variables) for every read of h inside t"""
    seen = set()
    def low(r, env):
        for a in list(TM.atoms_of(r)):
            if a.op == "clip":
                cl = coeff_linear(r, a)
                if cl is None or not is_num(cl[0]) or nval(cl[0]) <= 0: return None
                r = add(cl[1], scale(a.args[1], nval(cl[0])))
        for v, lo in reversed(env):
            if v in r.fv:
                cl = coeff_linear(r, v)
                if cl is None or not is_num(cl[0]) or nval(cl[0]) <= 0 or v in cl[1].fv: return None
                r = subst(r, {v: lo})
        return r
    def go(x, env):
        if isinstance(x, tuple):
            for y in x: go(y, env)
            return
        if not isinstance(x, T) or h not in x.fv: return
        k = (x, env)
        if k in seen: return
        seen.add(k)
        if x.op == "read" and x.args[0] is h: out.append((x.args[1], low(x.args[1], env)))
        if x.op in BINDERS:
            k0 = BINDERS[x.op]
            lo = ZERO if x.op == "lam" else x.args[1]
            for a in x.args[1:k0]: go(a, env)
            for a in x.args[k0:]: go(a, env + ((x.args[0], lo),))
        else:
            for a in x.args: go(a, env)
    go(t, ())
def as_splice(f, h, c):
    """S with f = splice(h, c, S), or None"""
    if f is h: return EMPTY
    if f.op == "store":
        S = as_splice(f.args[0], h, c)
        if S is None or not same(f.args[1], add(c, length(S))): return None
        own = read(f.args[0], f.args[1])
        def cut(v):
            # a value kept as it was is no store
            if v is own: return EMPTY
            it = single_atom(v) if v.op == "poly" else v
            if it is not None and it.op == "ite":
                return ite(it.args[0], cut(it.args[1]), cut(it.args[2]))
            return lit(v)
        return append(S, cut(f.args[2]))
    if f.op == "splice":
        S = as_splice(f.args[0], h, c)
        if S is None or not same(f.args[1], add(c, length(S))): return None
        return append(S, f.args[2])
    if f.op == "ite":
        a, b = as_splice(f.args[1], h, c), as_splice(f.args[2], h, c)
        if a is None or b is None: return None
        return ite(f.args[0], a, b)
    return None
def segment2(W, var, X):
    """L with W = L(var) <= X < L(var+1), whatever the monotonicity of L"""
    ls = TM.literals(W)
    if ls is None: return None
    dep = [(a, v) for a, v in ls if X.args[1] and single_atom(X) in a.fv]
    if len(dep) != 2 or any(a.op != "lt0" for a, v in dep): return None
    p, q = (TM._ineq(a, v) for a, v in dep)
    for p, q in ((p, q), (q, p)):
        R = sub(X, p)                       # X < R
        L = add(q, X, ONE)                  # L <= X
        if single_atom(X) in R.fv or single_atom(X) in L.fv: continue
        if subst(L, {var: add(P(var), ONE)}) is R: return L
    return None
def bound_inside(r):
    return any(s.op == "sym" and str(s.args[0])[:1] == "c" and str(s.args[0])[1:].isdigit() for s in r.fv)
def pointwise(f, h, X):
    """element X of f, with reads of h at the written position identified with h[X]"""
    o = f.op
    if f is h: return typed(h, X, (), h.args[1])
    if o == "store":
        A, i, v = f.args
        rest = pointwise(A, h, X)
        if rest is None: return None
        v2 = repl_read(v, h, i, (), typed(h, X, (), h.args[1]), whole=True)
        # values may depend on the position itself
        return ite(eq(X, i), v2, rest)
    if o == "ite":
        a, b = pointwise(f.args[1], h, X), pointwise(f.args[2], h, X)
        if a is None or b is None: return None
        return ite(f.args[0], a, b)
    if o == "lam":
        return read(f, X)
    if h not in f.fv: return read(f, X)
    if o in ("append", "slice", "resize", "const", "lit"): return read(f, X)
    return None
def repl_read(t, h, idx, fp, v, whole=False):
    """replace read(h, idx, fp..) by v in t (v typed like the element unless fp selects a component)"""
    if not isinstance(t, T) or h not in t.fv: return t
    key = frozenset((h,))
    memo = {}
    def hit(x):
        if x.op == "read" and x.args[0] is h and x.args[1] is idx:
            p = x.args[2]
            if p[:len(fp)] == fp:
                r = v
                for k in p[len(fp):]: r = field(r, k)
                return r
        return None
    def collect(x, acc, seen):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                for y in x: collect(y, acc, seen)
            return
        if x in seen or h not in x.fv: return
        seen.add(x)
        if hit(x) is not None: acc.append(x)
        for y in x.args: collect(y, acc, seen)
    acc = []; collect(t, acc, set())
    if not acc: return t
    m = {}
    for a in acc: m[a] = hit(a)
    return subst_terms(t, m)
def subst_terms(t, m):
    """replace whole subterms (reads); boolean reads are BDD atoms"""
    fm = {}
    # give each replaced read a fresh symbol first, then substitute it
    ren = {}
    for a, v in m.items():
        ren[a] = v
    return _st(t, ren)
def _st(t, ren):
    memo = {}
    hs = set()
    for a in ren: hs |= {x for x in a.fv}
    def ga(a):
        if isinstance(a, T): return go(a)
        if isinstance(a, tuple): return tuple(ga(x) for x in a)
        return a
    def go(x):
        if x in ren: return ren[x]
        if not (x.fv & frozenset(hs)): return x
        r = memo.get(x)
        if r is None: r = memo[x] = rebuild(x, go, ga)
        return r
    return go(t)
def rebuild(t, go, ga):
    o = t.op
    def gp(a):
        r = go(a)
        return r if r.op == "poly" else P(r)
    if o in ("sym", "hole", "true", "false", "sseq", "unk", "undef"): return t
    if o == "poly":
        acc = []
        for mono, c in t.args[1]:
            p = num(c)
            for a, q in mono:
                v = go(a)
                if v.op != "poly": v = P(v)
                for _ in range(q): p = mul(p, v)
            acc.append(p)
        return add(num(t.args[0]), *acc)
    if o == "bdd":
        g = go(t.args[0])
        if not is_bool(g): g = bvar(single_atom(g) if g.op == "poly" and single_atom(g) is not None else g)
        return TM.thin(bite(g, go(t.args[1]), go(t.args[2])))
    if o == "lt0": return lt0(gp(t.args[0]))
    if o == "eq0": return eq0(gp(t.args[0]))
    if o == "teq0": return teq(gp(t.args[0]), ZERO)
    if o == "tlt": return tlt(*map(gp, t.args))
    if o == "tle": return tle(*map(gp, t.args))
    if o == "ite": return ite(*map(go, t.args))
    if o == "read":
        r = read(go(t.args[0]), gp(t.args[1]))
        for k in t.args[2]: r = field(r, k)
        return r
    if o == "fld": return field(go(t.args[0]), t.args[1], t.args[2] if t.args[2] >= 0 else None)
    if o == "len": return length(go(t.args[0]))
    if o == "store": return store(go(t.args[0]), gp(t.args[1]), go(t.args[2]))
    if o == "append": return append(*map(go, t.args))
    if o == "splice": return splice(go(t.args[0]), gp(t.args[1]), go(t.args[2]))
    if o == "slice": return slice_(go(t.args[0]), gp(t.args[1]), gp(t.args[2]))
    if o == "const": return const(*map(go, t.args))
    if o == "resize": return resize(*map(go, t.args))
    if o == "lit": return lit(*map(go, t.args))
    if o in ("fold", "updmap"):
        cv, lo, hi, h, init, body = t.args
        f = fold if o == "fold" else updmap
        nv = fresh("s", cv.args[1]); nh = mk(h.op, fresh("h").args[0], *h.args[1:])
        b = subst(go(body), {cv: P(nv), h: P(nh) if h.op == "sym" else nh})
        return f(nv, go(lo), go(hi), nh, go(init), b)
    if o in BINDERS:
        k = BINDERS[o]; cv = t.args[0]; nv = fresh("s", cv.args[1])
        pre = [gp(x) for x in t.args[1:k]]
        bs = [subst(go(x), {cv: P(nv)}) for x in t.args[k:]]
        if o == "lam": return lam(pre[0], nv, bs[0])
        return {"sum": summ, "exists": exists, "first": first, "concat": concat, "lastval": lastval}[o](nv, *pre, *bs)
    f = REBUILD.get(o)
    if f: return f(*[ga(a) for a in t.args])
    return mk(o, *[ga(a) for a in t.args])
