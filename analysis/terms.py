"""Hash-consed closed-form terms: ring polynomials, guards (ROBDD), sequences, aggregates, binders.

Values are terms.  Polynomials and guards are canonical; bound variables are canonically named by
nesting height, so alpha-equivalent terms are the same object.  Nothing here executes the program.

sorts: 'i' index (>=0), 'z' signed integer, 't' scalar, 'b' bool, ('S',s) sequence, ('U',(s..)) tuple,
       ('O',name) opaque
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ("op", "args", "id", "fv", "bh", "unk")
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

BINDERS = {"sum": 3, "lam": 2, "concat": 3, "exists": 3, "first": 3, "lastval": 3, "fold": 3, "updmap": 3}
# op: index of first argument in the scope of the bound variable (args[0] is the variable).
# fold(var, lo, hi, hole, init, body): hole is bound in body as well;  updmap likewise (hole, base, body)
_tab = {}

def _fv(args):
    s = None; h = 0; u = False
    for a in args:
        if isinstance(a, T):
            f, bh, un = a.fv, a.bh, a.unk
        elif isinstance(a, tuple):
            f, bh, un = _fv(a)
        else: continue
        if f: s = f if s is None else (s if f <= s else s | f)
        if bh > h: h = bh
        u = u or un
    return s or frozenset(), h, u

def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T); t.op = op; t.args = args; t.id = len(_tab)
        if op in ("sym", "hole"):
            _, t.bh, t.unk = _fv(args)
            t.fv = frozenset((t,))
        elif op == "unk":
            t.fv = frozenset(); t.bh = 0; t.unk = True
        elif op in BINDERS:
            k = BINDERS[op]
            f, h, u = _fv(args[1:k])
            f2, h2, u2 = _fv(args[k:])
            b = {args[0]}
            if op in ("fold", "updmap"): b.add(args[3])
            t.fv = f | (f2 - b); t.bh = max(h, h2) + 1; t.unk = u or u2
            if op in ("fold", "updmap"):
                fi = args[4].fv - {args[0]} if args[0] in args[4].fv else args[4].fv
                t.fv = t.fv | fi
        elif op == "rec":
            # rec(names, guard, next values, initial values): the names are bound in guard and next values
            b = frozenset(args[0])
            f, h, u = _fv(args[3:])
            f2, h2, u2 = _fv(args[1:3])
            t.fv = f | (f2 - b); t.bh = max(h, h2) + 1; t.unk = u or u2
        elif op == "recev":
            f, h, u = _fv(args)
            t.fv = args[0].fv | (args[1].fv - frozenset(args[0].args[0])); t.bh = h + 1; t.unk = u
        else:
            t.fv, t.bh, t.unk = _fv(args)
        _tab[key] = t
    return t

_cache = {}
TRUE = mk("true"); FALSE = mk("false")
UNDEF = mk("undef")
_serial = [0]
def fresh(prefix="t", flags=""):
    _serial[0] += 1
    return mk("sym", "%s#%d" % (prefix, _serial[0]), flags)
def sym(name, flags=""): return mk("sym", name, flags)
def unk(why): return mk("unk", why)

# ---------------------------------------------------------------- polynomials
def _mkpoly(const, d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple((a.id, p) for a, p in mc[0])))
    return mk("poly", const, items)
def num(n): return mk("poly", n, ())
def is_num(p): return p.op == "poly" and not p.args[1]
def nval(p): return p.args[0]
ZERO = num(0); ONE = num(1)
def P(atom):
    if atom.op == "poly": return atom
    if atom.op in ("bdd", "true", "false"): return ite(atom, ONE, ZERO)
    return mk("poly", 0, ((((atom, 1),), 1),))
def add(*ps):
    c = 0; d = {}
    for p in ps:
        if p.op != "poly": p = P(p)
        c += p.args[0]
        for m, k in p.args[1]: d[m] = d.get(m, 0) + k
    return merge_ites(_mkpoly(c, d))
def _rawadd(*ps):
    c = 0; d = {}
    for p in ps:
        c += p.args[0]
        for m, k in p.args[1]: d[m] = d.get(m, 0) + k
    return _mkpoly(c, d)
def scale(p, k):
    if p.op != "poly": p = P(p)
    if k == 0: return num(0)
    if k == 1: return p
    return _mkpoly(p.args[0] * k, {m: c * k for m, c in p.args[1]})
def neg(p): return scale(p, -1)
def sub(a, b): return add(a, neg(b))
def _mm(m1, m2):
    d = {}
    for a, p in m1: d[a] = d.get(a, 0) + p
    for a, p in m2: d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items(), key=lambda x: x[0].id))
def mul(a, b):
    if a.op != "poly": a = P(a)
    if b.op != "poly": b = P(b)
    if is_num(a): return scale(b, a.args[0])
    if is_num(b): return scale(a, b.args[0])
    # push products into 0-branching ites so that guards stay outermost:  x*ite(g,y,0) = ite(g,x*y,0)
    for x, y in ((a, b), (b, a)):
        it = single_atom(x)
        if it is not None and it.op == "ite" and (it.args[1] is ZERO or it.args[2] is ZERO):
            g, u, v = it.args
            return ite(g, mul(u, y) if u is not ZERO else ZERO, mul(v, y) if v is not ZERO else ZERO)
    d = {}
    for m, k in a.args[1]:
        if b.args[0]: d[m] = d.get(m, 0) + k * b.args[0]
        for m2, k2 in b.args[1]:
            mm = _mm(m, m2); d[mm] = d.get(mm, 0) + k * k2
    for m2, k2 in b.args[1]:
        if a.args[0]: d[m2] = d.get(m2, 0) + k2 * a.args[0]
    return _mkpoly(a.args[0] * b.args[0], d)
def single_atom(p):
    if p.op == "poly" and p.args[0] == 0 and len(p.args[1]) == 1:
        m, c = p.args[1][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return None
def atoms_of(p): return {a for m, _ in p.args[1] for a, _ in m}
def coeff_linear(p, atom):
    """(coef, rest) with p = coef*atom + rest; None if atom occurs non-linearly or inside another atom"""
    co = {}; cc = 0; rest = {}
    fa = None
    for m, c in p.args[1]:
        e = 0
        for a, q in m:
            if a is atom: e = q
            elif atom in a.fv: return None
        if e == 0: rest[m] = c
        elif e == 1:
            m2 = tuple((a, q) for a, q in m if a is not atom)
            if m2: co[m2] = co.get(m2, 0) + c
            else: cc += c
        else: return None
    return _mkpoly(cc, co), _mkpoly(p.args[0], rest)

def merge_ites(p):
    """combine linear ite atoms with equal guards, so that a-b of equal conditionals cancels"""
    its = [(a, c) for m, c in p.args[1] if len(m) == 1 and m[0][1] == 1 for a in [m[0][0]] if a.op == "ite"]
    if len(its) < 2: return p
    byg = {}
    for a, c in its: byg.setdefault(a.args[0], []).append((a, c))
    if all(len(v) == 1 for v in byg.values()): return p
    for g, v in byg.items():
        if len(v) < 2: continue
        rest = p
        x = y = ZERO
        for a, c in v:
            rest = _rawadd(rest, scale(P(a), -c))
            x = add(x, scale(a.args[1], c)); y = add(y, scale(a.args[2], c))
        return add(rest, ite(g, x, y))
    return p

# ---------------------------------------------------------------- guards (ROBDD)
def bvar(atom):
    if atom.op in ("bdd", "true", "false"): return atom
    return mk("bdd", atom, TRUE, FALSE)
def _node(a, hi, lo):
    return hi if hi is lo else mk("bdd", a, hi, lo)
def bite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    key = (f, g, h)
    r = _cache.get(key)
    if r is not None: return r
    a = min((x.args[0] for x in (f, g, h) if x.op == "bdd"), key=lambda t: t.id)
    def co(x, v):
        if x.op == "bdd" and x.args[0] is a: return x.args[1] if v else x.args[2]
        return x
    r = _node(a, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _cache[key] = r
    return r
def bnot(f): return bite(f, FALSE, TRUE)
def band(*fs):
    r = TRUE
    for f in fs:
        r = bite(r, f, FALSE)
    return thin(r) if len(fs) > 1 else r
def bor(*fs):
    r = FALSE
    for f in fs: r = bite(r, TRUE, f)
    if len(fs) > 1 and r.op == "bdd":
        n = bnot(r); t = thin(n)
        if t is not n: r = bnot(t)
    return r
def implies(f, g): return bite(f, bnot(g), FALSE) is FALSE
def is_bool(t): return t.op in ("bdd", "true", "false")

def _ineq(a, pos):
    """literal on lt0 atom as p<0"""
    return a.args[0] if pos else neg(add(a.args[0], ONE))
def thin(f):
    """drop literals of a conjunction that other literals imply; detect contradictions.  Exact over the integers."""
    ls = literals(f)
    if ls is None or len(ls) < 2: return f
    key = ("thin", f)
    r = _cache.get(key)
    if r is not None: return r
    ine = [(a, v, _ineq(a, v)) for a, v in ls if a.op == "lt0"]
    eqs = [a.args[0] for a, v in ls if a.op == "eq0" and v]
    drop = set(); out = f
    for i, (a, v, p) in enumerate(ine):
        for j, (b, w, q) in enumerate(ine):
            if i == j or a in drop or b in drop: continue
            # q<0 implies p<0  if p-q <= 0
            d = sub(p, q)
            if nonneg(neg(d)): drop.add(a)
            # p<0 and q<0 impossible if p+q >= -1
            if i < j and nonneg(add(p, q, ONE)): out = FALSE
    if out is FALSE:
        _cache[key] = FALSE; return FALSE
    for e in eqs:
        for a, v, p in ine:
            for s in (p, ):
                for e2 in (e, neg(e)):
                    d = sub(p, e2)      # e2 == 0, so p == d
                    if is_num(d):
                        if nval(d) < 0: drop.add(a)
                        else:
                            _cache[key] = FALSE; return FALSE
    for a, v in ls:
        if a.op == "eq0" and not v:
            for b, w, p in ine:
                if b in drop: continue
                for e in (a.args[0], neg(a.args[0])):
                    d = sub(p, e)           # p = e + d;  p<0 excludes e==0 when d >= 0
                    if is_num(d) and nval(d) >= 0: drop.add(a)
    if drop:
        out = TRUE
        for a, v in ls:
            if a not in drop: out = bite(out, bvar(a) if v else bnot(bvar(a)), FALSE)
    _cache[key] = out
    return out
def literals(f):
    """[(atom, polarity)] if f is a conjunction of literals"""
    out = []
    while f.op == "bdd":
        a, h, l = f.args
        if l is FALSE: out.append((a, True)); f = h
        elif h is FALSE: out.append((a, False)); f = l
        else: return None
    return out if f is TRUE else None
def brestrict(f, c):
    """simplify f under care set c"""
    if c is FALSE or f.op != "bdd" or c is TRUE: return f
    if f is c: return TRUE
    key = ("r", f, c)
    r = _cache.get(key)
    if r is not None: return r
    if bite(f, c, FALSE) is FALSE: r = FALSE
    elif bite(c, bite(f, FALSE, TRUE), FALSE) is FALSE: r = TRUE
    else:
        a = f.args[0]
        if c.op == "bdd":
            ca = c.args[0]
            if ca.id < a.id: r = brestrict(f, bor(c.args[1], c.args[2]))
            elif ca is a:
                if c.args[1] is FALSE: r = brestrict(f.args[2], c.args[2])
                elif c.args[2] is FALSE: r = brestrict(f.args[1], c.args[1])
                else: r = _node(a, brestrict(f.args[1], c.args[1]), brestrict(f.args[2], c.args[2]))
            else: r = _node(a, brestrict(f.args[1], c), brestrict(f.args[2], c))
        else: r = f
    _cache[key] = r
    return r
def imp_lits(c, f):
    """simplify f knowing conjunction c, using arithmetic implication between lt0 literals"""
    ls = literals(c)
    if not ls or f.op != "bdd": return brestrict(f, c)
    f = brestrict(f, c)
    kn = [_ineq(a, v) for a, v in ls if a.op == "lt0"]
    if not kn or f.op != "bdd": return f
    def go(f):
        if f.op != "bdd": return f
        a, h, l = f.args
        if a.op == "lt0":
            p = a.args[0]; q = neg(add(p, ONE))
            for k in kn:
                if nonneg(sub(k, p)): return go(h)      # k<0, p<=k
                if nonneg(sub(k, q)): return go(l)
        elif a.op == "eq0":
            for k in kn:
                if nonneg(sub(a.args[0], neg(k))) and False: pass
                if is_num(sub(a.args[0], k)) and nval(sub(a.args[0], k)) <= 0: return go(l)
                if is_num(add(a.args[0], k)) and nval(add(a.args[0], k)) >= 0: return go(l)
        return bite(bvar(a), go(h), go(l))
    return go(f)
def batoms(f):
    acc = set(); st = [f]; seen = set()
    while st:
        x = st.pop()
        if x.op != "bdd" or x in seen: continue
        seen.add(x); acc.add(x.args[0]); st.append(x.args[1]); st.append(x.args[2])
    return acc

def _ite_atoms(p):
    return [a for m, c in p.args[1] if len(m) == 1 and m[0][1] == 1 for a in [m[0][0]] if a.op == "ite"]
def _split(p, fn, depth):
    its = _ite_atoms(p)
    if its and depth < 8:
        a = its[0]
        c = dict(p.args[1])[((a, 1),)]
        rest = _rawadd(p, scale(P(a), -c))
        g, x, y = a.args
        return bite(g, _split(add(rest, scale(x, c)), fn, depth + 1), _split(add(rest, scale(y, c)), fn, depth + 1))
    return fn(p)
def _lead(p): return p.args[1][0][1]
def _gcd_norm(p):
    return p
def lt0(p):
    def base(p):
        if is_num(p): return TRUE if p.args[0] < 0 else FALSE
        if nonneg(p): return FALSE
        q = neg(add(p, ONE))
        if nonneg(q): return TRUE
        if _lead(p) > 0: return bvar(mk("lt0", p))
        return bnot(bvar(mk("lt0", q)))
    return _split(p, base, 0)
def lt(a, b): return lt0(sub(a, b))
def le(a, b): return lt0(sub(sub(a, b), ONE))
def eq0(p):
    def base(p):
        if is_num(p): return TRUE if p.args[0] == 0 else FALSE
        if nonneg(add(p, num(-1))): return FALSE
        q = neg(p)
        if nonneg(add(q, num(-1))): return FALSE
        # nonneg p==0  <=>  p<1
        if _lead(p) < 0: p, q = q, p
        return bvar(mk("eq0", p))
    return _split(p, base, 0)
def eq(a, b): return eq0(sub(a, b))
def teq(a, b): return _split(sub(a, b), lambda p: (TRUE if p.args[0] == 0 else FALSE) if is_num(p) else bvar(mk("teq0", p if _lead(p) > 0 else neg(p))), 0)
def _split2(a, b, fn, depth=0):
    for x, k in ((a, 0), (b, 1)):
        it = single_atom(x) if x.op == "poly" else None
        if it is not None and it.op == "ite" and depth < 8:
            g, u, v = it.args
            if k == 0: return bite(g, _split2(u, b, fn, depth + 1), _split2(v, b, fn, depth + 1))
            return bite(g, _split2(a, u, fn, depth + 1), _split2(a, v, fn, depth + 1))
    return fn(a, b)
def tlt(a, b):
    def f(a, b):
        if a is b: return FALSE
        if is_num(a) and is_num(b): return TRUE if nval(a) < nval(b) else FALSE
        return bvar(mk("tlt", a, b))
    return _split2(a, b, f)
def tle(a, b):
    def f(a, b):
        if is_num(a) and is_num(b): return TRUE if nval(a) <= nval(b) else FALSE
        return bvar(mk("tle", a, b))
    return _split2(a, b, f)

def atom_nonneg(a):
    if a.op in ("len", "count", "maplen"): return True
    if a.op in ("sym",): return "nn" in a.args[1]
    if a.op == "read": return a.args[3] == "i"
    if a.op == "K": return a.args[1] == "i"
    if a.op == "ite": return nonneg(a.args[1]) and nonneg(a.args[2])
    if a.op == "sum": return nonneg(a.args[3])
    if a.op == "first": return nonneg(a.args[1])
    if a.op in ("idiv", "irem"): return nonneg(a.args[0]) and nonneg(a.args[1])
    if a.op == "lastval": return nonneg(a.args[4])
    if a.op == "mpos": return nonneg(a.args[2 + 3 * a.args[0]])
    if a.op == "mlen": return True
    if a.op == "recv": return a.args[2] == "nn"
    if a.op == "llat": return esort(a.args[2]) == "i" and False
    if a.op == "clip": return nonneg(a.args[0]) or nonneg(a.args[1])
    return False
_nn = {}
def nonneg(p):
    """sufficient condition for p >= 0"""
    if p.op != "poly": return False
    r = _nn.get(p)
    if r is None:
        r = _nn[p] = _nonneg(p)
    return r
def _nonneg(p):
    negs = []; poss = []
    for m, c in p.args[1]:
        (negs if c < 0 else poss).append((m, c))
    if negs:
        # pair  -read(ptr,b)  with  +read(ptr,a), a>=b;  drop pairs
        if len(negs) > 3: return False
        poss2 = dict(poss)
        for m, c in negs:
            if len(m) != 1 or m[0][1] != 1: return False
            a = m[0][0]
            ok = False
            for m2, c2 in list(poss2.items()):
                if len(m2) == 1 and m2[0][1] == 1 and c2 >= -c:
                    b = m2[0][0]
                    if _atom_ge(b, a):
                        poss2[m2] = c2 + c
                        if poss2[m2] == 0: del poss2[m2]
                        ok = True; break
            if not ok: return False
        poss = list(poss2.items())
    if p.args[0] < 0: return False
    for m, c in poss:
        if not all(atom_nonneg(a) or q % 2 == 0 for a, q in m): return False
    return True
def is_ptr(A): return A.op == "sseq" and "ptr" in A.args[2]
def _atom_ge(x, y):
    """x >= y for atoms"""
    if x is y: return True
    if x.op == "read" and y.op == "read" and x.args[0] is y.args[0] and is_ptr(x.args[0]) and nonneg(sub(x.args[1], y.args[1])): return True
    if y.op == "first" and nonneg(sub(P(x), y.args[2])) : return True   # first(..,hi) <= max(lo,hi); lo<=hi by construction
    if y.op == "sum" and ub01(y) is not None:
        u = ub01(y)
        return u is P(x)
    return False
def ub01(s):
    """upper bound hi-lo of a sum of 0/1 conditionals (lo<=hi known)"""
    b = s.args[3]
    a = single_atom(b)
    if a is not None and a.op == "ite" and a.args[1] in (ONE, ZERO) and a.args[2] in (ONE, ZERO) and known_ge(s.args[2], s.args[1]):
        return sub(s.args[2], s.args[1])
    return None
def upper(p):
    """p with every sum of 0/1 conditionals replaced by its range length (an upper bound for +coefs)"""
    r = num(p.args[0])
    for m, c in p.args[1]:
        t = _mkpoly(0, {m: c})
        if c > 0 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "sum":
                b = upper_body(a)
                if b is not None: t = scale(b, c)
            elif a.op == "ite" and is_num(a.args[1]) and is_num(a.args[2]):
                t = num(c * max(nval(a.args[1]), nval(a.args[2])))
        r = add(r, t)
    return r
def upper_body(s):
    v, lo, hi, b = s.args
    if not known_ge(hi, lo): return None
    u = upper(b)
    if u is b: return None
    tv = fresh("u", v.args[1])
    return upper(summ(tv, lo, hi, subst(u, {v: P(tv)})))

# ---------------------------------------------------------------- ite on values
def ite(g, a, b):
    if g is TRUE: return a
    if g is FALSE: return b
    if a is b: return a
    if is_bool(a) and is_bool(b): return bite(g, a, b)
    if a is UNDEF: return b
    if b is UNDEF: return a
    if g.unk and a.op not in ("agg", "ref"): return P(unk("cond")) if a.op == "poly" else unk("cond")
    if a.op == "poly" and b.op == "poly":
        a = under(a, g); b = under(b, bnot(g))
        if a is b: return a
        r = _boundary(g, a, b)
        if r is not None: return r
        return _polyite(g, a, b)
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args) == len(b.args):
        return mk("agg", a.args[0], a.args[1], *[ite(g, x, y) if isinstance(x, T) else x for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "ref" and b.op == "ref" and a.args[0] == b.args[0]:
        p = merge_path(g, a.args[1], b.args[1])
        if p is not None: return mk("ref", a.args[0], p)
    if a.op == "append" and a.args[0] is b: return append(b, ite(g, a.args[1], EMPTY))
    if b.op == "append" and b.args[0] is a: return append(a, ite(g, EMPTY, b.args[1]))
    if a.op == "append" and b.op == "append" and a.args[0] is b.args[0]:
        return append(a.args[0], ite(g, a.args[1], b.args[1]))
    if a.op == "ite":
        if a.args[0] is g: return ite(g, a.args[1], b)
        if a.args[0] is bnot(g): return ite(g, a.args[2], b)
        h = brestrict(a.args[0], g)
        if h is TRUE: return ite(g, a.args[1], b)
        if h is FALSE: return ite(g, a.args[2], b)
        if a.args[2] is b: return ite(band(g, a.args[0]), a.args[1], b)
        if a.args[1] is b: return ite(band(g, bnot(a.args[0])), a.args[2], b)
    if b.op == "ite":
        ng = bnot(g)
        if b.args[0] is g: return ite(g, a, b.args[2])
        if b.args[0] is ng: return ite(g, a, b.args[1])
        h = brestrict(b.args[0], ng)
        if h is TRUE: return ite(g, a, b.args[1])
        if h is FALSE: return ite(g, a, b.args[2])
        if b.args[1] is a: return ite(bor(g, b.args[0]), a, b.args[2])
        if b.args[2] is a: return ite(bor(g, bnot(b.args[0])), a, b.args[1])
    # stores into the same base at the same index
    if a.op == "store" and a.args[0] is b and b.op != "store":
        e = read(b, a.args[1])
        if e.op != "unk": return store(b, a.args[1], ite(g, a.args[2], e))
    if b.op == "store" and b.args[0] is a and a.op != "store":
        e = read(a, b.args[1])
        if e.op != "unk": return store(a, b.args[1], ite(g, e, b.args[2]))
    if a.op == "store" and b.op == "store" and a.args[1] is b.args[1]:
        return store(ite(g, a.args[0], b.args[0]), a.args[1], ite(g, a.args[2], b.args[2]))
    if a.op == "lam" and b.op == "lam" and a.args[1] is b.args[1]:
        v = fresh("x", "nn")
        return lam(a.args[1], v, ite(g, read(a, P(v)), read(b, P(v))))
    if a.op == "poly": 
        b = P(b) if b.op not in ("bdd", "true", "false") else b
        if b.op == "poly": return ite(g, a, b)
    if b.op == "poly" and a.op not in ("bdd", "true", "false"):
        return ite(g, P(a), b)
    ng = bnot(g)
    if ng.id < g.id: g, a, b = ng, b, a
    return mk("ite", g, a, b)

_pcache = {}
def _polyite(g, a, b):
    """canonical conditional polynomial: common part + chain over the partition {value: region}"""
    key = (g, a, b)
    r = _pcache.get(key)
    if r is not None: return r
    part = {}
    def put(gg, p, d):
        if gg is FALSE: return
        its = _ite_atoms(p) if d < 6 else ()
        if len(its) == 1:
            at = its[0]; c = dict(p.args[1])[((at, 1),)]
            rest = _rawadd(p, scale(P(at), -c))
            h = at.args[0]
            put(bite(gg, h, FALSE), add(rest, scale(at.args[1], c)), d + 1)
            put(bite(gg, bnot(h), FALSE), add(rest, scale(at.args[2], c)), d + 1)
        else: part[p] = bor(part.get(p, FALSE), gg)
    put(g, a, 0); put(bnot(g), b, 0)
    if len(part) > 6: part = {a: g, b: bnot(g)}
    for p in list(part):
        gg = thin(part[p])
        if gg is FALSE: del part[p]
        else: part[p] = gg
    ps = list(part)
    if len(ps) == 1:
        r = ps[0]
    else:
        com = dict(ps[0].args[1])
        for p in ps[1:]:
            d = dict(p.args[1])
            com = {m: c for m, c in com.items() if d.get(m) == c}
        pure = [p.args[0] for p in ps if len(p.args[1]) == len(com)]
        k = min(pure) if pure else min(p.args[0] for p in ps)
        vals = sorted(((_mkpoly(p.args[0] - k, {m: c for m, c in p.args[1] if m not in com}), q) for p, q in part.items()),
                      key=lambda x: (x[0] is ZERO, x[0].id))
        r = vals[-1][0]
        for v, gg in vals[:-1][::-1]:
            r = mk("poly", 0, ((((mk("ite", gg, v, r), 1),), 1),))
        r = _rawadd(_mkpoly(k, com), r)
    _pcache[key] = r
    return r
def _boundary(g, a, b):
    """ite(k==c, A, B) where B[k:=c] is A  ->  B  (and the negated form)"""
    for gg, x, y in ((g, a, b), (bnot(g), b, a)):
        if gg.op == "bdd" and gg.args[1] is TRUE and gg.args[2] is FALSE and gg.args[0].op == "eq0":
            p = gg.args[0].args[0]
            for m, c in p.args[1]:
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == "sym":
                    v = m[0][0]
                    cl = coeff_linear(p, v)
                    if cl is None: continue
                    val = neg(cl[1]) if c == 1 else cl[1]
                    if v in y.fv and subst(y, {v: val}) is (subst(x, {v: val}) if v in x.fv else x): return y
                    if v not in y.fv and v in x.fv and subst(x, {v: val}) is y: return y
                    break
    return None

def under(p, g):
    """simplify top-level ite atoms of poly p knowing g"""
    if g.op != "bdd": return p
    for a in _ite_atoms(p):
        h = brestrict(a.args[0], g)
        if h is TRUE or h is FALSE:
            c = dict(p.args[1])[((a, 1),)]
            return under(add(_rawadd(p, scale(P(a), -c)), scale(a.args[1] if h is TRUE else a.args[2], c)), g)
    return p

def merge_path(g, p, q):
    if len(p) != len(q): return None
    out = []
    for x, y in zip(p, q):
        if x == y: out.append(x)
        elif x[0] == y[0] and x[0] in ("ix", "win") and len(x) == len(y):
            out.append((x[0],) + tuple(ite(g, u, v) for u, v in zip(x[1:], y[1:])))
        else: return None
    return tuple(out)

def clip(a, b):
    """max(a, b), kept opaque"""
    if a.op != "poly": a = P(a)
    if b.op != "poly": b = P(b)
    d = sub(a, b)
    if nonneg(d): return a
    if nonneg(neg(d)): return b
    return P(mk("clip", a, b))
def maxp(a, b): return ite(lt(a, b), b, a)
def minp(a, b): return ite(lt(a, b), a, b)

# ---------------------------------------------------------------- aggregates
def agg(tag, variant, *fields): return mk("agg", tag, variant, *fields)
UNIT = agg("tuple", 0)
OPT, RES, CFL = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"
def some(x): return agg(OPT, 1, x)
NONE = agg(OPT, 0)
def ok(x): return agg(RES, 0, x)
def err(x): return agg(RES, 1, x)
def tup(*xs): return agg("tuple", 0, *xs)

def field(t, i, variant=None):
    if t.op == "agg":
        if variant is not None and t.args[1] != variant: return UNDEF
        if 2 + i >= len(t.args): return UNDEF
        return t.args[2 + i]
    if t.op == "ite": return ite(t.args[0], field(t.args[1], i, variant), field(t.args[2], i, variant))
    if t is UNDEF: return UNDEF
    if t.op == "poly":
        a = single_atom(t)
        if a is not None: t = a
    if t.unk: return unk("field")
    return mk("fld", t, i, variant if variant is not None else -1)

# ---------------------------------------------------------------- sequences
EMPTY = mk("lit")
def lit(*vs): return mk("lit", *vs)
def const(n, v):
    if n.op != "poly": n = P(n)
    if is_num(n) and n.args[0] == 0: return EMPTY
    return mk("const", n, v)
def sseq(name, esort, flags="", length_=None): return mk("sseq", name, esort, flags, length_)
def hole(name, esort, length_): return mk("hole", name, esort, length_)
def append(a, b):
    if a is EMPTY: return b
    if b is EMPTY: return a
    if b.op == "append": return append(append(a, b.args[0]), b.args[1])
    if a.op == "lit" and b.op == "lit": return mk("lit", *(a.args + b.args))
    if a.op == "append" and a.args[1].op == "lit" and b.op == "lit": return mk("append", a.args[0], mk("lit", *(a.args[1].args + b.args)))
    if a.op == "const" and b.op == "const" and a.args[1] is b.args[1]: return const(add(a.args[0], b.args[0]), a.args[1])
    return mk("append", a, b)
def store(A, i, v):
    if A.op == "unk": return A
    if i.unk: return unk("store")
    if A.op == "lit" and is_num(i) and 0 <= i.args[0] < len(A.args):
        l = list(A.args); l[i.args[0]] = v; return mk("lit", *l)
    if A.op == "store" and A.args[1] is i: return store(A.args[0], i, v)
    if A.op == "const" and A.args[1] is v: return A
    if A.op in ("hole", "sseq") and read(A, i) is v: return A
    return mk("store", A, i, v)
def splice(A, at, S):
    """A with the positions at .. at+len(S) replaced by the elements of S"""
    if A.unk and A.op == "unk": return A
    if at.unk or S.op == "unk": return unk("splice")
    if S is EMPTY: return A
    if A.op == "splice" and add(A.args[1], length(A.args[2])) is at: return splice(A.args[0], A.args[1], append(A.args[2], S))
    if A.op == "store" and add(A.args[1], ONE) is at: return splice(A.args[0], A.args[1], append(lit(A.args[2]), S))
    return mk("splice", A, at, S)
# Chained worklist over an index array:  push(k): if next[k] == s { next[k] = head; head = k }.
# llnext / llhead: array and head after pushing the keys of L;  lluniq: the keys actually linked, in order;
# llat: the i-th key met walking the chain from the head;  llclear: the array after the first i of them are reset to s.
def _llbase(n0, h0, s):
    if n0.op == "llnext" and n0.args[3] is s and h0 is llhead(*n0.args): return n0.args
    return None
def llnext(n0, h0, L, s):
    if L is EMPTY: return n0
    b = _llbase(n0, h0, s)
    if b: return llnext(b[0], b[1], append(b[2], L), s)
    return mk("llnext", n0, h0, L, s)
def llhead(n0, h0, L, s):
    if L is EMPTY: return h0
    b = _llbase(n0, h0, s)
    if b: return llhead(b[0], b[1], append(b[2], L), s)
    return P(mk("llhead", n0, h0, L, s))
def lluniq(n0, h0, L, s):
    if L is EMPTY: return EMPTY
    return mk("lluniq", n0, h0, L, s)
def lllen(n0, h0, L, s):
    if L is EMPTY: return ZERO
    b = _llbase(n0, h0, s)
    if b: return sub(lllen(b[0], b[1], append(b[2], L), s), lllen(b[0], b[1], b[2], s))
    return P(mk("len", mk("lluniq", n0, h0, L, s)))
def llat(n0, h0, L, s, i):
    return P(mk("llat", n0, h0, L, s, i))
def llclear(n0, h0, L, s, i):
    if i is lllen(n0, h0, L, s): return n0
    return mk("llclear", n0, h0, L, s, i)
def inrange(v, g):
    """v knowing g"""
    if v.op == "poly": return under(v, g)
    if is_bool(v): return imp_lits(g, v)
    if v.op == "agg": return agg(v.args[0], v.args[1], *[inrange(x, g) for x in v.args[2:]])
    if v.op == "ite":
        h = imp_lits(g, v.args[0])
        if h is TRUE: return inrange(v.args[1], g)
        if h is FALSE: return inrange(v.args[2], g)
        return ite(h, inrange(v.args[1], g), inrange(v.args[2], g)) if h is not v.args[0] else v
    return v
def lam(n, var, body):
    if n.op != "poly": n = P(n)
    if is_num(n) and n.args[0] == 0: return EMPTY
    if var in body.fv: body = inrange(body, lt(P(var), n))
    if var not in body.fv: return const(n, body)
    a = single_atom(body) if body.op == "poly" else body
    if a is not None and a.op == "bdd" and a.args[1] is TRUE and a.args[2] is FALSE: a = a.args[0]
    if a is not None and a.op == "read" and a.args[2] == () and var not in a.args[0].fv:
        d = sub(a.args[1], P(var))
        if var not in d.fv:
            return slice_(a.args[0], d, add(d, n))
    # ite on in-range guard:  x<n always holds
    return bind("lam", var, (n,), (body,))
def concat(var, lo, hi, body):
    if body is EMPTY or lo is hi: return EMPTY
    hi = norm_hi(lo, hi)
    if body.op == "lit" and len(body.args) == 1:
        if lo is ZERO: return lam(hi, var, body.args[0])
        if known_ge(hi, lo):
            x = fresh("x", "nn")
            return lam(sub(hi, lo), x, subst(body.args[0], {var: add(lo, P(x))}))
    if body.op == "slice" and var not in body.args[0].fv:
        # consecutive slices a[s_k..s_{k+1}] concatenate to one slice
        s, e = body.args[1], body.args[2]
        if e is subst(s, {var: add(P(var), ONE)}) and known_ge(hi, lo) and known_ge(e, s):
            return slice_(body.args[0], subst(s, {var: lo}), subst(s, {var: hi}))
    return bind("concat", var, (lo, hi), (body,))
def rng_len(lo, hi):
    d = sub(hi, lo)
    if known_ge(hi, lo): return d
    return maxp(ZERO, d)
def known_ge(hi, lo): return nonneg(sub(hi, lo))
def norm_hi(lo, hi):
    """binder upper bound: max(lo,x) is equivalent to x"""
    for _ in range(4):
        a = None
        for m, c in hi.args[1]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite": a = m[0][0]; k = c; break
        if a is None: return hi
        rest = _rawadd(hi, scale(P(a), -k))
        x = add(rest, scale(a.args[1], k)); y = add(rest, scale(a.args[2], k))
        # hi = ite(g,x,y)
        if x is lo and a.args[0] is lt(y, lo): hi = y
        elif y is lo and bnot(a.args[0]) is lt(x, lo): hi = x
        elif x is lo and a.args[0] is le(y, lo): hi = y
        elif y is lo and bnot(a.args[0]) is le(x, lo): hi = x
        else: return hi
    return hi
def length(s):
    o = s.op
    if o == "lit": return num(len(s.args))
    if o == "const": return s.args[0]
    if o in ("store", "splice", "llnext", "llclear"): return length(s.args[0])
    if o == "lluniq": return lllen(*s.args)
    if o == "lam": return s.args[1]
    if o == "append": return add(length(s.args[0]), length(s.args[1]))
    if o == "slice": return sub(s.args[2], s.args[1])
    if o == "concat":
        v = fresh("k", s.args[0].args[1])
        return summ(v, s.args[1], s.args[2], length(subst(s.args[3], {s.args[0]: P(v)})))
    if o == "ite": return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if o in ("sorted", "sortedm"): return length(s.args[0])
    if o == "resize": return s.args[1]
    if o in ("sseq",) and s.args[3] is not None: return s.args[3]
    if o == "hole" and s.args[2] is not None: return s.args[2]
    if o == "K" and s.args[2] is not None: return s.args[2]
    if o == "recs": return s.args[3]
    return P(mk("len", s))
def slice_(A, lo, hi):
    if lo is ZERO and hi is length(A): return A
    if lo is hi: return EMPTY
    if A.op == "slice": return slice_(A.args[0], add(A.args[1], lo), add(A.args[1], hi))
    if A.op == "const": return const(sub(hi, lo), A.args[1])
    if A.op == "lam" and A.args[2].op != "read":
        x = fresh("x", "nn")
        return lam(sub(hi, lo), x, read(A, add(lo, P(x))))
    if A.op == "append" and lo is ZERO and hi is length(A.args[0]): return A.args[0]
    if A.op == "splice" and lo is A.args[1] and hi is add(lo, length(A.args[2])): return A.args[2]
    if A.op == "lit" and is_num(lo) and is_num(hi) and 0 <= nval(lo) <= nval(hi) <= len(A.args): return lit(*A.args[nval(lo):nval(hi)])
    return mk("slice", A, lo, hi)
def resize(A, n, v):
    L = length(A)
    if n is L: return A
    if A is EMPTY: return const(n, v)
    if A.op == "const" and A.args[1] is v: return const(n, v)
    if nonneg(sub(n, L)): return append(A, const(sub(n, L), v))
    if nonneg(sub(L, n)): return slice_(A, ZERO, n)
    return mk("resize", A, n, v)

def vsort(v):
    if v.op == "poly": return "i" if nonneg(v) else "t"
    if is_bool(v): return "b"
    if v.op == "agg" and v.args[0] == "tuple": return ("U", tuple(vsort(x) for x in v.args[2:]))
    if v.op in ("lit", "const", "lam", "append", "store", "splice", "slice", "sseq", "hole", "concat", "resize", "sorted", "sortedm", "K", "recs", "llnext", "lluniq", "llclear"): return ("S", esort(v))
    if v.op == "read": return v.args[3]
    if v.op == "ite": return vsort(v.args[1])
    if v.op == "str": return ("O", "str")
    return ("O", v.op)
def esort(A):
    o = A.op
    if o in ("sseq", "hole"): return A.args[1]
    if o == "lit": return vsort(A.args[0]) if A.args else None
    if o == "const": return vsort(A.args[1])
    if o == "lam": return vsort(A.args[2])
    if o in ("store", "slice", "sorted", "sortedm", "resize"):
        r = esort(A.args[0])
        return r if r is not None else (vsort(A.args[2]) if o not in ("slice", "sorted", "sortedm") else None)
    if o == "append": return esort(A.args[0]) or esort(A.args[1])
    if o == "splice": return esort(A.args[0]) or esort(A.args[2])
    if o in ("llnext", "llclear"): return esort(A.args[0]) or "t"
    if o == "lluniq": return esort(A.args[2])
    if o == "concat": return esort(A.args[3])
    if o == "ite": return esort(A.args[1]) or esort(A.args[2])
    if o == "read" and isinstance(A.args[3], tuple) and A.args[3][0] == "S": return A.args[3][1]
    if o == "K": return A.args[1]
    if o == "recs": return A.args[2]
    return None
def typed(A, i, fp, s):
    """typed view of the irreducible read A[i].fp"""
    if s in ("i", "z", "t") or s is None: return P(mk("read", A, i, fp, s or "t"))
    if s == "b": return bvar(mk("read", A, i, fp, "b"))
    if s[0] == "U": return agg("tuple", 0, *[typed(A, i, fp + (k,), x) for k, x in enumerate(s[1])])
    if s[0] == "A": return agg(s[1], 0, *[typed(A, i, fp + (k,), x) for k, x in enumerate(s[2])])
    return mk("read", A, i, fp, s)

def bcof(f, a, v):
    """f with atom a fixed"""
    if f.op != "bdd" or f.args[0].id > a.id: return f
    if f.args[0] is a: return f.args[1] if v else f.args[2]
    return bite(bvar(f.args[0]), bcof(f.args[1], a, v), bcof(f.args[2], a, v))
def conditional(A):
    """(g, v) when the store writes v under g only: its value is if g then v else the old element"""
    S, i, v = A.args
    x = single_atom(v) or v
    if x.op == "ite":
        old = read(S, i)
        if x.args[2] is old or single_atom(old) is x.args[2]: return x.args[0], x.args[1]
        if x.args[1] is old or single_atom(old) is x.args[1]: return bnot(x.args[0]), x.args[2]
    elif x.op == "bdd":
        old = read(S, i)
        if old.op == "bdd" and old.args[1] is TRUE and old.args[2] is FALSE:
            v1, v0 = bcof(x, old.args[0], 1), bcof(x, old.args[0], 0)
            if v1 is not v0 and bite(v0, bnot(v1), FALSE) is FALSE: return bor(v0, bnot(v1)), v0
    return None
def read(A, i, depth=0):
    """element i of sequence A"""
    o = A.op
    if o == "const": return A.args[1]
    if o == "lit":
        if is_num(i) and 0 <= i.args[0] < len(A.args): return A.args[i.args[0]]
        if len(A.args) and not is_num(i) and len(A.args) <= 8:
            r = A.args[-1]
            for k in range(len(A.args) - 2, -1, -1): r = ite(eq(i, num(k)), A.args[k], r)
            return r
        return UNDEF
    if depth < 40:
        if o == "store":
            d = sub(i, A.args[1])
            if is_num(d): return A.args[2] if d.args[0] == 0 else read(A.args[0], i, depth + 1)
            e = eq0(d)
            if e is FALSE: return read(A.args[0], i, depth + 1)
            r = read(A.args[0], i, depth + 1)
            k = conditional(A)
            if k is not None: return ite(band(k[0], e), k[1], r)
            return ite(e, A.args[2], r)
        if o == "lam": return subst(A.args[2], {A.args[0]: i})
        if o == "splice":
            d = sub(i, A.args[1]); L = length(A.args[2])
            g = band(bnot(lt0(d)), lt(d, L))
            if g is FALSE: return read(A.args[0], i, depth + 1)
            return ite(g, read(A.args[2], d, depth + 1), read(A.args[0], i, depth + 1))
        if o == "slice": return read(A.args[0], add(A.args[1], i), depth + 1)
        if o == "ite": return ite(A.args[0], read(A.args[1], i, depth + 1), read(A.args[2], i, depth + 1))
        if o == "append":
            L = length(A.args[0])
            return ite(lt(i, L), read(A.args[0], i, depth + 1), read(A.args[1], sub(i, L), depth + 1))
        if o == "resize":
            n0 = length(A.args[0])
            return ite(lt(i, n0), read(A.args[0], i, depth + 1), A.args[2])
        if o == "concat" and A.args[3].op == "lit" and len(A.args[3].args) == 1:
            return subst(A.args[3].args[0], {A.args[0]: add(A.args[1], i)})
    if o == "unk" or A.unk and o in ("fld",): return unk("read")
    if A is UNDEF: return UNDEF
    if is_ptr(A) and i is ZERO: return ZERO
    if i.op == "unk": return unk("idx")
    # reads of an ite index stay as they are
    it = single_atom(i)
    if it is not None and it.op == "ite" and depth < 40:
        return ite(it.args[0], read(A, it.args[1], depth + 1), read(A, it.args[2], depth + 1))
    return typed(A, i, (), esort(A))

# ---------------------------------------------------------------- binders
def bind(op, var, pre, body):
    """canonically named binder"""
    h = max([x.bh for x in body if isinstance(x, T)] + [0]) + 1
    lo = pre[0] if op != "lam" else ZERO
    cv = mk("sym", "c%d" % h, "nn" if nonneg(lo) else "")
    if cv is not var:
        body = tuple(subst(x, {var: P(cv)}) for x in body)
        h2 = max([x.bh for x in body] + [0]) + 1
        if h2 != h:   # substitution simplified or grew the body: rename again
            v = fresh("r", cv.args[1])
            return bind(op, v, pre, tuple(subst(x, {cv: P(v)}) for x in body))
    return mk(op, cv, *pre, *body)

def _lin_eq(g, var):
    """e if guard g implies var == e (through one of its literals)"""
    for a in batoms(g):
        if a.op == "eq0" and var in a.fv and bite(g, bnot(bvar(a)), FALSE) is FALSE:
            cl = coeff_linear(a.args[0], var)
            if cl and is_num(cl[0]) and nval(cl[0]) in (1, -1):
                return neg(cl[1]) if nval(cl[0]) == 1 else cl[1]
    return None
def _segment(g, var):
    """g = L(var) <= X < L(var+1) & R, R free of var, L non-decreasing:  (X, L, R) """
    ls = literals(g)
    if ls is None: return None
    dep = [(a, v) for a, v in ls if var in a.fv]
    R = TRUE
    for a, v in ls:
        if var not in a.fv: R = bite(R, bvar(a) if v else bnot(bvar(a)), FALSE)
    if len(dep) == 2 and all(a.op == "lt0" for a, v in dep):
        p, q = (_ineq(a, v) for a, v in dep)
        for p, q in ((p, q), (q, p)):
            # p: X - L(k+1) < 0 ; q: L(k) - X - 1 < 0
            s = add(p, q, ONE)         # L(k) - L(k+1)
            # split p into var-dependent and independent part
            dp = _depsplit(p, var); dq = _depsplit(q, var)
            if subst(dq[0], {var: add(P(var), ONE)}) is neg(dp[0]) and sub(neg(dq[1]), ONE) is dp[1] or (add(dq[1], ONE) is neg(dp[1]) and subst(dq[0], {var: add(P(var), ONE)}) is neg(dp[0])):
                L = dq[0]; X = dp[1]
                if nonneg(sub(subst(L, {var: add(P(var), ONE)}), L)): return X, L, R
    return None
def _depsplit(p, var):
    d = {m: c for m, c in p.args[1] if any(var in a.fv for a, _ in m)}
    return _mkpoly(0, d), _mkpoly(p.args[0], {m: c for m, c in p.args[1] if m not in d})

def summ(var, lo, hi, body):
    if body.op != "poly": body = P(body)
    hi = norm_hi(lo, hi)
    if body is ZERO or lo is hi: return ZERO
    if var not in body.fv: return mul(body, rng_len(lo, hi))
    if is_num(sub(hi, lo)):
        n = nval(sub(hi, lo))
        if n < 0: return ZERO
        if n <= 3: return add(*[subst(body, {var: add(lo, num(k))}) for k in range(n)])
    # telescoping p[v+1]-p[v] (also for any read pair shifted by one)
    items = dict(body.args[1]); used = set(); tel = ZERO
    for m, c in body.args[1]:
        if m in used or len(m) != 1 or m[0][1] != 1: continue
        a = m[0][0]
        if a.op == "read" and var not in a.args[0].fv and known_ge(hi, lo):
            d = sub(a.args[1], P(var))
            if var in d.fv: continue
            m2a = read(a.args[0], sub(a.args[1], ONE))
            m2a = single_atom(m2a) if m2a.op == "poly" else None
            if m2a is None: continue
            m2 = ((m2a, 1),)
            if items.get(m2) == -c and m2 not in used:
                used.add(m); used.add(m2)
                t = sub(read(a.args[0], add(hi, d, num(-1))), read(a.args[0], add(lo, d, num(-1))))
                tel = add(tel, scale(t, c))
    if used:
        return add(tel, summ(var, lo, hi, _mkpoly(body.args[0], {m: c for m, c in body.args[1] if m not in used})))
    ind = _mkpoly(body.args[0], {m: c for m, c in body.args[1] if all(var not in a.fv for a, _ in m)})
    dep = _rawadd(body, neg(ind))
    r = ZERO
    if ind is not ZERO: r = add(r, mul(ind, rng_len(lo, hi)))
    groups = {}
    for m, c in dep.args[1]:
        inv = tuple((a, q) for a, q in m if var not in a.fv)
        vr = tuple((a, q) for a, q in m if var in a.fv)
        groups.setdefault((inv, _gkey(vr)), {})[vr] = c
    for (inv, _), d in groups.items():
        s = _sum1(var, lo, hi, _mkpoly(0, d))
        r = add(r, mul(_mkpoly(0, {inv: 1}) if inv else ONE, s))
    return r
def _gkey(vr):
    # keep sums of different structure apart: one sum per monomial
    return vr
def _sum1(var, lo, hi, body):
    m, c = body.args[1][0]
    if c != 1: return scale(_sum1(var, lo, hi, _mkpoly(0, {m: 1})), c)
    if len(m) == 1 and m[0][1] == 1:
        a = m[0][0]
        if a.op == "ite":
            g, x, y = a.args
            if x is ZERO: g, x, y = bnot(g), y, x
            if y is ZERO:
                # invariant part of the guard comes out
                ls = literals(g)
                if ls:
                    inv = TRUE
                    for at, v in ls:
                        if var not in at.fv: inv = bite(inv, bvar(at) if v else bnot(bvar(at)), FALSE)
                    if inv is not TRUE:
                        g2 = brestrict(g, inv)
                        return ite(inv, summ(var, lo, hi, ite(g2, x, ZERO)), ZERO)
                e = _lin_eq(g, var)
                if e is not None and var not in e.fv:
                    return ite(band(le(lo, e), lt(e, hi)), subst(ite(g, x, ZERO), {var: e}), ZERO)
                s = _segment(g, var)
                if s is not None:
                    X, L, R = s
                    k = first(var, lo, hi, lt(X, subst(L, {var: add(P(var), ONE)})))
                    return ite(band(R, le(subst(L, {var: lo}), X), lt(X, subst(L, {var: hi}))), subst(x, {var: k}), ZERO)
                bs = _cut(g, var, lo, hi)
                if bs is not None:
                    lo2, hi2, g2 = bs
                    return summ(var, lo2, hi2, ite(g2, x, ZERO))
            else:
                # split a two-sided conditional into two guarded sums
                return add(summ(var, lo, hi, ite(g, x, ZERO)), summ(var, lo, hi, ite(bnot(g), y, ZERO)))
        if a.op == "sum" and known_ge(hi, lo):
            # sum over consecutive segments of a body independent of the segment number
            v2, l2, h2, b2 = a.args
            if var not in b2.fv and h2 is subst(l2, {var: add(P(var), ONE)}) and known_ge(h2, l2):
                t = fresh("k", v2.args[1])
                return summ(t, subst(l2, {var: lo}), subst(l2, {var: hi}), subst(b2, {v2: P(t)}))
    return P(bind("sum", var, (lo, hi), (body,)))
def _cut(g, var, lo, hi):
    """move literals  var < c  /  var >= c  of a conjunctive guard into the bounds"""
    ls = literals(g)
    if not ls: return None
    for a, v in ls:
        if a.op == "lt0" and var in a.fv:
            p = _ineq(a, v)
            cl = coeff_linear(p, var)
            if cl is None or not is_num(cl[0]): continue
            rest = brestrict(g, bvar(a) if v else bnot(bvar(a)))
            if nval(cl[0]) == 1:      # var < -rest
                c = neg(cl[1])
                if nonneg(sub(hi, c)): return lo, c, rest
                if nonneg(sub(c, hi)): return lo, hi, rest
                return lo, minp(hi, c), rest
            if nval(cl[0]) == -1:     # var > rest
                c = add(cl[1], ONE)
                if nonneg(sub(c, lo)): return c, hi, rest
                if nonneg(sub(lo, c)): return lo, hi, rest
                return maxp(lo, c), hi, rest
    return None
def exists(var, lo, hi, g):
    hi = norm_hi(lo, hi)
    if g is FALSE or lo is hi: return FALSE
    if nonneg(sub(lo, hi)): return FALSE
    if var not in g.fv: return band(g, lt(lo, hi))
    e = _lin_eq(g, var)
    if e is not None and var not in e.fv: return band(le(lo, e), lt(e, hi), subst(g, {var: e}))
    s = _segment(g, var)
    if s is not None:
        X, L, R = s
        return band(R, le(subst(L, {var: lo}), X), lt(X, subst(L, {var: hi})))
    # exists distributes over the invariant part of a conjunction
    ls = literals(g)
    if ls:
        inv = TRUE
        for at, v in ls:
            if var not in at.fv: inv = bite(inv, bvar(at) if v else bnot(bvar(at)), FALSE)
        if inv is not TRUE: return band(inv, exists(var, lo, hi, brestrict(g, inv)))
        c = _cut(g, var, lo, hi)
        if c is not None: return exists(var, *c)
    if g.op == "bdd" and g.args[1] is TRUE and g.args[2] is FALSE and g.args[0].op == "exists" and known_ge(hi, lo):
        v2, l2, h2, b2 = g.args[0].args
        if var not in b2.fv and h2 is subst(l2, {var: add(P(var), ONE)}) and known_ge(h2, l2):
            t = fresh("k", v2.args[1])
            return exists(t, subst(l2, {var: lo}), subst(l2, {var: hi}), subst(b2, {v2: P(t)}))
    return bvar(bind("exists", var, (lo, hi), (g,)))
def first(var, lo, hi, g):
    """least var in [lo,hi) with g, else max(lo,hi)"""
    if g is TRUE: return lo
    if g is FALSE: return maxp(lo, hi)
    hi = norm_hi(lo, hi)
    if lo is hi: return lo
    return P(bind("first", var, (lo, hi), (g,)))
def lastval(var, lo, hi, g, v):
    """v at the greatest var in [lo,hi) with g (exists is known)"""
    if v is UNDEF: return UNDEF
    hi = norm_hi(lo, hi)
    if var not in v.fv: return v
    if var not in g.fv: return subst(v, {var: sub(hi, ONE)})
    e = _lin_eq(g, var)
    if e is not None and var not in e.fv: return subst(v, {var: e})
    s = _segment(g, var)
    if s is not None:
        X, L, R = s
        return subst(v, {var: first(var, lo, hi, lt(X, subst(L, {var: add(P(var), ONE)})))})
    if is_bool(v): return bvar(bind("lastval", var, (lo, hi), (g, v)))
    t = bind("lastval", var, (lo, hi), (g, v))
    return P(t) if v.op == "poly" else t
def fold(var, lo, hi, h, init, body):
    """init transformed by body (over hole h) for var = lo..hi-1 in order"""
    if body is h or lo is hi: return init
    hi = norm_hi(lo, hi)
    it = single_atom(body) if body.op == "poly" else body
    if it is None or it.op != "ite":
        if body.op == "poly":        # h + ite(..)
            its = [x for x in _ite_atoms(body) if h in x.fv or var in x.args[0].fv]
            if len(its) == 1:
                x = its[0]; c = dict(body.args[1])[((x, 1),)]
                rest = _rawadd(body, scale(P(x), -c))
                if P(h) is add(rest, scale(x.args[2], c)) or P(h) is add(rest, scale(x.args[1], c)):
                    it = mk("ite", x.args[0], add(rest, scale(x.args[1], c)), add(rest, scale(x.args[2], c)))
    if it is not None and it.op == "ite" and h not in it.args[0].fv and var in it.args[0].fv:
        hv = P(h) if body.op == "poly" else h
        for G, e, o in ((it.args[0], it.args[1], it.args[2]), (bnot(it.args[0]), it.args[2], it.args[1])):
            if o is not hv: continue
            # at most one iteration satisfies G
            s = _segment(G, var); q = _lin_eq(G, var)
            if s is not None: T_ = first(var, lo, hi, lt(s[0], subst(s[1], {var: add(P(var), ONE)})))
            elif q is not None and var not in q.fv: T_ = q
            else: continue
            return ite(exists(var, lo, hi, G), subst(e, {var: T_, h: init}), init)
    r = bindfold("fold", var, lo, hi, h, init, body)
    return P(r) if init.op == "poly" else r
def updmap(var, lo, hi, h, base, body):
    if body is h or lo is hi: return base
    return bindfold("updmap", var, lo, hi, h, base, body)
def recev(W, g):
    """g holds in some state met by the recursion W"""
    return g if g is FALSE else mk("recev", W, g)
def bindfold(op, var, lo, hi, h, init, body):
    ht = max(body.bh, init.bh) + 1
    cv = mk("sym", "c%d" % ht, "nn" if nonneg(lo) else "")
    hargs = h.args
    ch = mk(h.op, "h%d" % ht, *hargs[1:])
    hv = P(ch) if h.op == "sym" else ch
    if cv is not var or ch is not h: body = subst(body, {var: P(cv), h: hv})
    return mk(op, cv, lo, hi, ch, init, body)

# ---------------------------------------------------------------- substitution
def _po(x): return x if x.op == "poly" else P(x)
REBUILD = {"clip": lambda a, b: clip(a, b), "llnext": lambda n, h, L, s: llnext(n, _po(h), L, s), "llhead": lambda n, h, L, s: llhead(n, _po(h), L, s),
           "lluniq": lambda n, h, L, s: lluniq(n, _po(h), L, s), "llat": lambda n, h, L, s, i: llat(n, _po(h), L, s, _po(i)),
           "mpos": lambda z, A, a, b, B, c, d, i: P(mk("mpos", z, A, _po(a), _po(b), B, _po(c), _po(d), _po(i))),
           "mlen": lambda A, a, b, B, c, d: P(mk("mlen", A, _po(a), _po(b), B, _po(c), _po(d))),
           "llclear": lambda n, h, L, s, i: llclear(n, _po(h), L, s, _po(i))}
def subst(t, m, care=None):
    """simultaneous substitution; care: guard assumed to hold (simplifies conditionals)"""
    if care is TRUE: care = None
    memo = {}
    keys = frozenset(m)
    def go(t):
        if not (t.fv & keys) and care is None: return t
        if t.op in ("true", "false", "sseq", "unk", "undef"): 
            if t.op == "sseq" and t.args[3] is not None and (t.args[3].fv & keys): return mk("sseq", t.args[0], t.args[1], t.args[2], go(t.args[3]))
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = go1(t)
        return r
    def ga(a):
        if isinstance(a, T): return go(a)
        if isinstance(a, tuple): return tuple(ga(x) for x in a)
        return a
    def gp(a):
        r = go(a)
        return r if r.op == "poly" else P(r)
    def go1(t):
        o = t.op
        if t in m: return m[t]
        if o in ("sym",): return t
        if o == "hole":
            return t if t.args[2] is None else mk("hole", t.args[0], t.args[1], go(t.args[2]))
        if o == "poly":
            plain = {}; acc = []
            for mono, c in t.args[1]:
                if care is None and not any(a.fv & keys for a, _ in mono): plain[mono] = c; continue
                p = num(c)
                for a, q in mono:
                    v = go(a)
                    if v.op != "poly": v = P(v)
                    for _ in range(q): p = mul(p, v)
                acc.append(p)
            return add(_mkpoly(t.args[0], plain), *acc)
        if o == "bdd":
            if care is not None:
                t2 = imp_lits(care, t)
                if t2 is not t: return go(t2)
            g = go(t.args[0])
            if not is_bool(g): g = bvar(single_atom(g) if g.op == "poly" and single_atom(g) is not None else g)
            return thin(bite(g, go(t.args[1]), go(t.args[2])))
        if o == "lt0": return lt0(gp(t.args[0]))
        if o == "eq0": return eq0(gp(t.args[0]))
        if o == "teq0": return teq(gp(t.args[0]), ZERO)
        if o == "tlt": return tlt(*map(gp, t.args))
        if o == "tle": return tle(*map(gp, t.args))
        if o == "ite":
            g = t.args[0]
            if care is not None: g = imp_lits(care, g)
            g = go(g)
            if g is TRUE: return go(t.args[1])
            if g is FALSE: return go(t.args[2])
            return ite(g, go(t.args[1]), go(t.args[2]))
        if o == "read":
            A, i = go(t.args[0]), gp(t.args[1])
            r = read(A, i)
            for k in t.args[2]: r = field(r, k)
            return r
        if o == "fld": return field(go(t.args[0]), t.args[1], t.args[2] if t.args[2] >= 0 else None)
        if o == "len": return length(go(t.args[0]))
        if o == "store": return store(go(t.args[0]), gp(t.args[1]), go(t.args[2]))
        if o == "append": return append(*map(go, t.args))
        if o == "splice": return splice(go(t.args[0]), gp(t.args[1]), go(t.args[2]))
        if o == "slice": return slice_(go(t.args[0]), gp(t.args[1]), gp(t.args[2]))
        if o == "const": return const(*map(go, t.args))
        if o == "resize": return resize(*map(go, t.args))
        if o == "lit": return lit(*map(go, t.args))
        if o in ("fold", "updmap"):
            cv, lo, hi, h, init, body = t.args
            nv = fresh("s", cv.args[1]); nh = mk(h.op, "h#%d" % _serial[0], *h.args[1:])
            m2 = dict(m); m2[cv] = P(nv); m2[h] = P(nh) if h.op == "sym" else nh
            b = subst(body, m2, care)
            return (fold if o == "fold" else updmap)(nv, go(lo), go(hi), nh, go(init), b)
        if o in BINDERS:
            k = BINDERS[o]
            cv = t.args[0]
            nv = fresh("s", cv.args[1])
            pre = [gp(x) for x in t.args[1:k]]
            m2 = dict(m); m2[cv] = P(nv)
            bs = [subst(x, m2, care) for x in t.args[k:]]
            if o == "lam": return lam(pre[0], nv, bs[0])
            return {"sum": summ, "exists": exists, "first": first, "concat": concat, "lastval": lastval}[o](nv, *pre, *bs)
        if o in ("rec", "recev"):
            W = t if o == "rec" else t.args[0]
            m2 = {k: v for k, v in m.items() if k not in W.args[0]}; ns = []
            for h in W.args[0]:
                n = h
                if h.op == "hole" and h.args[2] is not None:
                    n = mk("hole", h.args[0], h.args[1], subst(h.args[2], m2))
                    if n is not h: m2[h] = n
                ns.append(n)
            gu = subst(W.args[1], m2)
            W2 = mk("rec", tuple(ns), gu, tuple(subst(x, m2) for x in W.args[2]), tuple(go(x) for x in W.args[3]))
            return W2 if o == "rec" else recev(W2, subst(t.args[1], m2))
        f = REBUILD.get(o)
        if f: return f(*[ga(a) for a in t.args])
        return mk(o, *[ga(a) for a in t.args])
    return go(t)

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 30: return "…"
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "poly":
        out = []
        if t.args[0] or not t.args[1]: out.append(str(t.args[0]))
        for m, c in t.args[1]:
            z = "*".join(s(a) + ("^%d" % q if q > 1 else "") for a, q in m)
            out.append(z if c == 1 else "-" + z if c == -1 else "%d*%s" % (c, z))
        return "(" + "+".join(out).replace("+-", "-") + ")" if len(out) > 1 else out[0]
    if o in ("sym", "sseq", "hole"): return str(t.args[0])
    if o == "unk": return "?" + str(t.args[0])
    if o == "read": return "%s[%s]%s" % (s(t.args[0]), s(t.args[1]), "".join(".%d" % k for k in t.args[2]))
    if o == "lt0": return "%s<0" % s(t.args[0])
    if o in ("eq0", "teq0"): return "%s==0" % s(t.args[0])
    if o == "bdd":
        a, h, l = t.args
        A = s(a)
        if h is TRUE and l is FALSE: return A
        if h is FALSE and l is TRUE: return "!" + A
        if l is FALSE: return "(%s & %s)" % (A, s(h))
        if h is FALSE: return "(!%s & %s)" % (A, s(l))
        if h is TRUE: return "(%s | %s)" % (A, s(l))
        if l is TRUE: return "(!%s | %s)" % (A, s(h))
        return "(%s ? %s : %s)" % (A, s(h), s(l))
    if o == "ite": return "if(%s, %s, %s)" % tuple(s(x) for x in t.args)
    if o == "sum": return "Σ{%s:%s..%s}%s" % tuple(s(x) for x in t.args)
    if o == "lam": return "λ{%s<%s}.%s" % tuple(s(x) for x in t.args)
    if o == "concat": return "⧺{%s:%s..%s}%s" % tuple(s(x) for x in t.args)
    if o in ("exists", "first"): return "%s{%s:%s..%s}%s" % ((o,) + tuple(s(x) for x in t.args))
    if o == "lastval": return "last{%s:%s..%s|%s}%s" % tuple(s(x) for x in t.args)
    if o in ("fold", "updmap"): return "%s{%s:%s..%s}(%s=%s; %s)" % ((o,) + tuple(s(x) for x in t.args))
    if o == "store": return "%s{%s:=%s}" % tuple(s(x) for x in t.args)
    if o == "slice": return "%s[%s..%s]" % tuple(s(x) for x in t.args)
    if o == "agg": return "%s/%s{%s}" % (str(t.args[0]).split("::")[-1], t.args[1], ", ".join(s(x) for x in t.args[2:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in t.args))
