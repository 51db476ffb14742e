"""Meaning of closed-form terms over one finite structure.

A model maps the symbols of a summary (argument names) to values; `Ev(model).ev(term)` is the denotation of
the term.  A recurrence operator denotes its least fixpoint; a term containing an unknown raises Unknown.
"""
from terms import *
from fractions import Fraction
import functools

class Unknown(Exception): pass      # the summary has no closed form here
class Stuck(Exception): pass
class FirstAt(Stuck):               # search whose predicate has no meaning at position `at`
    def __init__(s, why, key, at, hi): Stuck.__init__(s, why); s.key, s.at, s.hi = key, at, hi
# Stuck: read outside a sequence (meaning undefined)
class Panic(Exception): pass        # a contract's precondition fails

FX, FY = sym("«x»", "t"), sym("«y»", "t")
class G:
    """Gaussian rational"""
    __slots__ = ("re", "im")
    def __init__(s, re, im=0): s.re = re; s.im = im
    def _c(o): return o if isinstance(o, G) else G(o, 0)
    def __add__(s, o): o = G._c(o); return G(s.re + o.re, s.im + o.im)
    __radd__ = __add__
    def __neg__(s): return G(-s.re, -s.im)
    def __sub__(s, o): return s + (-G._c(o))
    def __rsub__(s, o): return G._c(o) - s
    def __mul__(s, o): o = G._c(o); return G(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__
    def __pow__(s, n):
        r = G(1)
        for _ in range(n): r = r * s
        return r
    def __eq__(s, o): o = G._c(o) if isinstance(o, (int, Fraction, G)) else None; return o is not None and s.re == o.re and s.im == o.im
    def __hash__(s): return hash((s.re, s.im)) if s.im else hash(s.re)
    def __repr__(s): return "(%s%+sj)" % (s.re, s.im)

class Agg(tuple):
    """tag, variant, fields..."""
    __slots__ = ()
def A_(tag, variant, *f): return Agg((tag, variant) + f)
class Undefined(tuple):
    """component of a recurrence that has no meaning in this state"""
    __slots__ = ()
    def __new__(c, why): return tuple.__new__(c, (why,))
class Ix(dict):
    """map; a hash map's iteration order is a parameter of the model, a tree map's is that of its keys"""
    sorted = False
    def copy(s):
        r = Ix(s); r.sorted = getattr(s, "sorted", False); return r
def control(t):
    """components the guard of a recurrence depends on: when they repeat, the guard's values repeat for ever"""
    c = CTL.get(t)
    if c is None:
        names, g, fs, _ = t.args
        want = {i for i, n in enumerate(names) if n in g.fv}
        while True:
            more = {i for i, n in enumerate(names) if any(n in fs[k].fv for k in want)}
            if more <= want: break
            want |= more
        c = CTL[t] = sorted(want)
    return c
CTL = {}
def freeze(v):
    if isinstance(v, list): return ("L",) + tuple(freeze(x) for x in v)
    if isinstance(v, Agg): return ("A",) + tuple(freeze(x) for x in v)
    if isinstance(v, dict): return ("D",) + tuple((freeze(k), freeze(x)) for k, x in v.items())
    return v

def sortval(v):
    """a key as Python compares it"""
    if isinstance(v, bool) or isinstance(v, int): return v
    if isinstance(v, Agg):
        if v[0] == "tuple": return tuple(sortval(x) for x in v[2:])
        if "Reverse" in str(v[0]) and isinstance(v[2], int): return -v[2]
    raise Unknown("sort key")
class Ev:
    own = None                  # (kernel, arguments) -> outputs: the kernel's own summary
    def __init__(self, model, oracles=None, apps=None, st=None):
        self.st = st
        self.m = model; self.memo = {}; self.fixed = {}; self.oracles = oracles or {}; self.apps = apps or {}
        self.kmemo = {}; self.steps = 0
    def ev(self, t, env={}):
        o = t.op
        if o == "poly":
            if not t.args[1]: return t.args[0]
            r = t.args[0]
            if r == 0 and len(t.args[1]) == 1:
                (mono, c), = t.args[1]
                if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                    r = self.ev(mono[0][0], env)
                    return int(r) if isinstance(r, bool) else r
            for mono, c in t.args[1]:
                p = c
                for a, q in mono:
                    v = self.ev(a, env)
                    if v is True: v = 1
                    elif v is False: v = 0
                    p = p * (v if q == 1 else v ** q)
                r = r + p
            return r
        if o == "sym" or o == "hole":
            if t in env:
                if isinstance(env[t], Undefined): raise Stuck(env[t][0])
                return env[t]
            n = t.args[0]
            if n in self.m: return self.m[n]
            raise Unknown("free symbol %s" % n)
        if o == "true": return True
        if o == "false": return False
        k = self.mkey(t, env)
        r = self.memo.get(k, self)
        if r is not self:
            if isinstance(r, Exception): raise r
            return r
        self.steps += 1
        if self.steps > 400000: raise Unknown("evaluation budget")
        try:
            f = getattr(self, "e_" + o, None)
            if f is None: raise Unknown("no meaning for %s" % o)
            r = f(t, env)
        except (Unknown, Stuck, Panic) as e:
            self.memo[k] = e
            raise
        self.memo[k] = r
        return r
    def e_fun_sqrt(self, t, env):
        import math
        v = self.ev(t.args[0], env)
        if isinstance(v, G) or v < 0: raise Unknown("square root of %r" % (v,))
        return Fraction(math.sqrt(v))
    def e_fun_floor(self, t, env): import math; return Fraction(math.floor(self.ev(t.args[0], env)))
    def e_fun_ceil(self, t, env): import math; return Fraction(math.ceil(self.ev(t.args[0], env)))
    def mkey(self, t, env):
        if env:
            for x in t.fv:
                if x in env: return t, tuple((x.id, freeze(env[x])) for x in sorted(t.fv, key=lambda x: x.id) if x in env)
        return t
    def certain(self, t, d=0):
        """a condition, decided also when it refers to a search that meets something without meaning: such a search ends there or later"""
        try: return self.ev(t, {})
        except FirstAt as x:
            if d > 2 or x.hi - x.at > 12: raise
            memo = self.memo; r = None
            try:
                for v in range(x.at, x.hi + 1):
                    self.memo = {k: w for k, w in self.fixed.items()}; self.memo[x.key] = v; self.fixed[x.key] = v
                    w = self.certain(t, d + 1)
                    if r is not None and w != r: raise x
                    r = w
                return r
            finally: self.memo = memo; self.fixed.pop(x.key, None)
    # ---------------------------------------------------------------- booleans
    def e_bdd(self, t, env):
        try: g = self.ev(t.args[0], env)
        except (Unknown, Stuck):
            # unknown condition: the answer may not depend on it
            a = self.ev(t.args[1], env); b = self.ev(t.args[2], env)
            if a == b: return a
            raise
        return self.ev(t.args[1] if g else t.args[2], env)
    def e_lt0(self, t, env): return self.ev(t.args[0], env) < 0
    def e_eq0(self, t, env): return self.ev(t.args[0], env) == 0
    def e_teq0(self, t, env): return self.ev(t.args[0], env) == 0
    def e_tlt(self, t, env): return self.ev(t.args[0], env) < self.ev(t.args[1], env)
    def e_tle(self, t, env): return self.ev(t.args[0], env) <= self.ev(t.args[1], env)
    def e_opeq(self, t, env):
        a = t.args[0]; b = t.args[1]
        a = self.ev(a, env) if isinstance(a, T) else a
        b = self.ev(b, env) if isinstance(b, T) else b
        return freeze(a) == freeze(b)
    def e_nonzero(self, t, env):
        v = self.ev(t.args[0], env)
        return v != 0
    def e_fits(self, t, env):
        v = self.ev(t.args[0], env)
        mx = self.m.get("#IMAX")
        return v >= 0 and (mx is None or v <= mx)
    def e_fitss(self, t, env):
        v = self.ev(t.args[0], env)
        mx = self.m.get("#IMAX")
        return mx is None or -mx - 1 <= v <= mx
    def e_imax(self, t, env):
        return self.m.get("#IMAX") or 10 ** 9
    def e_exists(self, t, env):
        v, lo, hi, b = t.args
        e = dict(env)
        bad = None
        for k in range(self.ev(lo, env), self.ev(hi, env)):
            e[v] = k
            try:
                if self.ev(b, e): return True
            except Stuck as x: bad = bad or x
        if bad: raise bad
        return False
    # ---------------------------------------------------------------- numbers
    def e_sum(self, t, env):
        v, lo, hi, b = t.args
        e = dict(env); r = 0
        for k in range(self.ev(lo, env), self.ev(hi, env)):
            e[v] = k
            r = r + self.ev(b, e)
        return r
    def e_first(self, t, env):
        v, lo, hi, b = t.args
        e = dict(env); l, h = self.ev(lo, env), self.ev(hi, env)
        for k in range(l, h):
            e[v] = k
            try:
                if self.ev(b, e): return k
            except Stuck as x: raise FirstAt(str(x), self.mkey(t, env), k, h)
        return max(l, h)
    def e_lastval(self, t, env):
        v, lo, hi, g, b = t.args
        e = dict(env)
        for k in range(self.ev(hi, env) - 1, self.ev(lo, env) - 1, -1):
            e[v] = k
            if self.ev(g, e): return self.ev(b, e)
        raise Stuck("lastval of nothing")
    def e_clip(self, t, env): return max(self.ev(t.args[0], env), self.ev(t.args[1], env))
    def e_idiv(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0: raise Stuck("div by zero")
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    def e_irem(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0: raise Stuck("rem by zero")
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    def e_tdiv(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0: return A_("div0", 0, a)
        if isinstance(a, G) or isinstance(b, G): raise Unknown("complex division")
        return Fraction(a) / b
    def e_abs(self, t, env): return abs(self.ev(t.args[0], env))
    def e_signum(self, t, env):
        v = self.ev(t.args[0], env)
        return 1 if v >= 0 else -1
    def e_conj(self, t, env):
        v = G._c(self.ev(t.args[0], env)); return G(v.re, -v.im)
    def e_re(self, t, env): return G._c(self.ev(t.args[0], env)).re
    def e_im(self, t, env): return G._c(self.ev(t.args[0], env)).im
    def e_cnew(self, t, env): return G(self.ev(t.args[0], env), self.ev(t.args[1], env))
    def e_fconst(self, t, env): return Fraction(t.args[0])
    def e_app(self, t, env):
        f = self.apps.get(t.args[0])
        if f is None: raise Unknown("function symbol")
        return f(*[self.ev(a, env) for a in t.args[1:]])
    # ---------------------------------------------------------------- aggregates
    def e_agg(self, t, env):
        return Agg((t.args[0], t.args[1]) + tuple(self.ev(x, env) for x in t.args[2:]))
    def e_ite(self, t, env):
        return self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)
    def e_fld(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (G, int, Fraction)) and not isinstance(v, bool): return (G._c(v).re, G._c(v).im)[t.args[1]]
        if not isinstance(v, Agg): raise Unknown("field of a non-aggregate")
        if t.args[2] >= 0 and v[1] != t.args[2]: raise Stuck("field of another variant")
        return v[2 + t.args[1]]
    def e_discr(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, Agg): raise Unknown("discriminant")
        return v[1] - (v[0] == "std::cmp::Ordering")
    def e_undef(self, t, env): raise Stuck("undefined")
    def e_unk(self, t, env): raise Unknown(str(t.args[0]))
    def e_errv(self, t, env): return A_("errv", 0)
    def e_errfmt(self, t, env): return A_("errv", 0)
    def e_opaque(self, t, env): raise Unknown("opaque")
    # ---------------------------------------------------------------- sequences
    def e_sseq(self, t, env):
        n = t.args[0]
        if n in self.m: return self.m[n]
        raise Unknown("free sequence %s" % n)
    def e_lit(self, t, env): return [self.ev(x, env) for x in t.args]
    def e_const(self, t, env):
        n = self.ev(t.args[0], env)
        if n > 10000: raise Unknown("huge")
        if n <= 0: return []
        return [self.ev(t.args[1], env)] * n
    def e_lam(self, t, env):
        v, n, b = t.args
        e = dict(env); r = []
        for k in range(self.ev(n, env)):
            e[v] = k; r.append(self.ev(b, e))
        return r
    def e_store(self, t, env):
        A = list(self.ev(t.args[0], env))
        # a store that is out of range, or whose place is undefined, happens in no execution: the bounds event of
        # the access is judged separately, so here it leaves the sequence as it is
        try: i = self.ev(t.args[1], env)
        except Stuck: return A
        if not 0 <= i < len(A): return A
        A[i] = self.ev(t.args[2], env); return A
    def mpath(self, args, env):
        """walk along two runs, the smaller key (or both, when equal) advancing, until one run is exhausted: the positions met.
        A walk that leaves an array ends with the step that does."""
        A, a, b, B, c, d = [self.ev(x, env) for x in args]
        out = [(a, c)]
        while a < b and c < d and 0 <= a < len(A) and 0 <= c < len(B):
            x, y = A[a], B[c]
            a, c = a + (x <= y), c + (y <= x)
            out.append((a, c))
        if a < b and c < d: out.append(None)
        return out
    def e_mlen(self, t, env): return len(self.mpath(t.args, env)) - 1
    def e_mpos(self, t, env):
        U = self.mpath(t.args[1:7], env); i = self.ev(t.args[7], env)
        if not 0 <= i < len(U) or U[i] is None: raise Stuck("walk beyond the runs")
        return U[i][t.args[0]]
    def ll(self, t, env):
        """keys linked, with the array they were linked into"""
        n0, h0, L, s = [self.ev(a, env) for a in t.args[:4]]
        N = list(n0); h = h0; U = []
        for k in L:
            if not 0 <= k < len(N): raise Stuck("key outside")
            if N[k] == s: N[k] = h; h = k; U.append(k)
        if h0 == s or len(set(U)) != len(U): raise Unknown("chain head equals the free marker")
        return N, h, U
    def e_llnext(self, t, env): return self.ll(t, env)[0]
    def e_llhead(self, t, env): return self.ll(t, env)[1]
    def e_lluniq(self, t, env): return self.ll(t, env)[2]
    def e_llat(self, t, env):
        N, h, U = self.ll(t, env); i = self.ev(t.args[4], env)
        if not 0 <= i <= len(U): raise Stuck("walk beyond the chain")
        return U[len(U) - 1 - i] if i < len(U) else self.ev(t.args[1], env)
    def e_llclear(self, t, env):
        N, h, U = self.ll(t, env); i = self.ev(t.args[4], env)
        if not 0 <= i <= len(U): raise Stuck("walk beyond the chain")
        s = self.ev(t.args[3], env)
        N = list(N)
        for k in U[len(U) - i:]: N[k] = s
        return N
    def e_splice(self, t, env):
        A = list(self.ev(t.args[0], env)); i = self.ev(t.args[1], env); S = self.ev(t.args[2], env)
        if i < 0 or i + len(S) > len(A): raise Stuck("store outside")
        A[i:i + len(S)] = S; return A
    def e_append(self, t, env): return self.ev(t.args[0], env) + self.ev(t.args[1], env)
    def e_concat(self, t, env):
        v, lo, hi, b = t.args
        e = dict(env); r = []
        for k in range(self.ev(lo, env), self.ev(hi, env)):
            e[v] = k; r = r + self.ev(b, e)
        return r
    def e_slice(self, t, env):
        A = self.ev(t.args[0], env); l, h = self.ev(t.args[1], env), self.ev(t.args[2], env)
        if not 0 <= l <= h <= len(A): raise Stuck("slice outside")
        return A[l:h]
    def e_resize(self, t, env):
        A = self.ev(t.args[0], env); n = self.ev(t.args[1], env)
        return A[:n] + [self.ev(t.args[2], env)] * max(0, n - len(A))
    def e_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, dict)): return len(v)
        raise Unknown("length")
    def e_read(self, t, env):
        A = t.args[0]
        if A.op == "lam":
            pass
        v = self.ev(A, env); i = self.ev(t.args[1], env)
        if not isinstance(v, list): raise Unknown("read of a non-sequence")
        if not 0 <= i < len(v): raise Stuck("read outside")
        r = v[i]
        for k in t.args[2]:
            r = r[2 + k] if isinstance(r, Agg) else r[k]
        return r
    def e_sorted(self, t, env):
        A, key, how = t.args
        v = list(self.ev(A, env))
        if isinstance(key, T): raise Unknown("sort key")
        if not isinstance(key, tuple): raise Unknown("sort key")
        return stable_sort(v if how == "stable" else v[::-1], key)
    def e_sortedm(self, t, env):
        A, M, mode, how = t.args
        v = list(self.ev(A, env)); m = self.ev(M, env)
        if not isinstance(m, list) or len(m) != len(v): raise Unknown("sort keys")
        ix = list(range(len(v)))
        if how != "stable": ix = ix[::-1]
        if mode == "key": ix.sort(key=lambda i: sortval(m[i]))
        else:
            if not all(m[i][i] == 0 and all(m[i][j] == -m[j][i] for j in ix) for i in ix): raise Unknown("not an order")
            ix.sort(key=functools.cmp_to_key(lambda i, j: m[i][j]))
        return [v[i] for i in ix]
    def e_fold(self, t, env):
        v, lo, hi, h, init, b = t.args
        e = dict(env); acc = self.ev(init, env)
        for k in range(self.ev(lo, env), self.ev(hi, env)):
            e[v] = k; e[h] = acc
            acc = self.ev(b, e)
        return acc
    e_updmap = e_fold
    # ---------------------------------------------------------------- recursion operator
    def e_rec(self, t, env):
        """states of the recurrence system up to its fixed point; whether a state repeats; what is undefined"""
        names, g, fs, inits = t.args
        vals = [self.part(x, env) for x in inits]
        ctl = control(t)
        seen = set(); states = []
        while True:
            e = dict(env); e.update(zip(names, vals))
            states.append(e)
            k = freeze([vals[i] for i in ctl])
            if k in seen: return states, True, None
            seen.add(k)
            if len(states) > 600: return states, False, Unknown("recursion depth")
            try:
                if not self.ev(g, e): return states, False, None
                vals = [self.part(f, e) for f in fs]
            except (Unknown, Stuck, Panic) as x: return states, False, x
    def part(self, f, e):
        """a component without meaning stays so until it is used"""
        try: return self.ev(f, e)
        except Stuck as x: return Undefined(str(x))
    def recfinal(self, t, env):
        s, rep, x = self.ev(t.args[0], env)
        if x is not None: raise x
        if rep: raise Stuck("does not terminate")
        v = s[-1][t.args[0].args[0][t.args[1]]]
        if isinstance(v, Undefined): raise Stuck(v[0])
        return v
    e_recv = e_recs = e_recm = recfinal
    def e_recloop(self, t, env): return self.ev(t.args[0], env)[1]
    def e_recev(self, t, env):
        s, rep, x = self.ev(t.args[0], env)
        for st in s:
            if self.ev(t.args[1], st): return True
        if x is not None: raise x
        return False
    # ---------------------------------------------------------------- maps
    def e_emptymap(self, t, env):
        r = Ix(); r.sorted = bool(t.args); return r
    def e_smap(self, t, env):
        n = t.args[0]
        if n in self.m: return self.m[n]
        raise Unknown("free map %s" % n)
    def key(self, v): return freeze(v)
    def e_mapins(self, t, env):
        M = Ix.copy(self.ev(t.args[0], env)); k = self.ev(t.args[1], env)
        M[self.key(k)] = self.ev(t.args[2], env); return M
    def e_maprem(self, t, env):
        M = Ix.copy(self.ev(t.args[0], env)); M.pop(self.key(self.ev(t.args[1], env)), None); return M
    def e_maphas(self, t, env): return self.key(self.ev(t.args[1], env)) in self.ev(t.args[0], env)
    def e_mapval(self, t, env):
        M = self.ev(t.args[0], env); k = self.key(self.ev(t.args[1], env))
        if k not in M: raise Stuck("no such key")
        return M[k]
    def e_maplen(self, t, env): return len(self.ev(t.args[0], env))
    def order(self, M):
        try: ks = sorted(M)
        except TypeError: ks = sorted(M, key=repr)
        if getattr(M, "sorted", False): return ks
        return ks[::-1] if self.m.get("#order") else ks
    def e_mapkey(self, t, env):
        M = self.ev(t.args[0], env); p = self.ev(t.args[1], env)
        ks = self.order(M)
        if not 0 <= p < len(ks): raise Stuck("map position")
        k = ks[p]
        if isinstance(k, tuple) and k and k[0] == "A": return Agg(k[1:])
        return k
    def e_mapat(self, t, env):
        M = self.ev(t.args[0], env); p = self.ev(t.args[1], env)
        ks = self.order(M)
        if not 0 <= p < len(ks): raise Stuck("map position")
        return M[ks[p]]
    # ---------------------------------------------------------------- text
    def e_str(self, t, env): return t.args[0]
    def e_char(self, t, env): return chr(t.args[0])
    def e_bytes(self, t, env): return bytes(t.args[0]).decode("utf-8", "replace")
    def e_disp(self, t, env): return A_("disp", 0, self.ev(t.args[0], env))
    def e_pretty(self, t, env): return A_("pretty", 0, self.ev(t.args[0], env))
    def e_trim(self, t, env):
        v = list(self.ev(t.args[0], env))
        while v and isinstance(v[-1], str):
            s = v[-1].rstrip("\n")
            if s: v[-1] = s; break
            v.pop()
        return v
    # ---------------------------------------------------------------- references, functions
    def e_ref(self, t, env):
        if self.st is None or t.args[0] not in self.st: raise Unknown("dangling reference")
        v = self.ev(self.st[t.args[0]], env)
        for el in t.args[1]:
            if el[0] == "f" and isinstance(v, Agg): v = v[2 + el[1]]
            elif el[0] == "ix" and isinstance(v, list):
                i = self.ev(el[1], env)
                if not 0 <= i < len(v): raise Stuck("reference outside")
                v = v[i]
            elif el[0] == "win" and isinstance(v, list):
                a, b = self.ev(el[1], env), self.ev(el[2], env)
                if not 0 <= a <= b <= len(v): raise Stuck("reference outside")
                v = v[a:b]
            elif el[0] == "key" and isinstance(v, dict): v = v[self.ev(el[1], env)]
            else: raise Unknown("reference path")
        return v
    def e_natk(self, t, env): return self.e_K(t, env)
    def e_opfn(self, t, env):
        b = t.args[0]
        def f(x, y): return self.ev(b, {FX: x, FY: y})
        return f
    # ---------------------------------------------------------------- contracts
    @staticmethod
    def outs(name):
        import contracts
        return contracts.K[name][1] if name in contracts.K else {}
    def e_K(self, t, env):
        (name, out), es, ln = t.args[0], t.args[1], t.args[2]
        args = [self.ev(a, env) for a in t.args[3:]]
        k = (name, freeze(args))
        r = self.kmemo.get(k)
        if r is None:
            try:
                r = self.oracles[name](self, *args); mx = self.m.get("#IMAX")
                if mx is not None:
                    for o, so in self.outs(name).items():
                        if so == "i" and isinstance(r.get(o), list) and any(isinstance(v, int) and v > mx for v in r[o]): raise Panic("does not fit the index type")
            except Unknown as e:        # outside the contract: what the kernel itself does there
                try: r = self.own(name, args) if self.own else e
                except (Panic, Unknown, Stuck) as e2: r = e2 if isinstance(e2, Panic) else e
            except (Panic, Stuck) as e: r = e
            except (IndexError, ZeroDivisionError, KeyError) as e: r = Panic("%s: outside its arrays" % name)
            self.kmemo[k] = r
        if out == "#panic": return isinstance(r, Panic)
        if isinstance(r, Exception): raise Stuck(str(r)) if isinstance(r, Panic) else r
        return r[out]

def proj(x, path):
    for k in path: x = x[2 + k] if isinstance(x, Agg) else x[k]
    return x
def stable_sort(v, key):
    """stable sort by lexicographic (path, direction) keys"""
    v = list(v)
    for path, d in reversed(key): v.sort(key=lambda x: freeze(proj(x, path)), reverse=d < 0)
    return v
