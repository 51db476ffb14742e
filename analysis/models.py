"""Closed-form models of the standard library (and of the few external crates used)."""
from terms import *
import re
import native

RNG, RFROM, RTO, RFULL, RINC, RTOI = "std::ops::Range", "std::ops::RangeFrom", "std::ops::RangeTo", "std::ops::RangeFull", "std::ops::RangeInclusive", "std::ops::RangeToInclusive"
ORD = "std::cmp::Ordering"
ERRV = mk("errv")
FS = mk("errfmt")

def poly(v): return v if v.op == "poly" else P(v)
def ordering(lt_, eq_): return ite(lt_, agg(ORD, 0), ite(eq_, agg(ORD, 1), agg(ORD, 2)))

# ------------------------------------------------------------------ maps
def smap(name, vs): return mk("smap", name, vs)
EMPTYMAP = mk("emptymap"); EMPTYTREE = mk("emptymap", "sorted")
def keyeq(a, b):
    if a is b: return TRUE
    if a.op == "agg" and b.op == "agg" and len(a.args) == len(b.args):
        return band(*[keyeq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "poly" and b.op == "poly": return eq(a, b)
    return bvar(mk("opeq", a, b))
def mapins(M, k, v):
    if M.op == "mapins" and M.args[1] is k: return mapins(M.args[0], k, v)
    return mk("mapins", M, k, v)
def maprem(M, k):
    if M.op == "emptymap": return M
    return mk("maprem", M, k)
def mapvs(M):
    if M.op == "smap": return M.args[1]
    if M.op == "hole": return M.args[1][1] if isinstance(M.args[1], tuple) and M.args[1][0] == "M" else "t"
    if M.op == "mapins":
        return vsort(M.args[2])
    if M.op == "maprem": return mapvs(M.args[0])
    if M.op == "ite": return mapvs(M.args[1]) or mapvs(M.args[2])
    if M.op == "updmap":
        return mapvs(M.args[5]) or mapvs(M.args[4])
    if M.op == "recm": return M.args[2][1]
    return None
def maphas(M, k, d=0):
    o = M.op
    if o == "emptymap": return FALSE
    if d < 20:
        if o == "mapins": return bor(keyeq(k, M.args[1]), maphas(M.args[0], k, d + 1))
        if o == "maprem": return band(bnot(keyeq(k, M.args[1])), maphas(M.args[0], k, d + 1))
        if o == "ite": return bite(M.args[0], maphas(M.args[1], k, d + 1), maphas(M.args[2], k, d + 1))
        if o == "updmap":
            c = _simpleupd(M)
            if c:
                v, lo, hi, g, key, val, base = c
                return bor(exists(v, lo, hi, band(g, keyeq(k, key))), maphas(base, k, d + 1))
    return bvar(mk("maphas", M, k))
def mapval(M, k, d=0):
    o = M.op
    if o == "emptymap": return UNDEF
    if d < 20:
        if o == "mapins": return ite(keyeq(k, M.args[1]), M.args[2], mapval(M.args[0], k, d + 1))
        if o == "maprem": return mapval(M.args[0], k, d + 1)
        if o == "ite": return ite(M.args[0], mapval(M.args[1], k, d + 1), mapval(M.args[2], k, d + 1))
        if o == "updmap":
            c = _simpleupd(M)
            if c:
                v, lo, hi, g, key, val, base = c
                gg = band(g, keyeq(k, key))
                return ite(exists(v, lo, hi, gg), lastval(v, lo, hi, gg, val), mapval(base, k, d + 1))
    s = mapvs(M)
    t = mk("mapval", M, k, s or "t")
    if s == "b": return bvar(t)
    if isinstance(s, tuple): return t
    return P(t)
def _simpleupd(M):
    v, lo, hi, h, base, body = M.args
    g = TRUE
    b = body
    while b.op == "ite":
        if b.args[2] is h: g = band(g, b.args[0]); b = b.args[1]
        elif b.args[1] is h: g = band(g, bnot(b.args[0])); b = b.args[2]
        else: return None
    if b.op == "mapins" and b.args[0] is h and not any(h in x.fv for x in (g, b.args[1], b.args[2])):
        nv = fresh("s", v.args[1])
        m = {v: P(nv)}
        return nv, lo, hi, subst(g, m), subst(b.args[1], m), subst(b.args[2], m), base
    return None
def mapget(M, k):
    h = maphas(M, k)
    return ite(h, some(mapval(M, k)), NONE)
def maplen(M):
    if M.op == "emptymap": return ZERO
    if M.op == "ite": return ite(M.args[0], maplen(M.args[1]), maplen(M.args[2]))
    return P(mk("maplen", M))
REBUILD["mapins"] = mapins; REBUILD["maprem"] = maprem
REBUILD["maplen"] = lambda M: maplen(M)
REBUILD["maphas"] = lambda M, k: maphas(M, k)
REBUILD["mapval"] = lambda M, k, s: mapval(M, k)

# ------------------------------------------------------------------ strings
def pieces(I, v, st):
    v = I.rdd(v, st)
    if v.op in ("str",): return lit(v)
    if v.op == "bytes": return lit(mk("str", bytes(v.args[0]).decode("utf-8", "replace")))
    if v.op in ("lit", "append", "concat", "sseq", "slice", "hole", "lam", "const"): return v
    if v.op == "ite": return ite(v.args[0], pieces(I, v.args[1], st), pieces(I, v.args[2], st))
    if v.op == "char": return lit(mk("str", chr(v.args[0])))
    return lit(mk("disp", v))
def fmt_arguments(I, tmpl, args, st):
    t = I.rdd(tmpl, st)
    a = I.rdd(args, st)
    if t.op == "bytes": bs = t.args[0]
    elif t.op == "str": bs = t.args[0].encode()
    else: return lit(unk("fmt"))
    out = EMPTY; i = 0; na = 0
    while i < len(bs):
        b = bs[i]
        if b == 0: break
        if b < 0x80:
            out = append(out, lit(mk("str", bytes(bs[i + 1:i + 1 + b]).decode("utf-8", "replace")))); i += 1 + b
        elif b == 0x80:
            n = bs[i + 1] | bs[i + 2] << 8
            out = append(out, lit(mk("str", bytes(bs[i + 3:i + 3 + n]).decode("utf-8", "replace")))); i += 3 + n
        elif b == 0xc0:
            x = read(a, num(na)) if a.op == "lit" else unk("fmtarg"); na += 1; i += 1
            if x.op == "agg" and x.args[0] == "FmtArg": x = x.args[2]
            out = append(out, pieces(I, x, st))
        else:
            # placeholder with options: keep the argument, mark the options
            return append(out, lit(unk("fmtopts")))
    return out

# ------------------------------------------------------------------ iterators
def to_iter(I, v, st):
    """IntoIterator::into_iter"""
    if v.op == "agg":
        if v.args[0] == RNG or v.args[0] == RFROM or str(v.args[0]).startswith("It:"): return v
        if v.args[0] == RINC: return agg(RNG, 0, v.args[2], add(v.args[3], ONE))
        if v.args[0] == OPT: return agg("It:seq", 0, ite(eq0(I.discr(v, None)), EMPTY, lit(field(v, 0, 1))), ZERO, I.discr(v, None))
    if v.op == "ref":
        x = I.deref(v, st)
        if x.op == "ref" or (x.op == "agg" and (x.args[0] == RNG or str(x.args[0]).startswith("It:"))):
            if x.op == "ref": return to_iter(I, x, st)
            return agg("It:byref", 0, v)
        if x.op in MAPOPS: return agg("It:kv", 0, x, ZERO, maplen(x))
        if x.op == "agg" and x.args[0] == OPT: return to_iter(I, x, st)
        if is_seq(x): return agg("It:slice", 0, v, ZERO, length(x))
        return agg("It:unk", 0)
    if v.op in MAPOPS: return agg("It:kv", 0, v, ZERO, maplen(v))
    if is_seq(v): return agg("It:seq", 0, v, ZERO, length(v))
    if v.op == "ite":
        a, b = to_iter(I, v.args[1], st), to_iter(I, v.args[2], st)
        return ite(v.args[0], a, b)
    return agg("It:unk", 0)
MAPOPS = {"recm", "smap", "emptymap", "mapins", "maprem", "updmap"}
def is_seq(v):
    if v.op in ("lit", "const", "lam", "append", "store", "slice", "sseq", "concat", "resize", "sorted", "sortedm", "klen", "recs", "splice", "llnext", "lluniq", "llclear"): return True
    if v.op == "hole": return not (isinstance(v.args[1], tuple) and v.args[1][0] == "M")
    if v.op == "read": return isinstance(v.args[3], tuple) and v.args[3][0] == "S"
    if v.op == "ite": return is_seq(v.args[1]) or is_seq(v.args[2])
    if v.op == "K": return True
    return False
def kind(it): return it.args[0] if it.op == "agg" else None
def f_(it, i): return it.args[2 + i]
def with_(it, **kw):
    a = list(it.args)
    for k, v in kw.items(): a[2 + int(k[1:])] = v
    return mk("agg", *a)

def ixlen(I, it, st):
    """number of remaining elements, None if unknown"""
    k = kind(it)
    if k == RNG: return maxp(ZERO, sub(f_(it, 1), f_(it, 0))) if not known_ge(f_(it, 1), f_(it, 0)) else sub(f_(it, 1), f_(it, 0))
    if k in ("It:slice", "It:seq", "It:kv", "It:windows", "It:chunks"): return sub(f_(it, 2), f_(it, 1))
    if k in ("It:map", "It:enum", "It:cloned"): return ixlen(I, f_(it, 0), st)
    if k == "It:zip":
        a, b = ixlen(I, f_(it, 0), st), ixlen(I, f_(it, 1), st)
        if a is None: return b
        if b is None: return a
        return minp(a, b)
    if k == "It:rev" or k == "It:step":
        n = ixlen(I, f_(it, 0), st)
        if n is None: return None
        if k == "It:rev": return sub(n, f_(it, 1))
        s = f_(it, 1)
        tot = ite(lt(ZERO, n), add(P(mk("idiv", sub(n, ONE), s)), ONE), ZERO) if not (is_num(s) and nval(s) == 1) else n
        return sub(tot, f_(it, 2))
    if k == "It:take":
        n = ixlen(I, f_(it, 0), st)
        return f_(it, 1) if n is None else minp(n, f_(it, 1))
    return None
def ixget(I, it, i, st, site):
    """element number i of the remaining ones"""
    k = kind(it)
    if k == RNG: return add(f_(it, 0), i)
    if k == RFROM: return add(f_(it, 0), i)
    if k == "It:slice":
        r = f_(it, 0)
        if r.op == "ref": return mk("ref", r.args[0], I.extpath(r.args[1], ("ix", add(f_(it, 1), i))))
        if r.op == "ite":
            return ite(r.args[0], ixget(I, with_(it, f0=r.args[1]), i, st, site), ixget(I, with_(it, f0=r.args[2]), i, st, site))
        return read(I.rdd(r, st), add(f_(it, 1), i))
    if k == "It:seq": return read(f_(it, 0), add(f_(it, 1), i))
    if k == "It:kv":
        M = f_(it, 0); p = add(f_(it, 1), i)
        return tup(mk("mapkey", M, p), mapat(M, p))
    if k == "It:map":
        x = ixget(I, f_(it, 0), i, st, site)
        return I.call_closure(f_(it, 1), [x], st, site + "m")
    if k == "It:enum": return tup(add(f_(it, 1), i), ixget(I, f_(it, 0), i, st, site))
    if k == "It:cloned": return I.rdd(ixget(I, f_(it, 0), i, st, site), st)
    if k == "It:zip": return tup(ixget(I, f_(it, 0), i, st, site), ixget(I, f_(it, 1), i, st, site))
    if k == "It:rev":
        n = ixlen(I, f_(it, 0), st)
        return ixget(I, f_(it, 0), sub(sub(n, ONE), add(f_(it, 1), i)), st, site)
    if k == "It:step": return ixget(I, f_(it, 0), mul(add(f_(it, 2), i), f_(it, 1)), st, site)
    if k == "It:take": return ixget(I, f_(it, 0), i, st, site)
    if k in ("It:windows", "It:chunks"):
        r = f_(it, 0); w = f_(it, 3); p = add(f_(it, 1), i)
        if k == "It:windows": lo, hi = p, add(p, w)
        else:
            lo = mul(p, w); hi = minp(add(lo, w), length(I.rdd(r, st)))
        if r.op == "ref": return mk("ref", r.args[0], I.extpath(r.args[1], ("win", lo, hi)))
        return slice_(I.rdd(r, st), lo, hi)
    if k == "It:repeat": return f_(it, 0)
    return unk("iter")
def mapkeyfield(M, p):
    return mk("mapkey", M, p)
def mapat(M, p):
    s = mapvs(M)
    t = mk("mapat", M, p, s or "t")
    if s == "b": return bvar(t)
    return t if isinstance(s, tuple) else P(t)

def nxt(I, it, st, site, g=TRUE):
    """(has, keep, element, iterator afterwards)"""
    k = kind(it)
    if k == RNG:
        lo, hi = f_(it, 0), f_(it, 1)
        return lt(lo, hi), TRUE, lo, with_(it, f0=add(lo, ONE))
    if k == RFROM: return TRUE, TRUE, f_(it, 0), with_(it, f0=add(f_(it, 0), ONE))
    if k in ("It:slice", "It:seq", "It:kv", "It:windows", "It:chunks"):
        return lt(f_(it, 1), f_(it, 2)), TRUE, ixget(I, it, ZERO, st, site), with_(it, f1=add(f_(it, 1), ONE))
    if k == "It:map":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        y = guarded(I, band(g, has, keep), st, lambda s: I.call_closure(f_(it, 1), [x], s, site + "m"))
        return has, keep, y, with_(it, f0=it2)
    if k == "It:enum":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        return has, keep, tup(f_(it, 1), x), with_(it, f0=it2, f1=ite(keep, add(f_(it, 1), ONE), f_(it, 1)))
    if k == "It:cloned":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        return has, keep, I.rdd(x, st), with_(it, f0=it2)
    if k == "It:zip":
        h1, k1, x, a2 = nxt(I, f_(it, 0), st, site + "a", g)
        h2, k2, y, b2 = nxt(I, f_(it, 1), st, site + "b", g)
        if k1 is not TRUE or k2 is not TRUE: return bvar(unk("zip")), TRUE, unk("zip"), it
        return band(h1, h2), TRUE, tup(x, y), with_(it, f0=a2, f1=b2)
    if k in ("It:rev", "It:step"):
        n = ixlen(I, it, st)
        if n is None: return bvar(unk("rev")), TRUE, unk("rev"), it
        j = 1 if k == "It:rev" else 2
        # index-based: remaining > 0
        if k == "It:rev":
            tot = ixlen(I, f_(it, 0), st)
            return lt(f_(it, 1), tot), TRUE, ixget(I, it, ZERO, st, site), with_(it, f1=add(f_(it, 1), ONE))
        tot = add(n, f_(it, 2))
        return lt(f_(it, 2), tot), TRUE, ixget(I, it, ZERO, st, site), with_(it, f2=add(f_(it, 2), ONE))
    if k == "It:take":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        n = f_(it, 1)
        return band(has, lt(ZERO, n)), keep, x, with_(it, f0=it2, f1=ite(keep, sub(n, ONE), n))
    if k == "It:filter":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        cell = mk("cell", "flt", site); st[cell] = x
        c = guarded(I, band(g, has, keep), st, lambda s: I.call_closure(f_(it, 1), [mk("ref", cell, ())], s, site + "f"))
        st.pop(cell, None)
        return has, band(keep, asbool(c)), x, with_(it, f0=it2)
    if k == "It:filter_map":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        c = guarded(I, band(g, has, keep), st, lambda s: I.call_closure(f_(it, 1), [x], s, site + "f"))
        d = I.discr(c, None)
        return has, band(keep, eq(d, ONE)), field(c, 0, 1), with_(it, f0=it2)
    if k == "It:take_while":
        has, keep, x, it2 = nxt(I, f_(it, 0), st, site, g)
        cell = mk("cell", "flt", site); st[cell] = x
        c = guarded(I, band(g, has, keep), st, lambda s: I.call_closure(f_(it, 1), [mk("ref", cell, ())], s, site + "f"))
        st.pop(cell, None)
        return band(has, asbool(c)), keep, x, with_(it, f0=it2)
    if k == "It:repeat": return TRUE, TRUE, f_(it, 0), it
    if k == "It:byref":
        r = f_(it, 0)
        inner = I.rdd(r, st)
        has, keep, x, it2 = nxt(I, inner, st, site, g)
        I.wr(r, ite(has, it2, inner), st)
        return has, keep, x, it
    if k == "It:chain":
        a, b = f_(it, 0), f_(it, 1)
        h1, k1, x, a2 = nxt(I, a, st, site + "a", g)
        h2, k2, y, b2 = nxt(I, b, st, site + "b", band(g, bnot(h1)))
        if k1 is not TRUE or k2 is not TRUE: return bvar(unk("chain")), TRUE, unk("chain"), it
        return bor(h1, h2), TRUE, ite(h1, x, y), with_(it, f0=ite(h1, a2, a), f1=ite(h1, b, b2))
    if it.op == "ite":
        h1, k1, x, a2 = nxt(I, it.args[1], st, site + "a", band(g, it.args[0]))
        h2, k2, y, b2 = nxt(I, it.args[2], st, site + "b", band(g, bnot(it.args[0])))
        c = it.args[0]
        return bite(c, h1, h2), bite(c, k1, k2), ite(c, x, y), ite(c, a2, b2)
    I.note("iterator " + str(k)); lossy(I, [it], st)
    return bvar(unk("next")), TRUE, unk("next"), it
def asbool(c):
    return c if is_bool(c) else bvar(c)
def guarded(I, g, st, fn):
    """run fn on st under guard g (events guarded, state effects merged)"""
    saved = I.ev; I.ev = []
    s2 = dict(st)
    r = fn(s2)
    for e in I.ev:
        e.guard = band(g, e.guard); saved.append(e)
    I.ev = saved
    for c, v in s2.items():
        o = st.get(c)
        if o is not v: st[c] = v if o is None or g is TRUE else ite(g, v, o)
    return r if r is not None else unk("diverges")

def consume(I, it, st, g, loc, site, accs, step):
    """drive iterator it: step(st, elem, accs) -> (accs', stop guard).  Returns (accs, stopped guard)"""
    import loops
    itc = mk("cell", "syn:" + site, "it")
    acs = [mk("cell", "syn:" + site, i) for i in range(len(accs))]
    st[itc] = it
    for c, v in zip(acs, accs): st[c] = v
    def body(s):
        cur = s[itc]
        has, keep, x, it2 = nxt(I, cur, s, site)
        ex = [("end", bnot(has), dict(s))]
        s0 = s; s[itc] = it2
        act = band(has, keep)
        s2 = dict(s)
        saved = I.ev; I.ev = []
        na, stop = step(s2, x, [s2[c] for c in acs])
        for e in I.ev:
            e.guard = band(act, e.guard); saved.append(e)
        I.ev = saved
        for c, v in zip(acs, na): s2[c] = v
        if stop is not FALSE: ex.append(("stop", band(act, stop), dict(s2)))
        ex.append(("latch", band(act, bnot(stop)), s2))
        if keep is not TRUE: ex.append(("latch", band(has, bnot(keep)), s))
        return ex
    outs = loops.eval_loop(I, dict(st), body, g, loc, lambda tag, c: True)
    G, s = I.merge([(ge, se) for _, ge, se in outs])
    stopped = FALSE
    for t, ge, _ in outs:
        if t == "stop": stopped = bor(stopped, ge)
    if s is None:
        return [unk("consume") for _ in accs], FALSE
    st.clear(); st.update(s)
    r = [st.pop(c, unk("acc")) for c in acs]
    st[itc] = st.get(itc, it); st.pop(itc)
    return r, stopped

# ------------------------------------------------------------------ the dispatcher
def strip(I, t):
    if t is None: return {"k": "other"}
    d = I.ty(t)
    while d["k"] == "ref": d = I.ty(d["t"])
    return d
def isint(I, fr, d):
    if d["k"] == "int": return True
    return d["k"] == "param" and fr is not None and d["n"] in fr.ints
def isparam_int(I, fr, d): return d["k"] == "param" and fr is not None and d["n"] in fr.ints

def fits(x, signed=False):
    return bvar(mk("fitss" if signed else "fits", x))
REBUILD["fits"] = lambda x: mk("fits", x)
REBUILD["fitss"] = lambda x: mk("fitss", x)

def call(I, fr, fn, a, argtys, destty, st, g, loc, site):
    p = fn["p"]; n = fn["name"] or p.split("::")[-1]
    tr = fn.get("trait")
    d0 = strip(I, argtys[0]) if argtys else {"k": "other"}
    dd = strip(I, destty) if destty is not None else {"k": "other"}
    R = lambda i: I.rdd(a[i], st)
    def val(i):
        v = R(i)
        return v
    def clo(c, *xs): return I.call_closure(c, list(xs), st, site + "c")
    # ---- numeric traits
    if tr and (tr.startswith("num_traits") or tr.startswith("num::")):
        if n == "zero": return ZERO
        if n == "one": return ONE
        if n == "is_zero":
            x = poly(R(0)); return eq0(x) if isint(I, fr, d0) else teq(x, ZERO)
        if n == "is_one":
            x = poly(R(0)); return eq(x, ONE) if isint(I, fr, d0) else teq(x, ONE)
        if n == "from" or n.startswith("from_"):
            x = R(0)
            if is_bool(x): x = P(x)
            if x.op != "poly": x = poly(x)
            tgt = None
            if fn["a"]:
                tgt = I.ty(fn["a"][0])
            if tgt is not None and tgt["k"] == "param" and fr is not None and tgt["n"] in fr.ints:
                return ite(fits(x, tgt["n"] in fr.sints), some(x), NONE)
            return some(x)
        if n in ("to_usize", "to_u64", "to_u32", "to_u8", "to_u16", "to_u128"):
            x = poly(R(0))
            neg_ = lt(x, ZERO)
            return ite(neg_, NONE, some(x))
        if n.startswith("to_"): return some(poly(R(0)))
        if n == "conj": return P(mk("conj", poly(R(0))))
        if n == "abs": return P(mk("abs", poly(R(0))))
        if n in ("min_value",): return ZERO
        if n == "max_value": return P(mk("imax", dd.get("n", "I")))
        if n == "saturating_sub": return ite(lt(poly(R(0)), poly(R(1))), ZERO, sub(poly(R(0)), poly(R(1))))
        if n == "saturating_add": return add(poly(R(0)), poly(R(1)))
    m = numeric_method(I, fr, fn, p, n, a, d0, st, g, loc, argtys)
    if m is not None: return m
    # ---- operators
    if tr and tr.startswith("std::ops::"):
        op = tr[10:]
        x = None
        if op in ("Add", "Sub", "Mul", "Div", "Rem"):
            x, y = R(0), R(1)
            ii = isint(I, fr, d0)
            if d0["k"] in ("param", "int", "float", "adt") and not is_seq(x):
                if ii and op == "Add" and d0["k"] == "param": iadd(I, g, loc, add(poly(x), poly(y)), I.signed(d0, fr))
                if ii and op == "Mul" and d0["k"] == "param": iadd(I, g, loc, mul(poly(x), poly(y)), I.signed(d0, fr))
                uns = ii and not I.signed(d0, fr)
                return I.arith(op, x, y, ii, uns, g, loc)
            if op == "Add" and d0.get("p") == "std::string::String" and is_seq(x): return append(x, pieces(I, a[1], st))
        if op == "AddAssign" and d0.get("p") == "std::string::String" and is_seq(R(0)):
            I.wr(a[0], append(R(0), pieces(I, a[1], st)), st); return UNIT
        if op in ("AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign"):
            x, y = R(0), R(1)
            ii = isint(I, fr, d0)
            v = I.arith(op[:-6], x, y, ii, ii and not I.signed(d0, fr), g, loc)
            if ii and op in ("AddAssign", "MulAssign") and d0["k"] == "param": iadd(I, g, loc, v, I.signed(d0, fr))
            I.wr(a[0], v, st); return UNIT
        if op == "Neg": return neg(poly(R(0)))
        if op == "Not":
            x = R(0); return bnot(asbool(x))
        if op in ("Deref", "DerefMut"):
            v = a[0]
            x = I.deref(v, st)
            if x.op == "ref": return x
            return v
        if op in ("Index", "IndexMut"): return index(I, fr, a, st, g, loc, d0)
        if op == "Try":
            v = a[0]
            return branch(I, v)
        if op == "FromResidual":
            v = a[0]
            if v.op == "agg" and v.args[0] == OPT: return NONE
            return err(ERRV)
        if op in ("FnOnce", "FnMut", "Fn"):
            args = a[1]
            return I.call_closure(a[0], list(args.args[2:]) if args.op == "agg" else [args], st, site)
    if n == "from_residual": return err(ERRV)
    if n in ("branch",): return branch(I, a[0])
    if tr in ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord", "std::cmp::Eq"):
        x, y = R(0), R(1)
        ii = isint(I, fr, d0)
        if n in ("eq", "ne"):
            e = equal(I, x, y, ii, st)
            return e if n == "eq" else bnot(e)
        if n in ("lt", "le", "gt", "ge"):
            x, y = poly(x), poly(y)
            if n in ("gt", "ge"): x, y = y, x
            if ii: return lt(x, y) if n in ("lt", "gt") else le(x, y)
            return tlt(x, y) if n in ("lt", "gt") else tle(x, y)
        if n in ("partial_cmp", "cmp"):
            if x.op == "poly" and y.op == "poly":
                o = ordering(lt(x, y), eq(x, y)) if ii else ordering(tlt(x, y), teq(x, y))
            elif x.op == "agg" and y.op == "agg" and len(x.args) == len(y.args):
                o = agg(ORD, 1)
                for u, v in list(zip(x.args[2:], y.args[2:]))[::-1]:
                    u, v = poly(u), poly(v)
                    o = ite(lt(u, v), agg(ORD, 0), ite(eq(u, v), o, agg(ORD, 2)))
            else: o = unk("cmp")
            return some(o) if n == "partial_cmp" else o
        if n in ("min", "max"):
            x, y = poly(x), poly(y)
            if ii: return minp(x, y) if n == "min" else maxp(x, y)
            return ite(tlt(y, x), y, x) if n == "min" else ite(tlt(y, x), x, y)
        if n == "clamp": return minp(maxp(x, y), poly(R(2)))
    if p in ("std::cmp::min", "core::cmp::min", "std::cmp::max", "core::cmp::max"):
        x, y = poly(R(0)), poly(R(1))
        return minp(x, y) if n == "min" else maxp(x, y)
    if n in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne") and "Ordering" in p:
        v = R(0); d = I.discr(v, None)
        return {"is_lt": lt(d, ZERO), "is_le": le(d, ZERO), "is_gt": lt(ZERO, d), "is_ge": le(ZERO, d), "is_eq": eq0(d), "is_ne": bnot(eq0(d))}[n]
    if n == "reverse" and "Ordering" in p:
        d = I.discr(R(0), None)
        return ite(lt(d, ZERO), agg(ORD, 2), ite(eq0(d), agg(ORD, 1), agg(ORD, 0)))
    # ---- formatting
    if n in ("new_display", "new_debug", "new_lower_exp"): return agg("FmtArg", 0, a[0])
    if p.startswith("std::fmt::Arguments") or "fmt::Arguments" in p:
        if n == "from_str": return pieces(I, a[0], st)
        if n in ("new", "new_v1", "new_const"): return fmt_arguments(I, a[0], a[1], st)
    if p in ("std::fmt::format", "alloc::fmt::format"): return R(0)
    if p == "std::hint::must_use" or n == "must_use": return a[0]
    if p.startswith("anyhow::"):
        if n == "not": return bnot(asbool(R(0)))
        if n == "Ok": return ok(a[0])
        if n in ("context", "with_context"):
            ty = d0.get("p", "").split("::")[-1] if d0["k"] == "adt" else ""
            if ty == "Error": return ERRV
            if ty == "Option": return option(I, "ok_or", [a[0], None], st, g, loc, site, dd)
            if ty == "Result": return result(I, n, a, st, g, loc, site, dd)
            I.note("anyhow::" + n); lossy(I, a, st); return unk("anyhow::" + n)
        if n in ("new", "msg", "format_err", "must_use", "from", "from_boxed", "construct_from_std") or "kind" in n: return ERRV
        I.note("anyhow::" + n); lossy(I, a, st); return unk("anyhow::" + n)
    # ---- vec![a, b, ..]: a box filled in place
    if n in ("new_uninit", "box_new_uninit") and "boxed" in p:
        c = mk("cell", "box", fresh("box")); st[c] = UNDEF
        return agg("std::boxed::Box", 0, mk("ref", c, ()))
    if n.startswith("box_assume_init_into_vec"):
        v = a[0].args[2] if a[0].op == "agg" else a[0]
        v = I.deref(v, st)
        for _ in range(5):
            if v.op == "agg" and not esort(v) is not None: v = next((x for x in v.args[2:][::-1] if x is not UNDEF), UNDEF)
        return v if esort(v) is not None else unk("boxed array")
    if n == "to_string" and tr == "std::string::ToString": return pieces(I, a[0], st)
    # ---- clone-like
    if n in ("clone", "to_owned", "to_vec", "into_boxed_slice", "into_vec", "cloned", "copied") and not (tr or "").startswith("std::iter") and "Option" not in p:
        return R(0)
    if n in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "as_bytes", "as_mut_str", "by_ref", "deref", "deref_mut") and "Option" not in p and "Result" not in p:
        v = a[0]
        x = I.deref(v, st)
        return x if x.op == "ref" else v
    if tr in ("std::convert::From", "std::convert::Into"):
        x = R(0)
        return x
    if tr in ("std::convert::TryFrom", "std::convert::TryInto"): return ok(poly(R(0)))
    if tr == "std::default::Default":
        if dd["k"] in ("int", "float", "param"): return ZERO
        if dd["k"] == "bool": return FALSE
        if dd["k"] == "adt" and dd["p"] in ("std::vec::Vec", "std::string::String"): return EMPTY
        if dd["k"] == "adt" and ("Hash" in dd["p"] or "BTree" in dd["p"]): return EMPTYTREE if "BTree" in dd["p"] else EMPTYMAP
        return unk("default")
    # ---- panics
    if n in ("begin_panic", "panic", "panic_fmt", "assert_failed", "panic_display", "unreachable_display", "panic_str", "unwrap_failed", "expect_failed", "panic_bounds_check", "panic_explicit") or "panicking" in p:
        I.event("panic", g, loc); return None
    if n in ("exit", "abort"):
        I.event("panic", g, loc); return None
    # ---- mem
    if p in ("std::mem::drop", "core::mem::drop", "std::mem::forget"):
        if n == "drop": native.drop(a[0], st)
        return UNIT
    # ---- the native solver and its lock
    if n in native.UPD: return native.foreign(I, n, a, st, g, loc)
    if p in ("std::sync::Mutex::<T>::lock", "std::sync::RwLock::<T>::write"): return ok(native.lock(I, a[0], st))
    if n in ("get", "deref", "force", "get_or_init") and a and a[0].op == "static": return a[0]
    if n == "swap" and "mem" in p:
        x, y = I.deref(a[0], st), I.deref(a[1], st); I.wr(a[0], y, st); I.wr(a[1], x, st); return UNIT
    if n == "replace" and "mem" in p:
        x = I.deref(a[0], st); I.wr(a[0], a[1], st); return x
    if n == "take" and "mem" in p:
        x = I.deref(a[0], st)
        I.wr(a[0], EMPTY if is_seq(x) else ZERO if x.op == "poly" else FALSE if is_bool(x) else EMPTYMAP if x.op in MAPOPS else NONE if d0["k"] == "adt" and d0.get("p", "").endswith("option::Option") else unk("take"), st); return x
    # ---- crate traits on type parameters
    if tr and tr.startswith("traits::"):
        if n == "nonzero":
            x = R(0)
            if is_bool(x): return x
            if x.op == "poly": return bnot(teq(x, ZERO))
            return bvar(mk("nonzero", x))
        if n == "conj": return P(mk("conj", poly(R(0))))
        if n == "real": return P(mk("re", poly(R(0))))
        if n == "imag": return P(mk("im", poly(R(0))))
        if n == "new": return P(mk("cnew", poly(R(0)), poly(R(1))))
        if n == "pretty_string": return lit(mk("pretty", R(0)))
    # ---- Option / Result
    if n in ("then", "then_some") and "bool" in p and len(a) == 2:
        c = asbool(R(0))
        if n == "then_some": return ite(c, some(a[1]), NONE)
        return ite(c, some(guarded(I, band(g, c), st, lambda s: I.call_closure(a[1], [], s, site))), NONE)
    if p.startswith(("std::option::Option", "core::option::Option")): return option(I, n, a, st, g, loc, site, dd)
    if p.startswith(("std::result::Result", "core::result::Result")): return result(I, n, a, st, g, loc, site, dd)
    # ---- iterators
    r = iterator(I, fr, fn, p, n, tr, a, dd, st, g, loc, site, d0)
    if r is not None: return r
    # ---- maps
    if "HashMap" in p or "HashSet" in p or "BTreeMap" in p or "BTreeSet" in p or "hash::map" in p or "hash::set" in p or "Entry" in p:
        r = hmap(I, p, n, a, st, g, loc, site)
        if r is not None: return r
    # ---- strings
    if "String" in p or "str>" in p or "::str::" in p:
        r = string(I, p, n, a, st)
        if r is not None: return r
    if "tabwriter" in p or tr == "std::io::Write" or "io::Write" in p or (tr == "std::fmt::Write" and is_seq(R(0))):
        if n in ("new",): return R(0) if is_seq(R(0)) else EMPTY
        if n in ("minwidth", "padding", "alignment", "ansi", "tab_indent"): return a[0]
        if n in ("write", "write_all", "write_str", "write_fmt"):
            old = R(0)
            if not is_seq(old): return unk("write")
            I.wr(a[0], append(old, pieces(I, a[1], st)), st); return ok(UNIT)
        if n == "flush": return ok(UNIT)
        if n == "into_inner": return ok(R(0))
    # ---- vectors and slices
    r = seqop(I, fr, p, n, a, st, g, loc, site, dd)
    if r is not None: return r
    # ---- dense matrices of the external crate `full`
    r = fullmat(I, p, n, a, st, g, loc)
    if r is not None: return r
    if p == "pretty_dtoa::dtoa": return lit(mk("pretty", poly(R(0))))
    if n in ("conj",): return P(mk("conj", poly(R(0))))
    if p.startswith("num_complex"):
        if n == "new": return P(mk("cnew", poly(R(0)), poly(R(1))))
        if n in ("add", "sub", "mul", "neg"):
            return {"add": add, "sub": sub, "mul": mul}[n](poly(R(0)), poly(R(1))) if n != "neg" else neg(poly(R(0)))
    I.note("call " + p); lossy(I, [x for x in a if x.op != "ref"], st)
    # unknown callee: anything reachable through a mutable reference becomes unknown
    for i, x in enumerate(a):
        if x.op == "ref" and i < len(argtys) and I.ty(argtys[i])["k"] == "ref" and I.ty(argtys[i])["m"]:
            I.wr(x, unk("call " + n), st)
    return unk("call " + p)

def iadd(I, g, loc, v, signed=False):
    """sum or product computed in the index type: event when it does not fit"""
    I.event("iadd", band(g, bnot(fits(poly(v), signed))), loc, (v,))
def numeric_method(I, fr, fn, p, n, a, d0, st, g, loc, argtys):
    R = lambda i: I.rdd(a[i], st)
    isnum = isint(I, fr, d0) or d0["k"] == "float"
    if not isnum: return None
    par = isparam_int(I, fr, d0)
    if n in ("checked_add", "checked_mul", "checked_sub", "wrapping_add", "wrapping_sub", "saturating_sub", "saturating_add", "abs_diff", "pow", "abs", "min", "max", "unsigned_abs", "div_ceil", "rem_euclid", "div_euclid", "signum", "checked_div", "checked_rem", "wrapping_mul", "overflowing_sub", "is_positive", "is_negative"):
        x = poly(R(0)); y = poly(R(1)) if len(a) > 1 else None
        uns = not I.signed(d0, fr)
        if n in ("checked_add", "checked_mul"):
            v = add(x, y) if n == "checked_add" else mul(x, y)
            return ite(fits(v, not uns), some(v), NONE) if par else some(v)
        if n == "checked_sub": return ite(lt(x, y), NONE, some(sub(x, y))) if uns else some(sub(x, y))
        if n in ("checked_div", "checked_rem"):
            from interp import idiv, irem
            return ite(eq0(y), NONE, some(idiv(x, y) if n == "checked_div" else irem(x, y)))
        if n == "saturating_add" and par and uns:
            return ite(fits(add(x, y), False), add(x, y), P(mk("imax", d0.get("n", "I"))))
        if n in ("wrapping_add", "saturating_add"): 
            if par: iadd(I, g, loc, add(x, y), not uns)
            return add(x, y)
        if n == "wrapping_mul": return mul(x, y)
        if n == "wrapping_sub":
            if uns: I.event("underflow", band(g, lt(x, y)), loc, (x, y))
            return sub(x, y)
        if n == "saturating_sub": return ite(lt(x, y), ZERO, sub(x, y)) if uns else sub(x, y)
        if n == "abs_diff": return ite(lt(x, y), sub(y, x), sub(x, y))
        if n in ("abs", "unsigned_abs"):
            if d0["k"] == "float": return P(mk("abs", x))
            return ite(lt(x, ZERO), neg(x), x)
        if n in ("min", "max"):
            if d0["k"] == "float": return ite(tlt(y, x), y, x) if n == "min" else ite(tlt(y, x), x, y)
            return minp(x, y) if n == "min" else maxp(x, y)
        if n == "pow":
            if is_num(y) and 0 <= nval(y) < 10:
                r = ONE
                for _ in range(nval(y)): r = mul(r, x)
                return r
        if n == "is_negative": return lt(x, ZERO)
        if n == "is_positive": return lt(ZERO, x)
        if n == "signum":
            if d0["k"] == "float": return P(mk("signum", x))
            return ite(lt(x, ZERO), num(-1), ite(eq0(x), ZERO, ONE))
        if n in ("div_ceil",):
            from interp import idiv
            return idiv(add(x, y, num(-1)), y)
        if n in ("rem_euclid", "div_euclid"):
            from interp import idiv, irem
            return (irem if n[0] == "r" else idiv)(x, y)
    if n in ("is_sign_negative", "is_sign_positive", "is_nan", "sqrt", "floor", "ceil", "mul_add", "powi", "is_finite") and d0["k"] == "float":
        x = poly(R(0))
        if n == "is_sign_negative": return tlt(x, ZERO)
        if n == "is_sign_positive": return bnot(tlt(x, ZERO))
        if n == "is_nan": return FALSE
        if n == "is_finite": return TRUE
        if n == "mul_add": return add(mul(x, poly(R(1))), poly(R(2)))
        if n == "powi":
            y = poly(R(1))
            if is_num(y) and 0 <= nval(y) < 10:
                r = ONE
                for _ in range(nval(y)): r = mul(r, x)
                return r
            return None
        return P(mk("fun_" + n, x))
    return None

def branch(I, v):
    def f(v):
        if v.op == "ite": return ite(v.args[0], f(v.args[1]), f(v.args[2]))
        if v.op == "agg":
            if v.args[0] == RES:
                return agg(CFL, 0, v.args[2]) if v.args[1] == 0 else agg(CFL, 1, err(ERRV))
            if v.args[0] == OPT:
                return agg(CFL, 0, v.args[2]) if v.args[1] == 1 else agg(CFL, 1, NONE)
        return unk("branch")
    return f(v)

def equal(I, x, y, ii, st):
    if x is y: return TRUE
    if is_bool(x) and is_bool(y): return bite(x, y, bnot(y))
    if x.op == "poly" and y.op == "poly": return eq(x, y) if ii else teq(x, y)
    if x.op == "ite": return bite(x.args[0], equal(I, x.args[1], y, ii, st), equal(I, x.args[2], y, ii, st))
    if y.op == "ite": return bite(y.args[0], equal(I, x, y.args[1], ii, st), equal(I, x, y.args[2], ii, st))
    if x.op == "agg" and y.op == "agg":
        if x.args[0] != y.args[0] or x.args[1] != y.args[1]: return FALSE
        return band(*[equal(I, I.rdd(u, st), I.rdd(v, st), ii, st) for u, v in zip(x.args[2:], y.args[2:])])
    if x.op == "enumsym" and y.op == "agg": return eq(I.discr(x, None), I.discr(y, None))
    if y.op == "enumsym" and x.op == "agg": return eq(I.discr(x, None), I.discr(y, None))
    if x.unk or y.unk: return bvar(unk("eq"))
    if (x.op == "poly") != (y.op == "poly"): return teq(poly(x), poly(y))
    return bvar(mk("opeq", x, y) if x.id < y.id else mk("opeq", y, x))

def index(I, fr, a, st, g, loc, d0):
    base, i = a[0], a[1]
    seqv = I.rdd(base, st)
    # resolve to the innermost reference
    b = base
    for _ in range(6):
        if b.op == "ref":
            x = I.deref(b, st)
            if x.op == "ref" or (x.op == "ite" and x.args[1].op == "ref"): b = x; continue
        break
    if seqv.op in MAPOPS:
        k = I.rdd(i, st)
        I.event("unwrap", band(g, bnot(maphas(seqv, k))), loc)
        return mapval(seqv, k)
    if seqv.op == "agg" and seqv.args[0] == "Mat":
        r, c = field(i, 0), field(i, 1)
        el1, el2 = ("f", 2, None), None
        I.event("bounds", band(g, bor(le(f_(seqv, 0), r), le(f_(seqv, 1), c))), loc, (r, c))
        if b.op == "ref": return mk("ref", b.args[0], I.extpath(I.extpath(I.extpath(b.args[1], ("f", 2, None)), ("ix", r)), ("ix", c)))
        return read(read(f_(seqv, 2), r), c)
    n = length(seqv) if seqv.op != "unk" else P(unk("len"))
    def el(i):
        if i.op == "poly" or i.op in ("read", "fld", "unk"):
            i = poly(i)
            I.event("bounds", band(g, bor(le(n, i), lt(i, ZERO))), loc, (i, n))
            return ("ix", i)
        if i.op == "agg":
            t = i.args[0]
            lo, hi = ZERO, n
            if t == RNG: lo, hi = f_(i, 0), f_(i, 1)
            elif t == RFROM: lo = f_(i, 0)
            elif t == RTO: hi = f_(i, 0)
            elif t == RINC: lo, hi = f_(i, 0), add(f_(i, 1), ONE)
            elif t == RTOI: hi = add(f_(i, 0), ONE)
            elif t == RFULL: pass
            else: return None
            I.event("slice", band(g, bor(lt(hi, lo), lt(n, hi))), loc, (lo, hi, n))
            return ("win", lo, hi)
        return None
    e = el(I.rdd(i, st) if i.op == "ref" else i)
    if e is None: return unk("index")
    def ext(b):
        if b.op == "ref": return mk("ref", b.args[0], I.extpath(b.args[1], e))
        if b.op == "ite": return ite(b.args[0], ext(b.args[1]), ext(b.args[2]))
        return I.proj(I.rdd(b, st), e)
    return ext(b)

def option(I, n, a, st, g, loc, site, dd):
    v = a[0]
    if n in ("as_ref", "as_mut", "as_deref", "as_slice"):
        if v.op == "ref":
            x = I.deref(v, st)
            h = eq(I.discr(x, None), ONE)
            return ite(h, some(mk("ref", v.args[0], v.args[1] + (("f", 0, 1),))), NONE)
        return v
    if v.op == "ref": ref = v; v = I.rdd(v, st)
    else: ref = None
    has = eq(I.discr(v, None), ONE); x = field(v, 0, 1)
    if n in ("unwrap", "expect"):
        I.event("unwrap", band(g, bnot(has)), loc); return x
    if n == "unwrap_or": return ite(has, x, I.rdd(a[1], st) if x.op == "poly" and a[1].op == "ref" else a[1])
    if n == "unwrap_or_default": return ite(has, x, ZERO if x.op == "poly" else FALSE if is_bool(x) else EMPTY)
    if n == "unwrap_or_else":
        d = guarded(I, band(g, bnot(has)), st, lambda s: I.call_closure(a[1], [], s, site)); return ite(has, x, I.rdd(d, st) if x.op == "poly" and d.op == "ref" else d)
    if n == "is_some": return has
    if n == "is_none": return bnot(has)
    if n in ("map", "and_then", "filter", "map_or", "map_or_else", "is_some_and", "is_none_or"):
        f = a[-1] if n != "map_or_else" else a[2]
        arg = x
        if n == "filter":
            c = mk("cell", "optf", site); st[c] = x; arg = mk("ref", c, ())
        y = guarded(I, band(g, has), st, lambda s: I.call_closure(f, [arg], s, site))
        if n == "map": return ite(has, some(y), NONE)
        if n == "and_then": return ite(has, y, NONE)
        if n == "filter": return ite(band(has, asbool(y)), some(x), NONE)
        if n == "map_or": return ite(has, y, a[1])
        if n == "is_some_and": return band(has, asbool(y))
        if n == "is_none_or": return bor(bnot(has), asbool(y))
        d = guarded(I, band(g, bnot(has)), st, lambda s: I.call_closure(a[1], [], s, site)); return ite(has, y, d)
    if n in ("ok_or", "ok_or_else"): return ite(has, ok(x), err(ERRV))
    if n in ("copied", "cloned"):
        return ite(has, some(I.rdd(x, st)), NONE)
    if n == "take":
        if ref is not None: I.wr(ref, NONE, st)
        return v
    if n in ("replace", "insert"):
        if ref is not None: I.wr(ref, some(a[1]), st)
        return v
    if n == "or": return ite(has, v, a[1])
    if n == "or_else":
        d = guarded(I, band(g, bnot(has)), st, lambda s: I.call_closure(a[1], [], s, site)); return ite(has, v, d)
    if n == "zip":
        w = I.rdd(a[1], st); h2 = eq(I.discr(w, None), ONE)
        return ite(band(has, h2), some(tup(x, field(w, 0, 1))), NONE)
    if n in ("iter", "into_iter"): return to_iter(I, v, st)
    if n == "unwrap_unchecked": return x
    I.note("Option::" + n); lossy(I, a, st); return unk("Option::" + n)

def result(I, n, a, st, g, loc, site, dd):
    v = I.rdd(a[0], st)
    isok = eq0(I.discr(v, None)); x = field(v, 0, 0)
    if n in ("unwrap", "expect"):
        I.event("unwrap", band(g, bnot(isok)), loc); return x
    if n in ("unwrap_err", "expect_err"):
        I.event("unwrap", band(g, isok), loc); return field(v, 0, 1)
    if n == "is_ok": return isok
    if n == "is_err": return bnot(isok)
    if n == "ok": return ite(isok, some(x), NONE)
    if n == "err": return ite(isok, NONE, some(ERRV))
    if n in ("map", "and_then"):
        y = guarded(I, band(g, isok), st, lambda s: I.call_closure(a[1], [x], s, site))
        return ite(isok, ok(y) if n == "map" else y, err(ERRV))
    if n in ("map_err",): return ite(isok, ok(x), err(ERRV))
    if n in ("map_or", "map_or_else", "is_ok_and"):
        y = guarded(I, band(g, isok), st, lambda s: I.call_closure(a[-1], [x], s, site))
        if n == "is_ok_and": return band(isok, asbool(y))
        if n == "map_or": return ite(isok, y, a[1])
        d = guarded(I, band(g, bnot(isok)), st, lambda s: I.call_closure(a[1], [field(v, 0, 1)], s, site)); return ite(isok, y, d)
    if n == "unwrap_or": return ite(isok, x, a[1])
    if n == "unwrap_or_default": return ite(isok, x, ZERO if x.op == "poly" else EMPTY)
    if n == "unwrap_or_else":
        d = guarded(I, band(g, bnot(isok)), st, lambda s: I.call_closure(a[1], [ERRV], s, site)); return ite(isok, x, d)
    if n in ("context", "with_context"): return ite(isok, ok(x), err(ERRV))
    I.note("Result::" + n); lossy(I, a, st); return unk("Result::" + n)

def iterator(I, fr, fn, p, n, tr, a, dd, st, g, loc, site, d0):
    if n in ("into_iter",) : return to_iter(I, a[0], st)
    if n in ("iter", "iter_mut"):
        v = a[0]; x = I.rdd(v, st)
        if x.op in MAPOPS: return agg("It:kv", 0, x, ZERO, maplen(x))
        if is_seq(x):
            while v.op == "ref" and I.deref(v, st).op == "ref": v = I.deref(v, st)
            return agg("It:slice", 0, v, ZERO, length(x))
        return to_iter(I, v, st)
    if n in ("keys", "values", "into_keys", "into_values") and ("Hash" in p or "BTree" in p or "hash_map" in p or "btree" in p):
        M = I.rdd(a[0], st)
        return agg("It:map", 0, agg("It:kv", 0, M, ZERO, maplen(M)), mk("fnval", "", "proj:%d" % (0 if "keys" in n else 1)))
    if p == "proj:0": return field(a[0], 0)
    if p == "proj:1": return field(a[0], 1)
    if n in ("windows", "chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut") and "slice" in p:
        x = I.rdd(a[0], st); w = poly(a[1]); L = length(x)
        if n == "windows": return agg("It:windows", 0, a[0], ZERO, maxp(ZERO, add(sub(L, w), ONE)), w)
        from interp import idiv
        c = idiv(add(L, w, num(-1)), w) if "exact" not in n else idiv(L, w)
        return agg("It:chunks", 0, a[0], ZERO, c, w)
    if p in ("std::iter::repeat", "core::iter::repeat"): return agg("It:repeat", 0, a[0])
    if p in ("std::iter::once",): return agg("It:seq", 0, lit(a[0]), ZERO, ONE)
    if p in ("std::iter::zip",): return agg("It:zip", 0, to_iter(I, a[0], st), to_iter(I, a[1], st))
    if p in ("std::iter::empty",): return agg("It:seq", 0, EMPTY, ZERO, ZERO)
    if n == "new" and "RangeInclusive" in p: return agg(RNG, 0, poly(a[0]), add(poly(a[1]), ONE))
    if n == "contains" and "ops::Range" in p:
        r = I.rdd(a[0], st); x = poly(I.rdd(a[1], st))
        if kind(r) == RNG: return band(le(f_(r, 0), x), lt(x, f_(r, 1)))
    if n == "extend" and tr == "std::iter::Extend":
        tgt = a[0]; cur = I.rdd(tgt, st)
        if cur.op in MAPOPS:
            it = to_iter(I, a[1], st)
            acc, _ = consume(I, it, st, g, loc, site, [cur], lambda s, x, ac: ([mapins(ac[0], field(x, 0), field(x, 1)) if x.op == "agg" and x.args[0] == "tuple" and "Map" in p else mapins(ac[0], I.rdd(x, s), UNIT)], FALSE))
            I.wr(tgt, acc[0], st); return UNIT
        items = collect(I, to_iter(I, a[1], st), st, g, loc, site)
        I.wr(tgt, append(I.rdd(tgt, st), items), st); return UNIT
    if "Peekable" in p and n in ("peek", "next_if", "next_if_eq"):
        r = a[0]
        while r.op == "ref" and I.deref(r, st).op == "ref": r = I.deref(r, st)
        cur = I.rdd(r, st); before = dict(st)
        has, keep, x, it2 = nxt(I, cur, st, site, g)
        if keep is TRUE:
            if n == "peek":
                st.clear(); st.update(before); return ite(has, some(x), NONE)
            if n == "next_if_eq": c = I.equal(x, I.rdd(a[1], st), st) if hasattr(I, "equal") else None
            else:
                cell = mk("cell", "flt", site); st[cell] = x
                c = guarded(I, band(g, has), st, lambda s: I.call_closure(a[1], [mk("ref", cell, ())], s, site + "f"))
                st.pop(cell, None)
            if c is not None:
                c = band(has, asbool(c)); I.wr(r, ite(c, it2, cur), st); return ite(c, some(x), NONE)
    if not (tr and tr.startswith("std::iter")) and tr != "std::iter::Iterator": return None
    it = a[0]
    if n == "next":
        cur = I.rdd(it, st)
        if it.op == "ref":
            # innermost ref holding the iterator
            r = it
            while I.deref(r, st).op == "ref": r = I.deref(r, st)
        else: r = None
        has, keep, x, it2 = nxt(I, cur, st, site, g)
        if keep is TRUE:
            if r is not None: I.wr(r, ite(has, it2, cur), st)
            return ite(has, some(x), NONE)
        skip = dict(st)
        if r is not None:
            I.wr(r, ite(has, it2, cur), st); I.wr(r, it2, skip)
        return ("skip", bor(bnot(has), keep), ite(has, some(x), NONE), skip)
    if it.op == "ref": it = to_iter(I, it, st)
    elif it.op == "agg" and it.args[0] == RINC: it = to_iter(I, it, st)
    if n == "map": return agg("It:map", 0, it, a[1])
    if n == "enumerate": return agg("It:enum", 0, it, ZERO)
    if n in ("cloned", "copied"): return agg("It:cloned", 0, it)
    if n == "zip": return agg("It:zip", 0, it, to_iter(I, a[1], st))
    if n == "chain": return agg("It:chain", 0, it, to_iter(I, a[1], st))
    if n == "filter": return agg("It:filter", 0, it, a[1])
    if n == "filter_map": return agg("It:filter_map", 0, it, a[1])
    if n == "take_while": return agg("It:take_while", 0, it, a[1])
    if n == "rev":
        if kind(it) == RNG: return agg("It:rev", 0, it, ZERO)
        return agg("It:rev", 0, it, ZERO)
    if n == "step_by":
        I.event("panic", band(g, eq0(poly(a[1]))), loc)
        return agg("It:step", 0, it, poly(a[1]), ZERO)
    if n == "take": return agg("It:take", 0, it, poly(a[1]))
    if n == "skip":
        k = poly(a[1])
        def sk(it, k):
            kd = kind(it)
            if kd == RNG: return with_(it, f0=add(f_(it, 0), k) if is_num(k) and False else minp(add(f_(it, 0), k), maxp(f_(it, 0), f_(it, 1))))
            if kd == RFROM: return with_(it, f0=add(f_(it, 0), k))
            if kd in ("It:slice", "It:seq", "It:windows", "It:chunks"): return with_(it, f1=minp(add(f_(it, 1), k), f_(it, 2)))
            if kd in ("It:map", "It:cloned"): return with_(it, f0=sk(f_(it, 0), k))
            if kd == "It:enum": return with_(it, f0=sk(f_(it, 0), k), f1=add(f_(it, 1), k))
            if kd == "It:zip": return with_(it, f0=sk(f_(it, 0), k), f1=sk(f_(it, 1), k))
            if kd == "It:rev": return with_(it, f1=add(f_(it, 1), k))
            return agg("It:unk", 0)
        return sk(it, k)
    if n in ("peekable", "fuse", "by_ref", "inspect"): return it if n != "by_ref" else a[0]
    if n == "collect":
        if dd["k"] == "adt" and ("HashMap" in dd["p"] or "HashSet" in dd["p"] or "BTree" in dd["p"]):
            acc, _ = consume(I, it, st, g, loc, site, [EMPTYTREE if "BTree" in dd["p"] else EMPTYMAP], lambda s, x, ac: ([mapins(ac[0], *((I.rdd(field(x, 0), s), I.rdd(field(x, 1), s)) if "Map" in dd["p"] else (I.rdd(x, s), UNIT)))], FALSE))
            return acc[0]
        if dd["k"] == "adt" and dd["p"] == "std::string::String":
            acc, _ = consume(I, it, st, g, loc, site, [EMPTY], lambda s, x, ac: ([append(ac[0], pieces(I, x, s))], FALSE))
            return acc[0]
        if dd["k"] == "adt" and dd["p"] == "std::result::Result":
            acc, stop = consume(I, it, st, g, loc, site, [EMPTY], lambda s, x, ac: ([append(ac[0], lit(field(x, 0, 0)))], bnot(eq0(I.discr(x, None)))))
            return ite(stop, err(ERRV), ok(acc[0]))
        if dd["k"] == "adt" and dd["p"] == "std::option::Option":
            acc, stop = consume(I, it, st, g, loc, site, [EMPTY], lambda s, x, ac: ([append(ac[0], lit(field(x, 0, 1)))], eq0(I.discr(x, None))))
            return ite(stop, NONE, some(acc[0]))
        return collect(I, it, st, g, loc, site)
    if n in ("sum", "product"):
        acc, _ = consume(I, it, st, g, loc, site, [ZERO if n == "sum" else ONE], lambda s, x, ac: ([(add if n == "sum" else mul)(ac[0], poly(I.rdd(x, s)))], FALSE))
        return acc[0]
    if n == "count":
        acc, _ = consume(I, it, st, g, loc, site, [ZERO], lambda s, x, ac: ([add(ac[0], ONE)], FALSE))
        return acc[0]
    if n == "fold":
        def step(s, x, ac):
            r = I.call_closure(a[2], [ac[0], x], s, site + "s")
            return [r if r is not None else unk("div")], FALSE
        acc, _ = consume(I, it, st, g, loc, site, [a[1]], step)
        return acc[0]
    if n == "for_each":
        def step(s, x, ac):
            I.call_closure(a[1], [x], s, site + "s"); return [], FALSE
        consume(I, it, st, g, loc, site, [], step)
        return UNIT
    if n in ("any", "all"):
        def step(s, x, ac):
            c = asbool(I.call_closure(a[1], [x], s, site + "s"))
            return [], (c if n == "any" else bnot(c))
        _, stop = consume(I, it, st, g, loc, site, [], step)
        return stop if n == "any" else bnot(stop)
    if n in ("try_for_each", "try_fold") and dd["k"] == "adt" and dd["p"] in ("std::result::Result", "std::option::Option"):
        opt = dd["p"].endswith("Option"); fold = n == "try_fold"
        def step(s, x, ac):
            r = I.call_closure(a[-1], [ac[0], x] if fold else [x], s, site + "s")
            good = eq(I.discr(r, None), ONE) if opt else eq0(I.discr(r, None))
            if not fold: return [], bnot(good)
            return [ite(good, field(r, 0, 1 if opt else 0), ac[0])], bnot(good)
        acc, stop = consume(I, it, st, g, loc, site, [a[1]] if fold else [], step)
        v = acc[0] if fold else UNIT
        return ite(stop, NONE if opt else err(ERRV), some(v) if opt else ok(v))
    if n in ("position", "find", "find_map"):
        def step(s, x, ac):
            arg = x
            if n == "find":
                c = mk("cell", "find", site); s[c] = x; arg = mk("ref", c, ())
            r = I.call_closure(a[1], [arg], s, site + "s")
            if n == "find_map":
                return [add(ac[0], ONE), field(r, 0, 1)], eq(I.discr(r, None), ONE)
            c = asbool(r)
            return [ite(c, ac[0], add(ac[0], ONE)), ite(c, x, ac[1]) if ac[1] is not UNDEF else x], c
        acc, stop = consume(I, it, st, g, loc, site, [ZERO, UNDEF], step)
        return ite(stop, some(acc[0] if n == "position" else acc[1]), NONE)
    if n in ("max", "min"):
        def step(s, x, ac):
            x = poly(I.rdd(x, s))
            b = lt(ac[0], x) if n == "max" else lt(x, ac[0])
            return [ite(bor(bnot(ac[1]), b), x, ac[0]), TRUE], FALSE
        acc, _ = consume(I, it, st, g, loc, site, [ZERO, FALSE], step)
        return ite(asbool(acc[1]), some(acc[0]), NONE)
    if n == "nth":
        k = poly(a[1]); L = ixlen(I, it, st)
        if L is not None: return ite(lt(k, L), some(ixget(I, it, k, st, site)), NONE)
    if n == "last":
        L = ixlen(I, it, st)
        if L is not None: return ite(lt(ZERO, L), some(ixget(I, it, sub(L, ONE), st, site)), NONE)
    if n == "len":
        L = ixlen(I, it, st)
        if L is not None: return L
    if n in ("unzip",):
        acc, _ = consume(I, it, st, g, loc, site, [EMPTY, EMPTY], lambda s, x, ac: ([append(ac[0], lit(I.rdd(field(x, 0), s))), append(ac[1], lit(I.rdd(field(x, 1), s)))], FALSE))
        return tup(acc[0], acc[1])
    if n == "eq":
        pass
    I.note("Iterator::" + n); lossy(I, a, st)
    return unk("Iterator::" + n)

def lossy(I, vals, st, d=0):
    """forget whatever an unmodelled operation could have written through references inside its operands"""
    for v in vals:
        if v.op == "ref": I.wr(v, unk("lost"), st)
        elif v.op in ("agg", "ite", "box", "mref") and d < 6: lossy(I, [x for x in v.args if isinstance(x, T)], st, d + 1)

def collect(I, it, st, g, loc, site):
    acc, _ = consume(I, it, st, g, loc, site, [EMPTY], lambda s, x, ac: ([append(ac[0], lit(x if x.op != "ref" else I.rdd(x, s)))], FALSE))
    return acc[0]

def slot(I, ref, k, st):
    """reference to the value held under a key"""
    while ref.op == "ref" and ref.args[0] in (st) and I.deref(ref, st).op == "ref": ref = I.deref(ref, st)
    return mk("ref", ref.args[0], ref.args[1] + (("key", k),)) if ref.op == "ref" else unk("slot")
def hmap(I, p, n, a, st, g, loc, site):
    if n in ("new", "with_capacity", "default", "with_hasher"): return EMPTYTREE if "BTree" in p else EMPTYMAP
    if re.search(r"\bentry::|Entry(::)?<|Entry::", p):
        e = I.rdd(a[0], st)
        while e.op == "ite": e = e.args[1]
        if e.op == "agg" and e.args[0] == "Entry": e = f_(e, 0)
        if e.op == "agg" and e.args[0] == "EntryAt":
            ref, k = f_(e, 0), f_(e, 1)
            M = I.rdd(ref, st); at = slot(I, ref, k, st); has = maphas(M, k)
            if n in ("or_insert", "or_default", "or_insert_with", "or_insert_with_key"):
                if n == "or_insert": d = a[1]
                elif n == "or_default": d = ZERO
                else: d = guarded(I, band(g, bnot(has)), st, lambda s: I.call_closure(a[1], [k] if "key" in n else [], s, site))
                M = I.rdd(ref, st)
                I.wr(ref, ite(has, M, mapins(M, k, d)), st)
                return at
            if n == "and_modify":
                guarded(I, band(g, has), st, lambda s: I.call_closure(a[1], [at], s, site)); return a[0]
            if n in ("get", "get_mut", "into_mut"): return at
            if n == "insert":
                I.wr(ref, mapins(M, k, a[1]), st); return mapval(M, k) if "Occupied" in p else at
            if n in ("remove", "remove_entry"):
                I.wr(ref, maprem(M, k), st); return mapval(M, k) if n == "remove" else tup(k, mapval(M, k))
            if n in ("key", "into_key"): return k
        I.note("entry"); lossy(I, a, st); return unk("entry")
    M = I.rdd(a[0], st)
    if M.op not in MAPOPS and not (M.op == "hole") and not M.op == "ite": return unk("map")
    k = I.rdd(a[1], st) if len(a) > 1 else None
    if n == "get": return mapget(M, k)
    if n in ("contains_key", "contains"): return maphas(M, k)
    if n == "insert":
        v = a[2] if len(a) > 2 else UNIT
        old = mapget(M, k)
        I.wr(a[0], mapins(M, k, v), st)
        return old if len(a) > 2 else bnot(maphas(M, k))
    if n == "remove":
        old = mapget(M, k); had = maphas(M, k)
        I.wr(a[0], maprem(M, k), st)
        return old if "Map" in p else had
    if n == "len": return maplen(M)
    if n == "is_empty": return eq0(maplen(M))
    if n == "clear": I.wr(a[0], EMPTYTREE if "BTree" in p else EMPTYMAP, st); return UNIT
    if n == "get_mut":
        at = slot(I, a[0], k, st)
        return ite(maphas(M, k), some(at), NONE)
    if n == "entry":
        e = agg("EntryAt", 0, a[0], k); b = "BTree" in p
        return ite(maphas(M, k), agg("Entry", 1 if b else 0, e), agg("Entry", 0 if b else 1, e))
    if n in ("reserve", "shrink_to_fit"): return UNIT
    return None

def string(I, p, n, a, st):
    if n in ("new", "with_capacity"): return EMPTY
    if n in ("push_str", "push"):
        I.wr(a[0], append(I.rdd(a[0], st), pieces(I, a[1], st)), st); return UNIT
    if n in ("as_bytes", "as_str", "into_bytes", "trim_end", "trim", "to_owned"):
        if n.startswith("trim"): return lit(mk("trim", pieces(I, a[0], st)))
        return a[0]
    if n == "trim_end_matches": return lit(mk("trim", pieces(I, a[0], st)))
    if n in ("from_utf8", "from_utf8_lossy"): return ok(I.rdd(a[0], st)) if n == "from_utf8" else I.rdd(a[0], st)
    if n == "is_empty":
        v = I.rdd(a[0], st)
        if v.op == "str": return TRUE if v.args[0] == "" else FALSE
        return eq0(length(v)) if is_seq(v) else bvar(mk("sempty", v))
    if n == "as_ptr":
        v = I.rdd(a[0], st)
        return v if v.op == "str" else mk("opaque", "strptr")
    if n == "write_str":
        return None
    if n == "from": return pieces(I, a[0], st)
    return None

def mk_bool_pair(b): return b
def seqop(I, fr, p, n, a, st, g, loc, site, dd):
    if p in ("std::vec::from_elem", "alloc::vec::from_elem"):
        return const(poly(a[1]), a[0])
    if "Vec" in p and n in ("new", "with_capacity"): return EMPTY
    if not a: return None
    ref = a[0]
    A = I.rdd(ref, st)
    if A.op == "unk": 
        return unk("seqop " + n)
    if not is_seq(A): return None
    while ref.op == "ref" and I.deref(ref, st).op == "ref": ref = I.deref(ref, st)
    L = length(A)
    W = lambda v: I.wr(ref, v, st)
    if n == "len": return L
    if n == "is_empty": return eq0(L)
    if n == "push": W(append(A, lit(a[1]))); return UNIT
    if n in ("extend_from_slice", "append"):
        B = I.rdd(a[1], st)
        W(append(A, B))
        if n == "append": I.wr(a[1], EMPTY, st)
        return UNIT
    if n == "resize": W(resize(A, poly(a[1]), a[2])); return UNIT
    if n == "truncate":
        k = poly(a[1]); W(slice_(A, ZERO, minp(k, L))); return UNIT
    if n == "clear": W(EMPTY); return UNIT
    if n in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to"): return UNIT
    if n in ("capacity",): return P(unk("capacity"))
    if n == "fill": W(const(L, a[1])); return UNIT
    if n in ("copy_from_slice", "clone_from_slice"):
        B = I.rdd(a[1], st)
        I.event("slice", band(g, bnot(eq(L, length(B)))), loc, (L, length(B)))
        W(B); return UNIT
    if n == "swap":
        i, j = poly(a[1]), poly(a[2])
        I.event("bounds", band(g, bor(le(L, i), le(L, j))), loc, (i, j, L))
        x, y = read(A, i), read(A, j)
        W(store(store(A, i, y), j, x)); return UNIT
    if n == "pop":
        has = lt(ZERO, L)
        x = read(A, sub(L, ONE))
        W(ite(has, slice_(A, ZERO, sub(L, ONE)), A))
        return ite(has, some(x), NONE)
    if n in ("first", "last", "get", "get_mut", "first_mut", "last_mut"):
        i = ZERO if n.startswith("first") else sub(L, ONE) if n.startswith("last") else a[1]
        if i.op == "agg":
            if kind(i) == RNG:
                lo, hi = f_(i, 0), f_(i, 1)
                h = band(le(lo, hi), le(hi, L)); el = ("win", lo, hi)
            else: return unk("get range")
        else:
            i = poly(i)
            h = lt(ZERO, L) if n[:5] in ("first", "last") or n == "last_mut" or n == "first_mut" else band(lt(i, L), le(ZERO, i)); el = ("ix", i)
        x = mk("ref", ref.args[0], I.extpath(ref.args[1], el)) if ref.op == "ref" else I.proj(A, el)
        return ite(h, some(x), NONE)
    if n in ("split_at", "split_at_mut"):
        k = poly(a[1])
        I.event("slice", band(g, lt(L, k)), loc, (k, L))
        if ref.op == "ref": return tup(mk("ref", ref.args[0], I.extpath(ref.args[1], ("win", ZERO, k))), mk("ref", ref.args[0], I.extpath(ref.args[1], ("win", k, L))))
        return tup(slice_(A, ZERO, k), slice_(A, k, L))
    if n in ("sort_by", "sort_unstable_by", "sort", "sort_unstable", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
        saved, kept = I.ev, dict(st); I.ev = list(saved)
        key = sortkey(I, n, a, A, st, site)
        if key is None: I.ev = saved; st.clear(); st.update(kept)
        how = "unstable" if "unstable" in n else "stable"
        if key is None and len(a) > 1 and "key" in n:
            K = collect(I, agg("It:map", 0, agg("It:slice", 0, ref, ZERO, L), a[1]), st, g, loc, site + "k")
            if is_seq(K) and not K.unk: W(mk("sortedm", A, K, "key", how)); return UNIT
        if key is None and len(a) > 1 and "key" not in n:
            i, j = fresh("x", "nn"), fresh("x", "nn")
            c1, c2 = mk("cell", "srt", 1), mk("cell", "srt", 2)
            saved = I.ev; I.ev = []
            st[c1], st[c2] = read(A, P(i)), read(A, P(j))
            r = I.call_closure(a[1], [mk("ref", c1, ()), mk("ref", c2, ())], st, site + "k")
            st.pop(c1, None); st.pop(c2, None)
            for e in I.ev:
                e.guard = band(g, exists(i, ZERO, L, exists(j, ZERO, L, e.guard))); saved.append(e)
            I.ev = saved
            d = I.discr(r, None) if r is not None else None
            if d is not None and not d.unk: W(mk("sortedm", A, lam(L, i, lam(L, j, d)), "cmp", how)); return UNIT
        if key is None:
            I.note("sort comparator"); lossy(I, a[1:], st); W(mk("sortedunk", unk("sort"))); W(unk("sort")); return UNIT
        W(mk("sorted", A, key, "unstable" if "unstable" in n else "stable")); return UNIT
    if n == "reverse":
        x = fresh("x", "nn")
        W(lam(L, x, read(A, sub(sub(L, ONE), P(x))))); return UNIT
    if n in ("binary_search", "binary_search_by", "binary_search_by_key", "partition_point"):
        # on a sorted slice: the place is the number of elements before the key
        def side(s, x, sfx):
            if n == "binary_search":
                e = poly(I.rdd(x, s)); w = poly(I.rdd(a[1], s)); return lt(e, w), eq(e, w)
            if n == "binary_search_by_key":
                e = poly(I.rdd(I.call_closure(a[2], [x], s, site + sfx), s)); w = poly(I.rdd(a[1], s)); return lt(e, w), eq(e, w)
            r = I.call_closure(a[1], [x], s, site + sfx)
            if n == "partition_point": return asbool(r), FALSE
            o = I.discr(r, None); return lt(o, ZERO), eq0(o)
        isref = lambda i: mk("ref", ref.args[0], I.extpath(ref.args[1], ("ix", i))) if ref.op == "ref" else None
        acc, _ = consume(I, to_iter(I, ref, st), st, g, loc, site, [ZERO], lambda s, x, ac: ([ite(side(s, x, "s")[0], add(ac[0], ONE), ac[0])], FALSE))
        pos = poly(acc[0])
        if n == "partition_point": return pos
        inside = lt(pos, L)
        last = isref(pos) or read(A, pos)
        hit = guarded(I, band(g, inside), st, lambda s: mk_bool_pair(side(s, last, "h")[1]))
        found = band(inside, asbool(hit))
        return ite(found, ok(pos), err(pos))
    if n == "contains":
        v = I.rdd(a[1], st); x = fresh("x", "nn")
        e = read(A, P(x))
        return exists(x, ZERO, L, equal(I, e, v, e.op == "poly" and vsort(e) in ("i", "z"), st))
    if n == "iter": return agg("It:slice", 0, ref, ZERO, L)
    if n in ("as_ptr", "as_mut_ptr"): return mk("ptr", ref)
    if n in ("drain",):
        r = a[1]
        if kind(r) == RFULL: W(EMPTY); return agg("It:seq", 0, A, ZERO, L)
        if kind(r) == RFROM:
            k = f_(r, 0); W(slice_(A, ZERO, k)); return agg("It:seq", 0, A, k, L)
    if n == "insert":
        i = poly(a[1])
        W(append(append(slice_(A, ZERO, i), lit(a[2])), slice_(A, i, L))); return UNIT
    if n == "remove":
        i = poly(a[1]); x = read(A, i)
        W(append(slice_(A, ZERO, i), slice_(A, add(i, ONE), L))); return x
    if n in ("split_off",):
        k = poly(a[1]); W(slice_(A, ZERO, k)); return slice_(A, k, L)
    if n == "concat":
        if A.op == "lit" and len(A.args) <= 8:
            out = EMPTY
            for v in A.args: out = append(out, I.rdd(v, st))
            return out
        x = fresh("x", "nn"); return concat(x, ZERO, L, I.rdd(read(A, P(x)), st))
    if n == "join":
        x = fresh("x", "nn"); e = I.rdd(read(A, P(x)), st)
        if e.op == "str": e = lit(e)
        return concat(x, ZERO, L, ite(eq0(P(x)), e, append(pieces(I, a[1], st), e)))
    if n == "copy_within":
        return None
    return None

def sortkey(I, n, a, A, st, site):
    es = esort(A)
    x, y = typed(mk("sym", "sortA", ""), ZERO, (), es), typed(mk("sym", "sortB", ""), ZERO, (), es)
    def leaves(s, path=()):
        if isinstance(s, tuple) and s[0] == "U":
            for k, z in enumerate(s[1]): yield from leaves(z, path + (k,))
        else: yield path, s
    def at(v, path):
        for k in path: v = field(v, k)
        return v
    lv = list(leaves(es))
    if n in ("sort", "sort_unstable"):
        return tuple((pth, 1) for pth, _ in lv)
    c1, c2 = mk("cell", "srt", 1), mk("cell", "srt", 2)
    st[c1], st[c2] = x, y
    try:
        if "key" in n:
            r = I.call_closure(a[1], [mk("ref", c1, ())], st, site)
            r = I.rdd(r, st)
            for pth, s in lv:
                if r is at(x, pth): return ((pth, 1),)
                if r.op == "agg" and "Reverse" in str(r.args[0]) and r.args[2] is at(x, pth): return ((pth, -1),)
            return None
        r = I.call_closure(a[1], [mk("ref", c1, ()), mk("ref", c2, ())], st, site)
    finally:
        st.pop(c1, None); st.pop(c2, None)
    if r is None: return None
    for pth, s in lv:
        u, v = at(x, pth), at(y, pth)
        if u.op != "poly": continue
        for lt_, eq_ in ((lt, eq), (tlt, teq)):
            if r is ordering(lt_(u, v), eq_(u, v)): return ((pth, 1),)
            if r is ordering(lt_(v, u), eq_(v, u)): return ((pth, -1),)
    return None

def fullmat(I, p, n, a, st, g, loc):
    if not (p.startswith("full::") or "full::" in p or "mat::Mat" in p): return None
    if n == "zeros": return agg("Mat", 0, poly(a[0]), poly(a[1]), const(poly(a[0]), const(poly(a[1]), ZERO)))
    M = I.rdd(a[0], st)
    if M.op != "agg" or M.args[0] != "Mat": return None
    if n == "rows": return f_(M, 0)
    if n == "cols": return f_(M, 1)
    return None
