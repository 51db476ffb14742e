"""Kernel contracts: what each public conversion/arithmetic kernel must compute, stated denotationally.

The same contract (a) is the specification a kernel's own summary is compared with and (b) stands for the
kernel inside the summaries of its callers.  Orders a kernel leaves unspecified are chosen adversarially
(reversed), so callers that rely on them are noticed.
"""
from evalterm import Panic, Unknown, Agg, A_
from terms import *

def at(L, i):
    if not isinstance(i, int) or not 0 <= i < len(L): raise Panic("index outside its array")
    return L[i]
def put(L, i, v):
    if not isinstance(i, int) or not 0 <= i < len(L): raise Panic("index outside its array")
    L[i] = v
def rows(n, p, j, x=None):
    """list of rows of (index, value)"""
    out = []
    for i in range(n):
        a, b = at(p, i), at(p, i + 1)
        out.append([(at(j, k), at(x, k) if x is not None else None) for k in range(a, b)])
    return out
def fit(ev, v):
    mx = ev.m.get("#IMAX")
    if v < 0 or (mx is not None and v > mx): raise Panic("does not fit the index type")
    return v
def entries(n, p, j, x): return [(i, c, v) for i, r in enumerate(rows(n, p, j, x)) for c, v in r]
def dense(es):
    d = {}
    for i, j, v in es: d[i, j] = d.get((i, j), 0) + v
    return {k: v for k, v in d.items()}
def fill(old, new):
    """new entries at the front of a preallocated array, the rest untouched"""
    if len(new) > len(old): raise Panic("output array too short")
    return list(new) + list(old[len(new):])
def pack(ev, rws):
    p = [0]; j = []; x = []
    for r in rws:
        for c, v in r: j.append(c); x.append(v)
        p.append(fit(ev, len(j)))
    return p, j, x

# ------------------------------------------------------------------ oracles: (ev, *args) -> {out: value}
def diagonal(ev, k, nr, nc, p, j, x, y):
    r0, c0 = (0, k) if k >= 0 else (-k, 0)
    n = max(0, min(nr - r0, nc - c0)); y = list(y)
    R = rows(nr, p, j, x)
    for i in range(n): put(y, i, sum((v for c, v in R[r0 + i] if c == c0 + i), 0))
    return {6: y}
def expandptr(ev, n, p, b):
    b = list(b)
    for i in range(n):
        for k in range(at(p, i), at(p, i + 1)): put(b, k, i)
    return {2: b}
def scale_rows(ev, n, nc, p, j, x, s):
    x = list(x)
    for i in range(n):
        for k in range(at(p, i), at(p, i + 1)): put(x, k, at(x, k) * at(s, i))
    return {4: x}
def scale_columns(ev, n, nc, p, j, x, s):
    x = list(x)
    for k in range(at(p, n)): put(x, k, at(x, k) * at(s, at(j, k)))
    return {4: x}
def todense(ev, n, nc, p, j, x, b):
    b = [list(r) for r in b]
    for i, c, v in entries(n, p, j, x): put(at(b, i), c, at(at(b, i), c) + v)
    return {5: b}
def is_sorted(ev, n, p, j): return {"ret": all(a[0] <= b[0] for r in rows(n, p, j) for a, b in zip(r, r[1:]))}
def is_canonical(ev, n, p, j):
    return {"ret": all(at(p, i) <= at(p, i + 1) for i in range(n)) and all(a[0] < b[0] for r in rows(n, p, j) for a, b in zip(r, r[1:]))}
def sort_indices(ev, n, p, j, x):
    R = [sorted(r, key=lambda t: t[0]) for r in rows(n, p, j, x)]
    j, x = list(j), list(x)
    for i, r in enumerate(R):
        for k, (c, v) in enumerate(r): put(j, at(p, i) + k, c); put(x, at(p, i) + k, v)
    return {2: j, 3: x}
def tocsc(ev, n, nc, p, j, x, bp, bi, bx):
    cols = [[] for _ in range(nc)]
    for i, c, v in entries(n, p, j, x):
        if not 0 <= c < nc: raise Panic("column outside")
        cols[c].append((i, v))
    P_, J, X = pack(ev, cols)
    if len(bp) < nc + 1: raise Panic("pointer array too short")
    return {5: P_ + [0] * (len(bp) - nc - 1), 6: fill(bi, J), 7: fill(bx, X)}
def symbolic(n, nc, ap, aj, bp, bj):
    out = []
    for r in rows(n, ap, aj):
        s = []
        for c, _ in r:
            for k in range(at(bp, c), at(bp, c + 1)):
                q = at(bj, k)
                if not 0 <= q < nc: raise Panic("column outside")
                if q not in s: s.append(q)
        out.append(s)
    return out
def maxnnz(ev, n, nc, ap, aj, bp, bj): return {"ret": sum(map(len, symbolic(n, nc, ap, aj, bp, bj)))}
def matmat(ev, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx):
    S = symbolic(n, nc, ap, aj, bp, bj); out = []
    for i, r in enumerate(rows(n, ap, aj, ax)):
        acc = {}
        for c, v in r:
            for k in range(at(bp, c), at(bp, c + 1)): acc[at(bj, k)] = acc.get(at(bj, k), 0) + v * at(bx, k)
        out.append([(c, acc[c]) for c in S[i][::-1] if acc[c] != 0])
    P_, J, X = pack(ev, out)
    return {8: fill(cp, P_), 9: fill(cj, J), 10: fill(cx, X)}
OPS = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: A_("div0", 0, a) if b == 0 else __import__("fractions").Fraction(a) / b,
    "ne": lambda a, b: a != b, "eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "max": lambda a, b: a if a > b else b, "min": lambda a, b: a if a < b else b,
}
def binop_rows(n, nc, ap, aj, ax, bp, bj, bx, op):
    A, B = rows(n, ap, aj, ax), rows(n, bp, bj, bx); out = []
    for ra, rb in zip(A, B):
        da, db = {}, {}; order = []
        for c, v in ra:
            if not 0 <= c < nc: raise Panic("column outside")
            da[c] = da.get(c, 0) + v
            if c not in order: order.append(c)
        for c, v in rb:
            if not 0 <= c < nc: raise Panic("column outside")
            db[c] = db.get(c, 0) + v
            if c not in order: order.append(c)
        r = []
        for c in order[::-1]:
            v = op(da.get(c, 0), db.get(c, 0))
            if v != 0: r.append((c, v))
        out.append(r)
    return out
def canon(n, p, j): return is_canonical(None, n, p, j)["ret"]
def binop(ev, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx, op):
    f = op if callable(op) else ev.apps[op] if isinstance(op, str) and op in ev.apps else None
    if f is None: raise Unknown("operation")
    R = binop_rows(n, nc, ap, aj, ax, bp, bj, bx, f)
    if canon(n, ap, aj) and canon(n, bp, bj): R = [sorted(r, key=lambda t: t[0]) for r in R]
    P_, J, X = pack(ev, R)
    return {8: fill(cp, P_), 9: fill(cj, J), 10: fill(cx, X)}
def binop_canonical(ev, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx, op):
    if not (canon(n, ap, aj) and canon(n, bp, bj)): raise Unknown("operands not canonical")
    return binop(ev, n, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx, op)
def named(o): return lambda ev, *a: binop(ev, *a, OPS[o])
def sum_duplicates(ev, n, nc, p, j, x):
    if not is_sorted(None, n, p, j)["ret"]: raise Unknown("needs sorted indices")
    out = []
    for r in rows(n, p, j, x):
        q = []
        for c, v in r:
            if q and q[-1][0] == c: q[-1] = (c, q[-1][1] + v)
            else: q.append((c, v))
        out.append(q)
    P_, J, X = pack(ev, out)
    return {2: P_ + list(p[len(P_):]), 3: fill(j, J), 4: fill(x, X)}
def eliminate_zeros(ev, n, nc, p, j, x):
    P_, J, X = pack(ev, [[(c, v) for c, v in r if v != 0] for r in rows(n, p, j, x)])
    return {2: P_ + list(p[len(P_):]), 3: fill(j, J), 4: fill(x, X)}
def matvec(ev, n, nc, p, j, a, x, y):
    y = list(y)
    for i, c, v in entries(n, p, j, a): put(y, i, at(y, i) + v * at(x, c))
    return {6: y}
def matvecs(ev, n, nc, nv, p, j, a, x, y):
    y = list(y)
    for i, c, v in entries(n, p, j, a):
        for k in range(nv): put(y, i * nv + k, at(y, i * nv + k) + v * at(x, c * nv + k))
    return {7: y}
def select(ev, n, nc, p, j, x, ri, ci, bp, bj, bx):
    R = rows(len(p) - 1, p, j, x); out = []
    for r in ri:
        d = {}
        for c, v in at(R, r):
            if c in d: raise Unknown("duplicates")
            d[c] = v
        out.append([(k, d[c]) for k, c in enumerate(ci) if c in d])
    P_, J, X = pack(ev, out)
    return {7: P_, 8: J, 9: X}
def submatrix(ev, n, nc, p, j, x, r0, r1, c0, c1, bp, bj, bx):
    if r1 < r0: raise Panic("window")
    R = rows(len(p) - 1, p, j, x)
    P_, J, X = pack(ev, [[(c - c0, v) for c, v in at(R, r) if c0 <= c < c1] for r in range(r0, r1)])
    return {9: P_, 10: J, 11: X}
def row_index(ev, n, rs, p, j, x, bj, bx):
    R = rows(len(p) - 1, p, j, x)
    es = [e for i in range(n) for e in at(R, at(rs, i))]
    return {5: bj + [c for c, _ in es], 6: bx + [v for _, v in es]}
def row_slice(ev, a, b, st, p, j, x, bj, bx):
    R = rows(len(p) - 1, p, j, x)
    es = [e for r in (range(a, b, st) if st > 0 else ()) for e in at(R, r)]
    return {6: bj + [c for c, _ in es], 7: bx + [v for _, v in es]}
def column_index1(ev, ni, ci, n, nc, p, j, off, bp):
    if any(off): raise Unknown("offsets must start at zero")
    cnt = [0] * len(off)
    for k in range(ni): put(cnt, at(ci, k), at(cnt, at(ci, k)) + 1)
    fit(ev, ni)
    R = rows(n, p, j); q = [0]
    for r in R: q.append(fit(ev, q[-1] + sum(at(cnt, c) for c, _ in r)))
    cs = []; s = 0
    for c in range(len(off)): s += cnt[c]; cs.append(s if c < nc else cnt[c])
    return {6: cs, 7: fill(bp, q)}
def column_index2(ev, order, off, nnz, j, x, bj, bx):
    es = []
    for k in range(nnz):
        c = at(j, k)
        for q in range(at(off, c - 1) if c > 0 else 0, at(off, c)): es.append((at(order, q), at(x, k)))
    return {5: fill(bj, [c for c, _ in es]), 6: fill(bx, [v for _, v in es])}
def count_diagonals(ev, n, p, j): return {"ret": len({c - i for i, r in enumerate(rows(n, p, j)) for c, _ in r})}
def tocoo(ev, n, nc, p, j, x, ai, bj, bx):
    es = entries(n, p, j, x)
    return {5: fill(ai, [i for i, _, _ in es]), 6: fill(bj, [c for _, c, _ in es]), 7: fill(bx, [v for _, _, v in es])}
def csc_matvec(ev, nr, nc, p, i, a, x, y):
    y = list(y)
    for c, r, v in entries(nc, p, i, a): put(y, r, at(y, r) + v * at(x, c))
    return {6: y}
def csc_matvecs(ev, nr, nc, nv, p, i, a, x, y):
    y = list(y)
    for c, r, v in entries(nc, p, i, a):
        for k in range(nv): put(y, r * nv + k, at(y, r * nv + k) + v * at(x, c * nv + k))
    return {7: y}
def csc_diagonal(ev, k, nr, nc, p, j, x, y): return diagonal(ev, -k, nc, nr, p, j, x, y)
def csc_tocsr(ev, nr, nc, p, j, x, bp, bj, bx): return tocsc(ev, nc, nr, p, j, x, bp, bj, bx)
def csc_maxnnz(ev, nr, nc, ap, ai, bp, bi): return maxnnz(ev, nc, nr, bp, bi, ap, ai)
def csc_matmat(ev, nr, nc, ap, ai, ax, bp, bi, bx, cp, ci, cx): return matmat(ev, nc, nr, bp, bi, bx, ap, ai, ax, cp, ci, cx)
def coo_tocsr(ev, nr, nc, nnz, ai, aj, ax, bp, bj, bx):
    R = [[] for _ in range(nr)]
    fit(ev, nnz)
    for k in range(nnz): at(R, at(ai, k)).append((at(aj, k), at(ax, k)))
    P_, J, X = pack(ev, R)
    if len(bp) < nr + 1: raise Panic("pointer array too short")
    return {6: P_ + [0] * (len(bp) - nr - 1), 7: fill(bj, J), 8: fill(bx, X)}
def coo_todense(ev, nr, nc, nnz, ai, aj, ax, b, fortran):
    b = list(b)
    for k in range(nnz):
        i, j = at(ai, k), at(aj, k); q = nr * j + i if fortran else nc * i + j
        put(b, q, at(b, q) + at(ax, k))
    return {6: b}
def coo_matvec(ev, nnz, ai, aj, ax, x, y):
    y = list(y)
    for k in range(nnz): put(y, at(ai, k), at(y, at(ai, k)) + at(ax, k) * at(x, at(aj, k)))
    return {5: y}

# kernel -> (oracle, output positions, element sorts of outputs / 'ret': sort, positions of row pointers)
I_, T_ = "i", "t"
K = {
    "::row::csr_diagonal": (diagonal, {6: T_}, (3,)),
    "::row::expandptr": (expandptr, {2: I_}, (1,)),
    "::row::csr_scale_rows": (scale_rows, {4: T_}, (2,)),
    "::row::csr_scale_columns": (scale_columns, {4: T_}, (2,)),
    "::row::csr_todense": (todense, {5: ("S", T_)}, (2,)),
    "::row::csr_has_sorted_indices": (is_sorted, {"ret": "b"}, (1,)),
    "::row::csr_has_canonical_format": (is_canonical, {"ret": "b"}, (1,)),
    "::row::csr_sort_indices": (sort_indices, {2: I_, 3: T_}, (1,)),
    "::row::csr_tocsc": (tocsc, {5: I_, 6: I_, 7: T_}, (2,)),
    "::row::csr_matmat_maxnnz": (maxnnz, {"ret": "i"}, (2, 4)),
    "::row::csr_matmat": (matmat, {8: I_, 9: I_, 10: T_}, (2, 5)),
    "::row::csr_binop_csr_general": (binop, {8: I_, 9: I_, 10: T_}, (2, 5)),
    "::row::csr_binop_csr_canonical": (binop_canonical, {8: I_, 9: I_, 10: T_}, (2, 5)),
    "::row::csr_binop_csr": (binop, {8: I_, 9: I_, 10: T_}, (2, 5)),
    "::row::csr_sum_duplicates": (sum_duplicates, {2: I_, 3: I_, 4: T_}, (2,)),
    "::row::csr_eliminate_zeros": (eliminate_zeros, {2: I_, 3: I_, 4: T_}, (2,)),
    "::row::csr_matvec": (matvec, {6: T_}, (2,)),
    "::row::csr_matvecs": (matvecs, {7: T_}, (3,)),
    "::row::csr_select": (select, {7: I_, 8: I_, 9: T_}, (2,)),
    "::row::get_csr_submatrix": (submatrix, {9: I_, 10: I_, 11: T_}, (2,)),
    "::row::csr_row_index": (row_index, {5: I_, 6: T_}, (2,)),
    "::row::csr_row_slice": (row_slice, {6: I_, 7: T_}, (3,)),
    "::row::csr_column_index1": (column_index1, {6: I_, 7: I_}, (4,)),
    "::row::csr_column_index2": (column_index2, {5: I_, 6: T_}, (1,)),
    "::row::csr_count_diagonals": (count_diagonals, {"ret": "i"}, (1,)),
    "::row::csr_tocoo": (tocoo, {5: I_, 6: I_, 7: T_}, (2,)),
    "::col::csc_matvec": (csc_matvec, {6: T_}, (2,)),
    "::col::csc_matvecs": (csc_matvecs, {7: T_}, (3,)),
    "::col::csc_diagonal": (csc_diagonal, {6: T_}, (3,)),
    "::col::csc_tocsr": (csc_tocsr, {5: I_, 6: I_, 7: T_}, (2,)),
    "::col::csc_matmat_maxnnz": (csc_maxnnz, {"ret": "i"}, (2, 4)),
    "::col::csc_matmat": (csc_matmat, {8: I_, 9: I_, 10: T_}, (2, 5)),
    "::coord::coo_tocsr": (coo_tocsr, {6: I_, 7: I_, 8: T_}, ()),
    "::coord::coo_todense": (coo_todense, {6: T_}, ()),
    "::coord::coo_matvec": (coo_matvec, {5: T_}, ()),
}
for o in OPS:
    K["::row::csr_%s_csr" % o] = (named(o), {8: I_, 9: I_, 10: "b" if o in ("ne", "eq", "lt", "le", "gt", "ge") else T_}, (2, 5))
ORACLES = {k: v[0] for k, v in K.items()}

FX, FY = sym("«x»", "t"), sym("«y»", "t")
def contract(name):
    oracle, outs, _ = K[name]
    def ct(I, args, st, g, loc):
        vals = []
        for a in args:
            v = I.rdd(a, st)
            if v.op in ("fnval", "fnsym") or (v.op == "agg" and str(v.args[0]).startswith("closure:")):
                v = mk("opfn", I.call_closure(v, [P(FX), P(FY)], dict(st), "op"))
            vals.append(v)
        I.event("kernel", band(g, bvar(mk("K", (name, "#panic"), "b", None, *vals))), loc)
        ret = UNIT
        for o, s in outs.items():
            if o == "ret":
                t = mk("K", (name, "ret"), s, None, *vals)
                ret = bvar(t) if s == "b" else P(t)
            else:
                grow = name in GROW
                t = mk("K", (name, o), s, None if grow else length(vals[o]), *vals)
                I.wr(args[o], t, st)
        return ret
    return ct
GROW = {"::row::csr_select", "::row::get_csr_submatrix", "::row::csr_row_index", "::row::csr_row_slice"}
