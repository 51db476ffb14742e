"""Specifications of the matrix methods and operators."""
from specs import *
from itertools import product
import itertools
from specs import first as F1

def one(ms): return lambda: [(d, (m,)) for d, m in ms]
CS, CC, CO, DK, DN = csrs(), cscs(), coos(), doks(), denses()
XV = [2, 3, 5, 7, 11, 13] + [17 + 7 * i % 41 for i in range(140020)]
def rr(a): return a.rows, a.cols

# ---------------------------------------------------------------- C01 conversions
def conv_bag(o, a): 
    R = ret_ok(o); return [(None, same_bag(R, a.rows, a.cols, ents(a)))]
def conv_sum(o, a):
    R = ret_ok(o)
    return [(None, same_sum(R, a.rows, a.cols, sums(ents(a)), pattern=sums(ents(a))) or nodup(R))]
def conv_canon(o, a):
    R = ret_ok(o)
    return conv_sum(o, a) + [("C03", canonical(R)), ("C03 C11", exact(R))]
def conv_dense(o, a):
    R = need(ret_ok(o))
    w = dense_of(a.rows, a.cols, ents(a))
    return [(None, None if R == w else "dense result is %s, expected %s" % (R, w))]
spec("CSR::to_coo", "C01", one(CS), conv_bag)
spec("CSC::to_coo", "C01", one(CC), conv_bag)
spec("CSR::to_csc", "C01", one(CS), conv_bag)
spec("CSC::to_csr", "C01", one(CC), conv_bag)
spec("DoK::to_coo", "C01", one(DK), conv_bag, order=(0, 1))
spec(["Coo::to_csr", "Coo::to_csc"], "C01 C03", one(CO), conv_canon)
spec(["DoK::to_csr", "DoK::to_csc"], "C01", one(DK), conv_canon, order=(0, 1))
spec("CSR::to_dense", "C01", one(CS), conv_dense)
spec("CSC::to_dense", "C01", one(CC), conv_dense)
spec("Coo::to_dense", "C01", one(CO), conv_dense)
spec("DoK::to_dense", "C01", one(DK), conv_dense, order=(0, 1))
def from_dense(o, a):
    R = ret_ok(o); rows = len(a); cols = len(a[0]) if a else 0
    d = {(i, j): v for i, r in enumerate(a) for j, v in enumerate(r) if v != 0}
    return [("C01", same_sum(R, rows, cols, d)), ("C09", same_bag(R, rows, cols, [(i, j, v) for (i, j), v in d.items()]))]
spec(["CSR::from_dense", "CSC::from_dense", "Coo::from_dense", "DoK::from_dense"], "C01 C09", one(DN), from_dense)
DG = [("diagonal of %d" % n, [2, 3, 5, 7][:n]) for n in (0, 1, 2, 4)] + [("diagonal %s" % (v,), v) for v in ([0], [0, 0], [0, 2], [2, 0], [2, 0, 3], [1, 1, 1], [1], [-1, 2, -3], [2, 2, 3], [3, 2, 2], [2, 3, 2], [0, 0, 5, 0], [1, 0, 1, 0, 0, 7])] + [("diagonal of %d" % n, [2 + i for i in range(n)]) for n in BIG]
def with_diag(o, a):
    R = ret_ok(o); n = len(a)
    return [(None, same_bag(R, n, n, [(i, i, v) for i, v in enumerate(a)]))]
spec(["CSR::with_diagonal", "CSC::with_diagonal", "Coo::with_diagonal"], "C01 C16", one(DG), with_diag)
spec("Coo::identity", "C01 C16", lambda: [("identity of %d" % n, (n,)) for n in [0, 1, 3] + BIG], lambda o, n: [(None, same_bag(ret_ok(o), n, n, [(i, i, 1) for i in range(n)]))])
def sized(o, r, c, *k): return [(None, same_bag(ret_ok(o), r, c, []))]
SZ = [("%dx%d" % s, s) for s in [(0, 0), (2, 3), (3, 0), (0, 3), (1, 1)]]
spec(["CSR::with_size", "Coo::with_size", "DoK::new"], "C11", lambda: [(d, s) for d, s in SZ], sized)
spec(["Coo::with_capacity", "DoK::with_capacity"], "C11", lambda: [(d, s + (k,)) for d, s in SZ for k in (0, 4)], sized)

# ---------------------------------------------------------------- C02 transposition
def tr(o, a):
    R = ret_ok(o); return [(None, same_bag(R, a.cols, a.rows, [(j, i, v) for i, j, v in ents(a)]))]
spec(["CSR::transpose", "CSR::t"], "C02", one(CS), tr)
spec(["CSC::transpose", "CSC::t"], "C02", one(CC), tr)
spec(["Coo::transpose", "Coo::t"], "C02", one(CO), tr)
spec(["CSR::clone"], "C01 C11", one(CS), lambda o, a: [(None, same_bag(ret_ok(o), a.rows, a.cols, ents(a)))])
spec(["Coo::clone"], "C01 C11", one(CO), lambda o, a: [(None, same_bag(ret_ok(o), a.rows, a.cols, ents(a)))])

# ---------------------------------------------------------------- C03 canonical form
def srtd(o, a):
    R = need(o.out(0)); m = same_bag(R, a.rows, a.cols, ents(a))
    p, j = (R.rowptr, R.colidx) if isinstance(R, CSRv) else (R.colptr, R.rowidx)
    bad = [i for i in range(len(p) - 1) if any(j[k] > j[k + 1] for k in range(p[i], p[i + 1] - 1))]
    return [(None, m or ("indices not sorted in slot %d" % bad[0] if bad else None))]
def sumd(o, a):
    r = o.ret
    if isinstance(r, Err): raise Bad("returns an error on valid input")
    R = need(o.out(0)); d = sums(ents(a))
    return [(None, same_sum(R, a.rows, a.cols, d, pattern=d) or canonical(R)),
            ("C03 C11", None if is_canon((len((a.rowptr if isinstance(a, CSRv) else a.colptr)) - 1, 0) + ((a.rowptr, a.colidx) if isinstance(a, CSRv) else (a.colptr, a.rowidx)) + (0,)) else exact(R))]
def pred(f):
    def c(o, a):
        p, j = (a.rowptr, a.colidx) if isinstance(a, CSRv) else (a.colptr, a.rowidx)
        w = f((len(p) - 1, 0, p, j, 0)); g = need(ret_ok(o))
        return [(None, None if g == w else "answers %s for a matrix where it is %s" % (g, w))]
    return c
for t, fam in (("CSR", CS), ("CSC", CC)):
    spec(t + "::sort_indexes", "C03", one(fam), srtd)
    spec(t + "::sum_duplicates", "C03", one(fam), sumd)
    spec(t + "::has_canonical_format", "C03", one(fam), pred(is_canon))
    spec(t + "::has_sorted_indexes", "C03", one(fam), pred(is_sort))
    def prune(o, a):
        if isinstance(o.ret, Err): raise Bad("returns an error on valid input")
        R = need(o.out(0)); return [(None, same_bag(R, a.rows, a.cols, ents(a)) or exact(R))]
    spec(t + "::prune", "C03 C11", one(fam), prune)

# ---------------------------------------------------------------- C04, C09 element-wise
def binm(op):
    def c(o, a, b):
        R = ret_ok(o); f = contracts.OPS[op]
        da, db = sums(ents(a)), sums(ents(b))
        d = {k: f(da.get(k, 0), db.get(k, 0)) for k in set(da) | set(db)}
        return [("C04", same_sum(R, a.rows, a.cols, d) or nodup(R)), ("C09", nozeros(R)), ("C11", exact(R) if not isinstance(R, COOv) else None)]
    return c
def variants(fmt, *refs):
    out = [fmt]
    for k in refs: out = [x.replace(k, r + k.strip("{}")) for x in out for r in ("", "&")]
    return out
for t in ("CSR", "CSC"):
    PR = pairs(t.lower())
    for tr_, op in (("Add", "add"), ("Sub", "sub")):
        spec(["%s<%s%s,%s%s>" % (tr_, x, t, y, t) for x in ("", "&") for y in ("", "&")], "C04 C09", lambda PR=PR: [(d, (a, b)) for d, a, b in PR], binm(op))
spec("CSC::add", "C04 C09", lambda: [(d, (a, b)) for d, a, b in pairs("csc")], binm("add"))
spec("CSC::subtract", "C04 C09", lambda: [(d, (a, b)) for d, a, b in pairs("csc")], binm("sub"))
def cooadd(o, a, b):
    R = ret_ok(o); d = sums(ents(a) + ents(b))
    return [("C04", same_sum(R, a.rows, a.cols, d) or nodup(R)), ("C03", canonical(R))]
spec(["Add<%sCoo,%sCoo>" % (x, y) for x in ("", "&") for y in ("", "&")], "C04", lambda: [(d, (a, b)) for d, a, b in pairs("coo")], cooadd)

# ---------------------------------------------------------------- C05 products
def mv(a, x):
    y = [0] * a.rows
    for i, j, v in ents(a): y[i] += v * x[j]
    return y
def mvc(o, a, x):
    y = need(ret_ok(o)); w = mv(a, x)
    return [(None, None if y == w else "product is %s, expected %s" % (y, w))]
def mmc(o, a, b):
    R = ret_ok(o); da, db = ents(a), ents(b); d = {}
    for i, j, v in da:
        for k, l, w in db:
            if j == k: d[i, l] = d.get((i, l), 0) + v * w
    return [("C05", same_sum(R, a.rows, b.cols, d) or nodup(R)), ("C09", nozeros(R)), ("C11", exact(R))]
XZ = [1, 0, -1, F(1, 2), 0, 2] * 23400
def vecs(fam): return lambda: [(d + e, (a, X[:a.cols])) for d, a in fam for e, X in (("", XV), (", zeros and units in the vector", XZ))]
spec("CSR::mat_vec", "C05", vecs(CS), mvc)
spec("CSC::mat_vec", "C05", vecs(CC), mvc)
for t, fam in (("CSR", CS), ("CSC", CC)):
    spec(["Mul<%s%s,%s>" % (x, t, y) for x in ("", "&") for y in ("&[T]", "&&[T]", "&Vec", "&&Vec")], "C05", vecs(fam), mvc)
    spec(["Mul<%s%s,%s%s>" % (x, t, y, t) for x in ("", "&") for y in ("", "&")] + ["%s::mat_mat" % t], "C05 C09", lambda t=t: [(d, (a, b)) for d, a, b in prodpairs(t.lower())], mmc)
spec(["Mul<%sCSC,%sCSR>" % (x, y) for x in ("", "&") for y in ("", "&")], "C05 C09", lambda: [(d, (a, b)) for d, a, b in prodpairs("csccsr")], mmc)

# ---------------------------------------------------------------- C18 scaling
def scal(o, a, s): return [(None, same_bag(ret_ok(o), a.rows, a.cols, [(i, j, v * s) for i, j, v in ents(a)]))]
for t, fam in (("CSR", CS), ("CSC", CC)):
    spec(["Mul<%s%s,T>" % (x, t) for x in ("", "&")], "C18", lambda fam=fam: [(d, (a, s)) for d, a in fam for s in (3, 0, 1, -1, F(1, 2))], scal)
    spec(["Mul<%s,%s%s>" % (c, x, t) for x in ("", "&") for c in ("C",)], "C18", lambda fam=fam: [(d, (s, a)) for d, a in fam for s in (G(2, 3), 0, 1, G(0, 1))], lambda o, s, a: scal(o, a, s))
for t, fam in (("CSR", CS), ("CSC", CC), ("Coo", CO)):
    spec(["Neg<%s>" % t], "C18", one(fam), lambda o, a: [(None, same_bag(ret_ok(o), a.rows, a.cols, [(i, j, -v) for i, j, v in ents(a)]))])

# ---------------------------------------------------------------- C07 selection
SEL = [(None, None), ([0], None), (None, [0]), ([1, 0], [1, 0]), ([0, 0], [1, 1, 0]), ([], None), (None, []), ([1], [0, 1]), ([2, 0], [2, 1]), ([0, 1, 2], [2, 0]), ([1, 1, 1, 1, 0], [2])] + [([k % 2 for k in range(z)], [k % 3 for k in range(z)][::-1]) for z in BIG]
def sels(fam):
    def g():
        for d, a in fam:
            for ri, ci in SEL:
                if ri is not None and any(r >= a.rows for r in ri) or ci is not None and any(c >= a.cols for c in ci): continue
                yield "%s, rows %s cols %s" % (d, ri, ci), (a, Some(v=ri) if ri is not None else None, Some(v=ci) if ci is not None else None)
            for ri, ci in lists(a.rows, a.cols, len(d)):
                yield "%s, rows %s cols %s" % (d, ri, ci), (a, Some(v=ri) if ri is not None else None, Some(v=ci) if ci is not None else None)
    return g
def lists(r, c, seed):
    """selections of every small kind: all short row lists, all short column lists, arbitrary pairs"""
    q = random.Random(seed * 31 + r * 7 + c)
    def every(n):
        if n > 3: return [sorted(q.choices(range(n), k=n)) for _ in range(2)] + [q.choices(range(n), k=q.randint(1, n + 1)) for _ in range(4)] if n < 8 else [q.choices(range(n), k=5)]
        return [list(t) for k in range(1, 4) for t in product(range(n), repeat=k)]
    for ri in every(r): yield ri, None
    for ci in every(c): yield None, ci
    if 0 < r and 0 < c:
        for _ in range(6): yield q.choices(range(r), k=q.randint(1, 4)), q.choices(range(c), k=q.randint(1, 4))
def selc(o, a, ri, ci):
    ri = ri.v if ri else list(range(a.rows)); ci = ci.v if ci else list(range(a.cols))
    d = {(i, j): v for i, j, v in ents(a)}
    es = [(p, q, d[r, c]) for p, r in enumerate(ri) for q, c in enumerate(ci) if (r, c) in d]
    return [(None, same_bag(ret_ok(o), len(ri), len(ci), es))]
spec("CSR::select", "C07", sels(csrs(is_canon)), selc)
spec("CSC::select", "C07", sels(cscs(is_canon)), selc)

# ---------------------------------------------------------------- C08 stacking
def off(es, r, c): return [(i + r, j + c, v) for i, j, v in es]
def cst(k):
    nr, nc, p, j, x = dict(SHAPES)[k]
    return csr(nr, nc, p, j[:p[-1]], x[:p[-1]])
def cc(k):
    s = cst(k); return coo(s.rows, s.cols, [r for r in range(s.rows) for _ in range(s.rowptr[r], s.rowptr[r + 1])], s.colidx, s.values)
def mkc(r, c, es): return coo(r, c, [e[0] for e in es], [e[1] for e in es], [e[2] for e in es])
BL = {  # blocks by shape
    (2, 3): mkc(2, 3, [(0, 2, 2), (1, 0, 3), (1, 1, 5)]), (1, 3): mkc(1, 3, [(0, 1, 7), (0, 0, 11)]), (3, 3): mkc(3, 3, [(2, 2, 13), (0, 1, 17), (0, 1, 19)]),
    (0, 3): mkc(0, 3, []), (2, 1): mkc(2, 1, [(1, 0, 23)]), (2, 2): mkc(2, 2, [(0, 1, 29), (1, 0, 31)]), (2, 0): mkc(2, 0, []),
    (1, 1): mkc(1, 1, [(0, 0, 37)]), (3, 1): mkc(3, 1, [(2, 0, 41), (0, 0, 43)]), (3, 2): mkc(3, 2, [(1, 1, 47)]), (1, 2): mkc(1, 2, [(0, 1, 53)]), (2, 4): mkc(2, 4, [(1, 3, 59)]),
    (0, 0): mkc(0, 0, []), (1, 0): mkc(1, 0, [])}
for z in BIG:
    BL[z, 2] = mkc(z, 2, [(i, i % 2, i + 1) for i in range(z)]); BL[2, z] = mkc(2, z, [(j % 2, j, j + 1) for j in range(z)]); BL[z, 1] = mkc(z, 1, [(z - 1, 0, 3)]); BL[1, z] = mkc(1, z, [(0, z - 1, 3)])
for z in HUGE:
    z += 1
    BL[z, 2] = mkc(z, 2, [(0, 1, 3), (z - 1, 0, 5), (z // 2, 1, 7)]); BL[2, z] = mkc(2, z, [(1, 0, 3), (0, z - 1, 5), (1, z // 2, 7)]); BL[z, 1] = mkc(z, 1, [(z - 1, 0, 3)]); BL[1, z] = mkc(1, z, [(0, z - 1, 3)])
ZS = BIG + [z + 1 for z in HUGE]
def E(b): return mkc(b.rows, b.cols, [])
def empties(bs, full=False):
    """every choice of blocks holding no entry (or every single, every pair and every line of them)"""
    n = len(bs)
    for m in range(1 << n):
        yield m, [E(b) if m >> k & 1 else b for k, b in enumerate(bs)]
def vst(n):
    sh = [[(2, 3), (1, 3), (3, 3)], [(3, 3), (0, 3), (1, 3)], [(0, 3), (2, 3), (2, 3)], [(1, 1), (3, 1), (2, 1)], [(2, 2), (2, 2), (2, 2)], [(0, 0), (0, 0), (0, 0)]] + [q for z in ZS for q in ([(z, 2), (1, 2), (z, 2)], [(2, z), (1, z), (2, z)])]
    return lambda: [("blocks %s" % s[:n], tuple(BL[k] for k in s[:n])) for s in sh] + [("blocks %s, empty mask %d" % (s[:n], m), tuple(bs)) for s in (sh[0], sh[4]) for m, bs in empties([BL[k] for k in s[:n]])]
def hst(n):
    sh = [[(2, 3), (2, 1), (2, 4)], [(2, 2), (2, 0), (2, 3)], [(1, 3), (1, 1), (1, 2)], [(3, 1), (3, 3), (3, 2)], [(2, 2), (2, 2), (2, 2)], [(0, 3), (0, 3), (0, 0)]] + [q for z in ZS for q in ([(2, z), (2, 1), (2, z)], [(z, 2), (z, 1), (z, 2)])]
    return lambda: [("blocks %s" % s[:n], tuple(BL[k] for k in s[:n])) for s in sh] + [("blocks %s, empty mask %d" % (s[:n], m), tuple(bs)) for s in (sh[0], sh[4]) for m, bs in empties([BL[k] for k in s[:n]])]
def famstack(vert, n):
    """operands of every kind in every place"""
    K = ("empty", "first cell", "last cell", "full", "all zeros", "reversed", "scattered duplicates", "diagonal")
    def g():
        for ext in ((2, 2, 2), (1, 3, 2)):
            for ks in itertools.product(K if n == 2 else K[:1] + K[2:4] + K[6:7], repeat=n):
                sh = [(e, 3) if vert else (3, e) for e in ext[:n]]
                bs = [dict(famkinds(*q)).get(k) for q, k in zip(sh, ks)]
                if any(b is None for b in bs): continue
                yield "%s blocks %s: %s" % ("stacked" if vert else "adjoining", sh, ", ".join(ks)), tuple(mkc(q[0], q[1], [(i, j, v) for i, r in enumerate(b) for j, v in r]) for q, b in zip(sh, bs))
    return lambda: list(g())
def stackc(vert):
    def c(o, *bs):
        r = cN = 0; es = []
        for b in bs:
            es += off(ents(b), r if vert else 0, 0 if vert else cN)
            r += b.rows; cN += b.cols
        return [(None, same_bag(ret_ok(o), r if vert else bs[0].rows, bs[0].cols if vert else cN, es))]
    return c
def anystack(vert, n):
    def g():
        q = random.Random(43 + vert)
        for k in range(more(14, 80)):
            w = q.choice((0, 1, 2, 3)); bs = []
            for _ in range(n):
                h = q.choice((0, 1, 2, 3)); r, c = (h, w) if vert else (w, h)
                bs.append(mkc(r, c, [(q.randrange(r), q.randrange(c), q.randint(-9, 9)) for _ in range(q.randint(0, 4))] if r and c else []))
            yield "arbitrary blocks %s (%d)" % ([(b.rows, b.cols) for b in bs], k), tuple(bs)
            if k % 3 == 0: yield "one block repeated %s (%d)" % ((bs[0].rows, bs[0].cols), k), (bs[0],) * n
    return g
for n_ in (2, 3):
    spec("Coo::v_stack" + ("3" if n_ == 3 else ""), "C08", anystack(True, n_), stackc(True), tag="arbitrary")
    spec("Coo::h_stack" + ("3" if n_ == 3 else ""), "C08", anystack(False, n_), stackc(False), tag="arbitrary")
    spec("Coo::v_stack" + ("3" if n_ == 3 else ""), "C08", famstack(True, n_), stackc(True), tag="kinds")
    spec("Coo::h_stack" + ("3" if n_ == 3 else ""), "C08", famstack(False, n_), stackc(False), tag="kinds")
spec("Coo::v_stack", "C08", vst(2), stackc(True)); spec("Coo::v_stack3", "C08", vst(3), stackc(True))
spec("Coo::h_stack", "C08", hst(2), stackc(False)); spec("Coo::h_stack3", "C08", hst(3), stackc(False))
def tocsr_(b):
    R = [[] for _ in range(b.rows)]
    for i, j, v in ents(b): R[i].append((j, v))
    return csr(*comp(b.rows, b.cols, R))
def tocsc_(b):
    R = [[] for _ in range(b.cols)]
    for i, j, v in ents(b): R[j].append((i, v))
    s = comp(b.cols, b.rows, R)
    return csc(b.rows, b.cols, s[3], s[2], s[4])
def stack_sum(o, *bs):
    cN = 0; es = []
    for b in bs: es += off(ents(b), 0, cN); cN += b.cols
    R = ret_ok(o); d = sums(es)
    return [(None, same_sum(R, bs[0].rows, cN, d, pattern=d) or nodup(R))]
spec("CSR::h_stack", "C08", lambda: [(d, tuple(tocsr_(b) for b in bs)) for d, bs in hst(2)() + famstack(False, 2)()], stack_sum)
GRID2 = [[[(2, 3), (2, 1)], [(1, 3), (1, 1)]], [[(2, 2), (2, 3)], [(3, 2), (3, 3)]], [[(1, 1), (1, 2)], [(2, 1), (2, 2)]], [[(2, 2), (2, 2)], [(2, 2), (2, 2)]], [[(2, 3), (2, 0)], [(0, 3), (0, 0)]], [[(0, 3), (0, 0)], [(2, 3), (2, 0)]], [[(2, 0), (2, 3)], [(1, 0), (1, 3)]], [[(0, 0), (0, 0)], [(0, 0), (0, 0)]]]
GRID3 = [[[(2, 3), (2, 1), (2, 2)], [(1, 3), (1, 1), (1, 2)], [(3, 3), (3, 1), (3, 2)]], [[(1, 1), (1, 2), (1, 3)], [(2, 1), (2, 2), (2, 3)], [(3, 1), (3, 2), (3, 3)]]]
def grids(GR):
    """the grids, and the grids with some of the blocks empty"""
    for g in GR: yield "grid %s" % g, [[BL[s] for s in r] for r in g]
    for g in (GR[0], GR[1]):
        w = len(g[0]); bs = [BL[s] for r in g for s in r]
        ms = range(1, 1 << len(bs)) if w == 2 else sorted({1 << k for k in range(9)} | {511 ^ 1 << k for k in range(9)} | {7 << 3 * k for k in range(3)} | {73 << k for k in range(3)} | {511 ^ 7 << 3 * k for k in range(3)} | {511})
        for m in ms:
            q = [E(b) if m >> k & 1 else b for k, b in enumerate(bs)]
            yield "grid %s, empty mask %d" % (g, m), [q[i * w:(i + 1) * w] for i in range(w)]
def gridc(o, g):
    es = []; r = 0
    for row in g:
        c = 0
        for b in row: es += off(ents(b), r, c); c += b.cols
        r += row[0].rows
    R = ret_ok(o)
    if isinstance(R, COOv): return [(None, same_bag(R, r, c, es))]
    d = sums(es); return [(None, same_sum(R, r, c, d, pattern=d) or nodup(R))]
def anygrids(w, n):
    """arbitrary block heights, widths and contents (duplicates, empty blocks, zero extents)"""
    q = random.Random(41 * w)
    for k in range(n):
        hs = [q.choice((0, 1, 1, 2, 3)) for _ in range(w)]; ws = [q.choice((0, 1, 2, 2, 3)) for _ in range(w)]
        yield "arbitrary grid %s by %s (%d)" % (hs, ws, k), [[mkc(h, c, [(q.randrange(h), q.randrange(c), q.randint(-9, 9)) for _ in range(q.randint(0, 3))] if h and c else []) for c in ws] for h in hs]
def famgrids():
    """blocks of different kinds in every place: which places hold entries, and whether these are many, decides nothing"""
    K = ("empty", "last cell", "full", "all zeros", "scattered duplicates")
    for hs, ws in (((2, 2), (2, 2)), ((1, 2), (2, 1)), ((2, 3), (3, 2))):
        for ks in itertools.product(K[:3 if hs != (2, 2) else 5], repeat=4):
            q = [mkc(h, c, [(i, j, v) for i, r in enumerate(dict(famkinds(h, c))[k]) for j, v in r]) for (h, c), k in zip(itertools.product(hs, ws), ks)]
            yield "blocks of %s by %s: %s" % (hs, ws, ", ".join(ks)), [q[:2], q[2:]]
GRIDS2, GRIDS3 = list(grids(GRID2)) + list(famgrids()) + list(anygrids(2, more(16, 100))), list(grids(GRID3)) + list(anygrids(3, more(12, 80)))
spec("Coo::compose", "C08", lambda: [(d, (g,)) for d, g in GRIDS2], gridc)
spec("Coo::compose3", "C08", lambda: [(d, (g,)) for d, g in GRIDS3], gridc)
spec("CSC::compose", "C08", lambda: [(d, tuple(tocsc_(b) for r in g for b in r)) for d, g in GRIDS2], lambda o, a, b, c, d: gridc(o, [[a, b], [c, d]]))

# ---------------------------------------------------------------- C10 dictionary
def indices(a):
    p = [(i, j) for i in range(a.rows) for j in range(a.cols)]
    return p if len(p) <= 12 else p[:5] + p[-2:] + p[5:-2:max(1, len(p) // 5)]
DK5 = [(d, a) for d, a in DK if a.rows and a.cols]
def dget(o, a, i, j):
    w = a.values.get((i, j), 0); g = need(ret_ok(o))
    return [(None, None if g == w else "get(%d, %d) is %r, expected %r" % (i, j, g, w))]
spec("DoK::get", "C10 C16", lambda: [(d, (a, i, j)) for d, a in DK5 for i, j in indices(a)], dget)
def dupd(f):
    def c(o, a, i, j, v):
        if isinstance(o.ret, Err): raise Bad("returns an error for a position inside the matrix")
        R = need(o.out(0)); w = dict(a.values); n = f(w.get((i, j), 0), v)
        w.pop((i, j), None)
        if n != 0: w[i, j] = n
        return [("C10", eq_shape(R, a.rows, a.cols) or (None if {k: v for k, v in R.values.items() if v != 0} == w else "content becomes %s, expected %s" % (srt(R.values), srt(w)))),
                ("C09 C10", nozeros(R))]
    return c
def dset(): return [(d, (a, i, j, v)) for d, a in DK5 for i, j in indices(a) for v in dict.fromkeys((0, 4, 1, -1, a.values.get((i, j), 2), -a.values.get((i, j), 2)))]
spec("DoK::set", "C10 C09", dset, dupd(lambda x, v: v))
spec("DoK::add", "C10 C09", dset, dupd(lambda x, v: x + v))
spec("DoK::sub", "C10 C09", dset, dupd(lambda x, v: x - v))
def scalar_ret(f):
    def c(o, *a):
        g = need(ret_ok(o)); w = f(*a)
        return [(None, None if g == w else "returns %r, expected %r" % (g, w))]
    return c
spec("DoK::nnz", "C10 C11", one(DK), scalar_ret(lambda a: len(a.values)))
spec("DoK::deref", "C10", one(DK), scalar_ret(lambda a: a.values))

# ---------------------------------------------------------------- C11 accessors and constructors
for t, fam in (("CSR", CS), ("CSC", CC), ("Coo", CO), ("DoK", DK)):
    spec(t + "::rows", "C11", one(fam), scalar_ret(lambda a: a.rows))
    spec(t + "::cols", "C11", one(fam), scalar_ret(lambda a: a.cols))
for t, fam in (("CSR", CS), ("CSC", CC), ("Coo", CO)):
    for f in FIELDS[t][2:]:
        spec("%s::%s" % (t, f), "C11", one(fam), scalar_ret(lambda a, f=f: a.__dict__[f]))
    spec(t + "::values_mut", "C11", one(fam), scalar_ret(lambda a: a.values))
    spec(t + "::nnz", "C11", one(fam), scalar_ret(lambda a: len(ents(a))))
spec("CSC::shape", "C11", one(CC), scalar_ret(lambda a: (a.rows, a.cols)))
def push(o, a, i, j, v):
    R = o.out(0); return [(None, same_bag(R, a.rows, a.cols, ents(a) + [(i, j, v)]))]
CO5 = [(d, a) for d, a in CO if a.rows and a.cols]
spec("Coo::push", "C11", lambda: [(d, (a,) + e) for d, a in CO5 for e in ((0, a.cols - 1, 97), (a.rows - 1, 0, -1), (0, 0, 0), (a.rows - 1, a.cols - 1, 1))], push)
def ext(o, a, i, j, v):
    R = o.out(0); return [(None, same_bag(R, a.rows, a.cols, ents(a) + list(zip(i, j, v))))]
spec("Coo::extend", "C11", lambda: [(d, (a,) + e) for d, a in CO5 for e in (([0, a.rows - 1], [a.cols - 1, 0], [97, 101]), ([], [], []), ([0], [0], [0]), ([a.rows - 1, 0, a.rows - 1], [0, 0, 0], [5, 0, -5]))], ext)
def ctor(o, r, c, a, b, x):
    R = ret_ok(o)
    T_ = type(R)
    fs = FIELDS[{CSRv: "CSR", CSCv: "CSC", COOv: "Coo"}[T_]][2:]
    need(R)
    return [(None, F1(eq_shape(R, r, c), *[None if R.__dict__[f] == v else "%s does not hold the given array" % f for f, v in zip(fs, (a, b, x))]))]
spec("CSR::new", "C11", lambda: [(d, (a.rows, a.cols, a.rowptr, a.colidx, a.values)) for d, a in CS], ctor)
spec("CSC::new", "C11", lambda: [(d, (a.rows, a.cols, a.rowidx, a.colptr, a.values)) for d, a in CC], ctor)
spec("Coo::new", "C11", lambda: [(d, (a.rows, a.cols, a.rowidx, a.colidx, a.values)) for d, a in CO], ctor)

# ---------------------------------------------------------------- C12 complex views
CV = [G(2, 3), G(-5, 7), G(0, 11), G(13, 0), G(-17, -19), G(23, 29), G(31, -37), G(41, 43), G(47, -53), G(1, 0), G(0, 1), G(0, 0), G(-1, 0), G(0, -1), G(2, 2), G(-3, 3)]
def cx(a):
    b = type(a)(**a.__dict__); b.values = [CV[(k + 3 * a.rows + 5 * a.cols + len(a.values)) % len(CV)] for k in range(len(a.values))]; return b
def vmap(f):
    return lambda o, a: [(None, same_bag(ret_ok(o), a.rows, a.cols, [(i, j, f(v)) for i, j, v in ents(a)]))]
cj = lambda v: G(G._c(v).re, -G._c(v).im)
for t, fam in (("CSR", CS), ("CSC", CC), ("Coo", CO)):
    cf = [(d, cx(a)) for d, a in fam]
    spec(t + "::conj", "C12", one(cf), vmap(cj))
    spec(t + "::real", "C12", one(cf), vmap(lambda v: G._c(v).re))
    spec(t + "::imag", "C12", one(cf), vmap(lambda v: G._c(v).im))
    spec(t + "::h", "C12", one(cf), lambda o, a: [(None, same_bag(ret_ok(o), a.cols, a.rows, [(j, i, cj(v)) for i, j, v in ents(a)]))])
spec("CSR::with_real", "C12", one(CS), vmap(lambda v: G(v, 0)))
spec("CSR::with_imag", "C12", one(CS), vmap(lambda v: G(0, v)))
for w in (0, 1):
    spec("C::new", "C12", lambda: [("pair", (2, 3)), ("pair", (-5, 0))], scalar_ret(lambda a, b: G(a, b)), which=w)
    spec("C::conj", "C12", lambda: [("value", (v,)) for v in CV], scalar_ret(cj), which=w)
    spec("C::real", "C12", lambda: [("value", (v,)) for v in CV], scalar_ret(lambda v: v.re), which=w)
    spec("C::imag", "C12", lambda: [("value", (v,)) for v in CV], scalar_ret(lambda v: v.im), which=w)
spec("nonzero", "C04 C09", lambda: [("value %s" % v, (v,)) for v in (0, 1, -1, 5, F(1, 1000))], scalar_ret(lambda v: v != 0))
NZ = lambda vs: lambda: [("value %s" % (v,), (v,)) for v in vs]
for l_, vs in [("f64", (0, 1, -1, 5, F(1, 1000), F(-1, 1000), F(1, 2 ** 60), F(-1, 2 ** 100), F(1, 2 ** 900), 10 ** 20)), ("f32", (0, 1, -1, 5, F(1, 1000), F(-1, 1000), F(1, 2 ** 30), F(-1, 2 ** 100), 10 ** 20))] + \
              [(l, (0, 1, -1, 2, -2, 5, 64, 127, -127, -128)) for l in ("i8", "i16", "i32", "i64", "i128", "isize")] + [(l, (0, 1, 2, 5, 64, 127, 128, 255)) for l in ("u8", "u16", "u32", "u64", "u128", "usize")]:
    spec(l_ + "::nonzero", "C04 C09", NZ(vs), scalar_ret(lambda v: v != 0), signed=l_[0] != "u", opt=True)
spec("bool::nonzero", "C04 C09", NZ((False, True)), scalar_ret(lambda v: v), opt=True)
for w in (0, 1): spec("C::nonzero", "C04 C09", NZ(CV + [G(F(1, 2 ** 60), 0), G(0, F(-1, 2 ** 60)), G(1, -1), G(-1, 1), G(1, 1), G(2, 0), G(0, -2)]), scalar_ret(lambda v: v != 0), which=w, opt=True)

# ---------------------------------------------------------------- C16 diagonal, get, upper
def diagc(o, a):
    w = [sum((v for i, j, v in ents(a) if i == j == k), 0) for k in range(min(a.rows, a.cols))]; g = need(ret_ok(o))
    return [(None, None if g == w else "diagonal is %s, expected %s" % (g, w))]
for t, fam in (("CSR", CS), ("CSC", CC), ("Coo", CO)): spec(t + "::diagonal", "C16", one(fam), diagc)
def getc(o, a, i, j):
    w = sum((v for r, c, v in ents(a) if (r, c) == (i, j)), 0); g = need(ret_ok(o))
    return [(None, None if g == w else "element (%d, %d) is %r, expected %r" % (i, j, g, w))]
spec("CSR::get", "C16", lambda: [(d, (a, i, j)) for d, a in CS for i in range(a.rows) for j in range(a.cols)], getc)
def upc(o, a, k): return [(None, same_bag(ret_ok(o), a.rows, a.cols, [(i, j, v) for i, j, v in ents(a) if j >= i + k]))]
spec("Coo::upper", "C16", lambda: [(d, (a, k)) for d, a in CO for k in (0, 1, 2, 5)], upc)
spec("Coo::upper", "C16", lambda: [(d, (a, k)) for d, a in CO for k in (-7, -2, -1, 0, 1)], upc, tag="signed index type", signed=True)
