"""Specifications of the array kernels: outputs compared with the kernel's contract at the level of rows."""
from specs import *
import itertools
from itertools import product, permutations, combinations_with_replacement
from contracts import ORACLES, K, OPS

class _E:
    def __init__(s): s.m = {}; s.apps = {}
def expect(name, args):
    kid = next(k for k in K if k.endswith("::" + name))
    a = [list(v) if isinstance(v, list) else v for v in args]
    try: return ORACLES[kid](_E(), *a)
    except (IndexError, KeyError, ZeroDivisionError): raise contracts.Panic("outside")
def getout(o, k): return need(ret_ok(o)) if k == "ret" else need(o.out(k))

def exactc(name, *outs):
    def c(o, *args):
        w = expect(name, args); r = []
        for k in outs:
            g = getout(o, k)
            r.append((None, None if g == w[k] else "output %s is %s, expected %s" % (k, str(g)[:150], str(w[k])[:150])))
        return r
    return c
def rowsof(n, p, j, *x): 
    if len(p) < n + 1 or p[0] != 0 or any(a > b for a, b in zip(p, p[1:n + 1])) or len(j) < p[n]: raise Bad("pointer array %s is not valid for %d rows" % (p[:8], n))
    return [list(zip(j[p[i]:p[i + 1]], *[v[p[i]:p[i + 1]] for v in x])) for i in range(n)]
def rowc(name, n, ip, ij, ix, ordered=False, zeros=False, pv=None, grown=False):
    """outputs ip, ij, ix hold, row by row, the expected entries; n: number of rows from the arguments"""
    def c(o, *args):
        w = expect(name, args); N = n(*args)
        P_ = getout(o, ip) if ip in w else args[ip]
        J, X = getout(o, ij), getout(o, ix)
        wp = w[ip] if ip in w else args[ip]
        WR = rowsof(N, wp, w[ij], w[ix]); GR = rowsof(N, P_, J, X)
        out = []
        if grown and len(P_) != N + 1: out.append((pv, "%d pointers are returned for %d rows" % (len(P_), N)))
        if grown and not len(J) == len(X) == P_[N]: out.append((pv, "arrays of %d and %d elements are returned for %d entries" % (len(J), len(X), P_[N])))
        nzr = lambda r: [e for e in r if e[1] != 0]
        for i in range(N):
            a, b = (GR[i], WR[i])
            if zeros:
                if sorted(map(repr, nzr(a))) != sorted(map(repr, nzr(b))): out.append((pv, "row %d holds %s, expected %s" % (i, a, b))); break
            elif (a != b if ordered else sorted(map(repr, a)) != sorted(map(repr, b))): out.append((pv, "row %d holds %s, expected %s" % (i, a, b))); break
        if zeros and any(e[1] == 0 for r in GR for e in r): out.append(("C09", "explicit zero stored: %s" % GR))
        return out or [(None, None)]
    return c
RAW = [(d, s) for d, s in SHAPES]
XV = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29] + [30 + 7 * i % 41 for i in range(140020)]
XZ = [1, 0, -1, F(1, 2), 0, 2] * 23400       # zeros and units among the factors
def km(f, fam=RAW): return lambda: [(d, f(*s)) for d, s in fam]
def kms(f, fam=RAW): return lambda: [(d + e, a) for d, s in fam for e, a in f(*s)]

# ---------------------------------------------------------------- row kernels
def ks(nr, nc): return sorted({0, 1, -1, nc - 1, -(nr - 1), nc, -nr, nc + 2, -nr - 2, 2})
def diagm(nr, nc, p, j, x):
    for k in ks(nr, nc):
        r0, c0 = (0, k) if k >= 0 else (-k, 0)
        yield ", k=%d" % k, (k, nr, nc, p, j, x, [101] * max(0, min(nr - r0, nc - c0)))
spec("csr_diagonal", "C16", kms(diagm), exactc("csr_diagonal", 6))
def cdiagm(nr, nc, p, j, x):
    for k in ks(nr, nc):
        yield ", k=%d" % -k, (-k, nc, nr, p, j, x, [101] * max(0, min(nr - (-k if k < 0 else 0), nc - (k if k >= 0 else 0))))
spec("csc_diagonal", "C16", kms(cdiagm), exactc("csc_diagonal", 6))
spec("expandptr", "C01", km(lambda nr, nc, p, j, x: (nr, p, [101] * p[-1])), exactc("expandptr", 2))
spec("csr_scale_rows", "C18", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, XV[:nr])), exactc("csr_scale_rows", 4))
spec("csr_scale_rows", "C18", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, XZ[:nr])), exactc("csr_scale_rows", 4), tag="zeros and units")
spec("csr_scale_columns", "C18", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, XV[:nc])), exactc("csr_scale_columns", 4))
spec("csr_scale_columns", "C18", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, XZ[:nc])), exactc("csr_scale_columns", 4), tag="zeros and units")
spec("csr_todense", "C01", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, [[(i + 1) * 100 + k for k in range(nc)] for i in range(nr)])), exactc("csr_todense", 5))
BADP = [("decreasing pointers", (2, 3, [0, 2, 1], [0, 1, 2], [1, 1, 1])), ("non-monotone pointers", (3, 3, [0, 2, 1, 3], [0, 1, 2], [1, 1, 1]))]
SORTY = [("last pair swapped", comp(1, 4, [[(0, 1), (2, 1), (1, 1)]])), ("first pair swapped", comp(1, 4, [[(1, 1), (0, 1), (2, 1)]])), ("last row unsorted", comp(3, 4, [[(0, 1)], [(1, 1), (2, 1)], [(3, 1), (1, 1)]])),
         ("equal neighbours at the end", comp(2, 4, [[(0, 1), (1, 1)], [(0, 1), (2, 1), (2, 1)]])), ("rows overlap only across the boundary", comp(2, 4, [[(2, 1), (3, 1)], [(0, 1), (3, 1)]]))]
def subsets(n): return [[c for c in range(n) if m >> c & 1] for m in range(1 << n)]
SEQ2 = [q for n in (0, 1, 2, 3) for q in product(range(2), repeat=n)]
# Every arrangement of a short row: one matrix holding them all (ARRM), and each on its own (ARR1).
def many(nc, rows): return comp(len(rows), nc, [[(c, 1 + (i * 7 + k * 3) % 23) for k, c in enumerate(r)] for i, r in enumerate(rows)])
_q = random.Random(23)
def perms(n, k): return [_q.sample(range(n), n) for _ in range(k)]
ARRM = [("every order of 4", many(4, list(permutations(range(4))))), ("every order of 5", many(5, list(permutations(range(5))))), ("every row of 3 over 3 columns", many(3, list(product(range(3), repeat=3)))),
        ("every row of 4 over 3 columns", many(3, list(product(range(3), repeat=4)))), ("orders of 6", many(6, perms(6, 40))), ("orders of 8", many(8, perms(8, 40))),
        ("rows of 7 over 4 columns", many(4, [[_q.randrange(4) for _ in range(7)] for _ in range(40)])),
        ("sorted but for one exchange", many(7, [[c if c not in (a, b) else a + b - c for c in range(7)] for a in range(7) for b in range(a)])),
        ("sorted but for one moved entry", many(7, [(lambda q: q[:b] + [a] + q[b:])([c for c in range(7) if c != a]) for a in range(7) for b in range(7)]))]
ARR1 = [("row %s alone" % (list(r),), many(3, [r])) for n in (2, 3, 4) for r in product(range(3), repeat=n)] + [("row %s alone" % (list(r),), many(5, [r])) for r in permutations(range(5))] + [
        ("row %s alone" % (list(r),), many(7, [r])) for r in ([c if c not in (a, b) else a + b - c for c in range(7)] for a in range(7) for b in range(a))] + [
        ("rows %s and %s" % (list(r), list(t)), many(3, [r, t])) for r in product(range(2), repeat=2) for t in product(range(3), repeat=2)]
# Every row of equal or increasing columns with values that may cancel, every pattern of stored zeros.
DUPR = [("sorted rows of %d, values cancelling (%d)" % (n, h), comp(len(rows), 2, rows)) for n in (1, 2, 3, 4) for h, rows in enumerate((lambda A: [A[k:k + 60] for k in range(0, len(A), 60)])(
        [list(zip(c, v)) for c in combinations_with_replacement(range(2), n) for v in product((1, -1, 0), repeat=n)]))]
ZERR = [("every pattern of stored zeros in %d entries" % n, comp(1 << n, n, [[(c, 0 if m >> c & 1 else 2 + (m + c) % 9) for c in range(n)] for m in range(1 << n)])) for n in (1, 2, 3, 4, 5)]
spec("csr_has_sorted_indices", "C03", km(lambda nr, nc, p, j, x: (nr, p, j), RAW + SORTY + ARR1), exactc("csr_has_sorted_indices", "ret"))
spec("csr_has_canonical_format", "C03", km(lambda nr, nc, p, j, x: (nr, p, j), RAW + SORTY + ARR1), exactc("csr_has_canonical_format", "ret"))
spec("csr_has_canonical_format", "C03", km(lambda nr, nc, p, j, x: (nr, p, j), RAW + SORTY + BADP), exactc("csr_has_canonical_format", "ret"), ptr=False, tag="any pointers")
def sortc(o, n, p, j, x):
    J, X = getout(o, 2), getout(o, 3)
    a, b = rowsof(n, p, j, x), rowsof(n, p, J, X)
    for i in range(n):
        if sorted(map(repr, a[i])) != sorted(map(repr, b[i])): return [(None, "row %d holds %s, was %s" % (i, b[i], a[i]))]
        if any(u[0] > v[0] for u, v in zip(b[i], b[i][1:])): return [(None, "row %d is not sorted: %s" % (i, b[i]))]
    return [(None, None)]
spec("csr_sort_indices", "C03", km(lambda nr, nc, p, j, x: (nr, p, j, x), RAW + SORTY + ARRM), sortc)
spec("csr_tocsc", "C01", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, [9] * (nc + 1), [9] * p[-1], [9] * p[-1]), RAW + ARRM[2:3]), rowc("csr_tocsc", lambda nr, nc, *a: nc, 5, 6, 7))
spec("csc_tocsr", "C01", km(lambda nr, nc, p, j, x: (nc, nr, p, j, x, [9] * (nc + 1), [9] * p[-1], [9] * p[-1]), RAW + ARRM[2:3]), rowc("csc_tocsr", lambda nr, nc, *a: nr, 5, 6, 7))
spec("csr_tocoo", "C01", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, [9] * p[-1], [9] * p[-1], [9] * p[-1])), exactc("csr_tocoo", 5, 6, 7))
spec("csr_count_diagonals", "C16", km(lambda nr, nc, p, j, x: (nr, p, j)), exactc("csr_count_diagonals", "ret"))

PB = pairs("raw"); PP = [(d, a, b) for d, a, b in [(d, (m.rows, m.cols, m.rowptr, m.colidx, m.values), (n.rows, n.cols, n.rowptr, n.colidx, n.values)) for d, m, n in prodpairs("csr")]]
_B3 = [[(0, 2), (2, 3)], [(1, 5), (0, -2)], [(2, -3), (1, 7), (1, 1)]]
PP += [("every row over 3 columns by 3x3", comp(8, 3, [[(c, 1) for c in a] for a in subsets(3)]), comp(3, 3, _B3)), ("every row of up to 3 over 2 columns by 2x3", comp(15, 2, [[(c, (-1) ** k) for k, c in enumerate(a)] for a in SEQ2]), comp(2, 3, [[(2, 5), (0, 1)], [(1, 7), (2, 5)]]))]
PP += [("3x2 by every pair of rows over 3 columns (%d)" % m, comp(3, 2, [[(0, 1), (1, 1)], [(1, 2)], [(1, 1), (0, -1)]]), comp(2, 3, [[(c, 1 + c) for c in subsets(3)[m >> 3]], [(c, 1 + c) for c in subsets(3)[m & 7]]])) for m in range(64)]
spec("csr_matmat_maxnnz", "C05", lambda: [(d, (a[0], b[1], a[2], a[3], b[2], b[3])) for d, a, b in PP], exactc("csr_matmat_maxnnz", "ret"))
spec("csc_matmat_maxnnz", "C05", lambda: [(d, (b[1], a[0], b[2], b[3], a[2], a[3])) for d, a, b in PP], exactc("csc_matmat_maxnnz", "ret"))
def room(a, b):
    """positions the product can occupy, as the sizing pass counts them"""
    return [9] * sum(len({b[3][k] for jj in range(a[2][i], a[2][i + 1]) for k in range(b[2][a[3][jj]], b[2][a[3][jj] + 1])}) for i in range(a[0]))
def mma(a, b): return (a[0], b[1], a[2], a[3], a[4], b[2], b[3], b[4], [9] * (a[0] + 1), room(a, b), room(a, b))
spec("csr_matmat", "C05 C09", lambda: [(d, mma(a, b)) for d, a, b in PP], rowc("csr_matmat", lambda n, *a: n, 8, 9, 10, zeros=True, pv="C05"))
spec("csc_matmat", "C05 C09", lambda: [(d, (b[1], a[0], b[2], b[3], b[4], a[2], a[3], a[4], [9] * (a[0] + 1), room(a, b), room(a, b))) for d, a, b in PP], rowc("csc_matmat", lambda n, m, *a: m, 8, 9, 10, zeros=True, pv="C05"))
def boa(a, b): 
    n = a[2][-1] + b[2][-1]
    return (a[0], a[1], a[2], a[3], a[4], b[2], b[3], b[4], [9] * (a[0] + 1), [9] * n, [9] * n)
for o_ in OPS:
    spec("csr_%s_csr" % o_, "C04 C09", lambda: [(d, boa(a, b)) for d, a, b in PB], rowc("csr_%s_csr" % o_, lambda n, *a: n, 8, 9, 10, zeros=True, pv="C04"))
def general(x, y): return 3 * x - 5 * y + x * y       # asymmetric, op(0,0) = 0
def first_(x, y): return x if y == 0 else 0            # many zero results
def second_(x, y): return y if x == 0 else 0           # zero wherever the left operand stands alone
def prod_(x, y): return x * y                          # zero wherever an operand stands alone
def parts(d, nc, R, k=64): return [("%s (%d)" % (d, h), comp(len(R[h:h + k]), nc, [a for a, b in R[h:h + k]]), comp(len(R[h:h + k]), nc, [b for a, b in R[h:h + k]])) for h in range(0, len(R), k)]
PBX = parts("every pair of rows over 3 columns", 3, [([(c, 2 + c) for c in a], [(c, 7 + 2 * c) for c in b]) for a in subsets(3) for b in subsets(3)], 16) + parts(
    "every pair of rows over 3 columns, some cancel", 3, [([(c, 2 + c) for c in a], [(c, -2 - c if c != 1 else 3) for c in b]) for a in subsets(3) for b in subsets(3)], 16) + parts(
    "every pair of rows over 4 columns", 4, [([(c, 2 + c) for c in a], [(c, (7 + c) * (-1) ** c) for c in b]) for a in subsets(4) for b in subsets(4)], 64)
PBD = parts("every pair of rows with duplicates", 2, [([(c, 1 + k) for k, c in enumerate(a)], [(c, (-1) ** k * (1 + k)) for k, c in enumerate(b)]) for a in SEQ2 for b in SEQ2], 15)
PB += PBX[:8] + PBD[7:9]
CANP = [(d, a, b) for d, a, b in PB if is_canon(a) and is_canon(b)]
for nm, fam in (("csr_binop_csr_general", PB + PBD), ("csr_binop_csr_canonical", CANP + PBX[8:]), ("csr_binop_csr", PB)):
    spec(nm, "C04 C09", lambda fam=fam: [(d, boa(a, b) + (f,)) for d, a, b in fam for f in (general, first_, second_, prod_)], rowc(nm, lambda n, *a: n, 8, 9, 10, zeros=True, pv="C04"))
spec("csr_sum_duplicates", "C03 C01", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x), [(d, s) for d, s in RAW if is_sort(s)] + [
    ("sorted duplicates in every row", comp(3, 3, [[(0, 2), (0, 3), (1, 5)], [(1, 7), (1, 11), (1, 13)], [(0, 17), (2, 19), (2, 23)]])),
    ("duplicates then empty rows", comp(4, 2, [[(0, 2), (0, 3)], [], [(1, 5), (1, 7)], []]))] + DUPR), rowc("csr_sum_duplicates", lambda n, *a: n, 2, 3, 4, ordered=True))
spec("csr_eliminate_zeros", "C09", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x), RAW + [
    ("zeros everywhere", comp(3, 3, [[(0, 0), (1, 2), (2, 0)], [(1, 0)], [(0, 3), (1, 0), (2, 5)]])), ("all zero", comp(2, 2, [[(0, 0)], [(0, 0), (1, 0)]]))] + ZERR), rowc("csr_eliminate_zeros", lambda n, *a: n, 2, 3, 4))
spec("csr_matvec", "C05", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, XV[:nc], [100 + i for i in range(nr)])), exactc("csr_matvec", 6))
spec("csr_matvec", "C05", km(lambda nr, nc, p, j, x: (nr, nc, p, j, x, XZ[:nc], [100 + i for i in range(nr)])), exactc("csr_matvec", 6), tag="zeros and units")
spec("csc_matvec", "C05", km(lambda nr, nc, p, j, x: (nc, nr, p, j, x, XV[:nr], [100 + i for i in range(nc)])), exactc("csc_matvec", 6))
spec("csc_matvec", "C05", km(lambda nr, nc, p, j, x: (nc, nr, p, j, x, XZ[:nr], [100 + i for i in range(nc)])), exactc("csc_matvec", 6), tag="zeros and units")
SV = lambda n, k=0: [(1, 2, -1, 0, 1, 3, 2, -1)[(i + k) % 8] for i in range(n)]      # values that coincide with each other and with the entries
for k_ in (0, 3, 5):
    spec("csr_matvec", "C05", km(lambda nr, nc, p, j, x, k=k_: (nr, nc, p, j, x, SV(nc, k), SV(nr, 2 * k + 1))), exactc("csr_matvec", 6), tag="small values")
    spec("csc_matvec", "C05", km(lambda nr, nc, p, j, x, k=k_: (nc, nr, p, j, x, SV(nr, k), SV(nc, 2 * k + 1))), exactc("csc_matvec", 6), tag="small values")
def mvs(nr, nc, p, j, x):
    for k in (1, 4): yield ", 2 vectors of small values (%d)" % k, (nr, nc, 2, p, j, x, SV(nc * 2, k), SV(nr * 2, 2 * k + 1))
    for k in (0, 1, 2, 3): yield ", %d vectors" % k, (nr, nc, k, p, j, x, [2 * i + 3 for i in range(nc * k)], [100 + i for i in range(nr * k)])
    yield ", 2 vectors with zeros and units", (nr, nc, 2, p, j, x, XZ[:nc * 2], [100 + i for i in range(nr * 2)])
spec("csr_matvecs", "C05", kms(mvs), exactc("csr_matvecs", 7))
def cmvs(nr, nc, p, j, x):
    for k in (1, 4): yield ", 2 vectors of small values (%d)" % k, (nc, nr, 2, p, j, x, SV(nr * 2, k), SV(nc * 2, 2 * k + 1))
    for k in (0, 1, 2, 3): yield ", %d vectors" % k, (nc, nr, k, p, j, x, [2 * i + 3 for i in range(nr * k)], [100 + i for i in range(nc * k)])
    yield ", 2 vectors with zeros and units", (nc, nr, 2, p, j, x, XZ[:nr * 2], [100 + i for i in range(nc * 2)])
spec("csc_matvecs", "C05", kms(cmvs), exactc("csc_matvecs", 7))
def axc(o, n, a, x, y):
    g = need(o.out(3)); w = [y[i] + a * x[i] if i < n else y[i] for i in range(len(y))]
    return [(None, None if g == w else "y is %s, expected %s" % (g, w))]
spec("axpy", "C05", lambda: [("n=%d" % n, (n, 3, [2, 5, 7][:max(n, 1)], [11, 13, 17][:max(n, 1)])) for n in (0, 1, 2, 3)] + [("n=2, %d times %s onto %s" % (c, x, y), (2, c, list(x), list(y))) for c in (-1, 0, 1, 2) for x in itertools.product((-1, 0, 1, 2), repeat=2) for y in itertools.product((-1, 0, 1, 2), repeat=2)] + [("n=%d" % n, (n, 3, [2 + i for i in range(n)], [11 + 2 * i for i in range(n)])) for n in BIG], axc)
from specs_methods import SEL, lists
def selm(nr, nc, p, j, x):
    for ri, ci in SEL + (list(lists(nr, nc, len(x))) if nr * nc < 13 else []):
        ri = list(range(nr)) if ri is None else ri; ci = list(range(nc)) if ci is None else ci
        if any(r >= nr for r in ri) or any(c >= nc for c in ci): continue
        yield ", rows %s cols %s" % (ri, ci), (nr, nc, p, j, x, ri, ci, [], [], [])
        if len(ri) <= 2: yield ", rows %s cols %s, output arrays in use" % (ri, ci), (nr, nc, p, j, x, ri, ci, [9] * (3 * len(ri)), [9] * 4, [9] * 4)
CANON = [(d, s) for d, s in RAW if is_canon(s)]
NODUP = [(d, s) for d, s in RAW if all(len(set(s[3][s[2][i]:s[2][i + 1]])) == s[2][i + 1] - s[2][i] for i in range(s[0]))]
spec("csr_select", "C07", kms(selm, NODUP), rowc("csr_select", lambda nr, nc, p, j, x, ri, *a: len(ri), 7, 8, 9, grown=True))
def subm(nr, nc, p, j, x):
    W = [(0, nr, 0, nc), (0, 0, 0, 0), (1, 2, 0, 1), (0, 1, 1, 3), (1, 3, 1, 2), (0, 2, 0, 2), (1, 3, 2, 4), (2, 3, 1, 3)]
    if nr * nc < 10: W += [w for w in product(range(nr + 1), range(nr + 1), range(nc + 1), range(nc + 1)) if w[0] <= w[1] and w[2] <= w[3] and w not in W]
    for r0, r1, c0, c1 in W:
        if r1 <= nr and c1 <= nc: yield ", window [%d..%d, %d..%d]" % (r0, r1, c0, c1), (nr, nc, p, j, x, r0, r1, c0, c1, [], [], [])
        if r1 <= nr and c1 <= nc: yield ", window [%d..%d, %d..%d], output arrays in use" % (r0, r1, c0, c1), (nr, nc, p, j, x, r0, r1, c0, c1, [9] * (3 * (r1 - r0)), [9] * 3, [9] * 3)
spec("get_csr_submatrix", "C07", kms(subm), rowc("get_csr_submatrix", lambda nr, nc, p, j, x, r0, r1, *a: r1 - r0, 9, 10, 11, grown=True))
def rim(nr, nc, p, j, x):
    for rs in ([], [0], [1, 0], [0, 0, 1], [2, 1, 2], [1], [1, 1], [0, 1], [0, 1, 2], [2, 1, 0], [2, 2, 2, 0], [3, 0, 3]):
        if all(r < nr for r in rs): yield ", rows %s" % rs, (len(rs), rs, p, j, x, [], [])
spec("csr_row_index", "C07", kms(rim), exactc("csr_row_index", 5, 6))
def rsm(nr, nc, p, j, x):
    for a, b, s in [(0, nr, 1), (0, nr, 2), (1, nr, 1), (0, 0, 1), (1, nr, 3), (2, nr, 2), (0, max(nr - 1, 0), 1), (0, nr, 5)] + ([(a, b, s) for a in range(nr + 1) for b in range(a, nr + 1) for s in (1, 2, 3, 4)] if nr < 7 else []):
        if a <= b <= nr: yield ", rows %d..%d step %d" % (a, b, s), (a, b, s, p, j, x, [], [])
spec("csr_row_slice", "C07", kms(rsm), exactc("csr_row_slice", 6, 7))
COLS = ([], [0], [1, 0], [0, 0, 1], [2, 0, 2], [1], [3, 1, 3, 0], [0, 1, 2], [0, 1], [2], [1, 1], [1, 1, 1], [2, 1, 0], [3, 3, 0, 0], [0, 2], [4, 4, 1, 0, 4])
def c1m(nr, nc, p, j, x):
    for cs in COLS:
        if all(c < nc for c in cs): yield ", columns %s" % cs, (len(cs), cs, nr, nc, p, j, [0] * nc, [9] * (nr + 1))
spec("csr_column_index1", "C07", kms(c1m), exactc("csr_column_index1", 6, 7))
def c2m(nr, nc, p, j, x):
    for cs in COLS:
        if not all(c < nc for c in cs): continue
        w = expect("csr_column_index1", (len(cs), cs, nr, nc, p, j, [0] * nc, [9] * (nr + 1)))
        order = sorted(range(len(cs)), key=lambda k: cs[k]); m = w[7][nr]
        yield ", columns %s" % cs, (order, w[6], p[nr], j, x, [9] * m, [9] * m)
spec("csr_column_index2", "C07", kms(c2m), exactc("csr_column_index2", 5, 6))
# ---------------------------------------------------------------- coordinate kernels
COs = coos()
spec("coo_tocsr", "C01", lambda: [(d, (a.rows, a.cols, len(a.values), a.rowidx, a.colidx, a.values, [9] * (a.rows + 1), [9] * len(a.values), [9] * len(a.values))) for d, a in COs],
     rowc("coo_tocsr", lambda nr, *a: nr, 6, 7, 8))
spec("coo_todense", "C01", lambda: [(d + (", fortran order" if f else ""), (a.rows, a.cols, len(a.values), a.rowidx, a.colidx, a.values, [100 + k for k in range(a.rows * a.cols)], f)) for d, a in COs for f in (False, True)],
     exactc("coo_todense", 6))
spec("coo_matvec", "C05", lambda: [(d, (len(a.values), a.rowidx, a.colidx, a.values, XV[:a.cols], [100 + i for i in range(a.rows)])) for d, a in COs], exactc("coo_matvec", 5))
spec("coo_matvec", "C05", lambda: [(d, (len(a.values), a.rowidx, a.colidx, a.values, XZ[:a.cols], [100 + i for i in range(a.rows)])) for d, a in COs], exactc("coo_matvec", 5), tag="zeros and units")
for k_ in (0, 3, 5):
    spec("coo_matvec", "C05", lambda k=k_: [(d, (len(a.values), a.rowidx, a.colidx, a.values, SV(a.cols, k), SV(a.rows, 2 * k + 1))) for d, a in COs], exactc("coo_matvec", 5), tag="small values")
