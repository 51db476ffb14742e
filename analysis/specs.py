"""What each function must mean, over finite structures covering the shapes the properties quantify over.

A spec never looks at how a function is written: it compares the meaning of the function's summary with the
matrix-level meaning required by a property.  Every entry is tagged with the properties it belongs to.
"""
from fractions import Fraction as F
from judge import *
import contracts, itertools, os, random

class Undec(Exception): pass
def need(v):
    if not known(v): raise Undec(repr(v)[:160])
    return v

# ------------------------------------------------------------------ structures
# (rows, cols, rows as lists of (index, value))
def comp(nr, nc, R, slack=0):
    p = [0]; j = []; x = []
    for r in R:
        for c, v in r: j.append(c); x.append(v)
        p.append(len(j))
    return nr, nc, p, j + [0] * slack, x + [0] * slack
SHAPES = [
    ("2x3 canonical", comp(2, 3, [[(0, 2), (2, 3)], [(1, 5)]])),
    ("3x2 empty first and last row", comp(3, 2, [[], [(0, 7), (1, 11)], []])),
    ("3x4 unsorted", comp(3, 4, [[(3, 2), (0, 3), (1, 5)], [(2, 7)], [(1, 11), (0, 13)]])),
    ("3x3 duplicates", comp(3, 3, [[(1, 2), (1, 3), (0, 5)], [], [(2, 7), (2, 11), (2, 13)]])),
    ("2x2 cancelling duplicates and stored zero", comp(2, 2, [[(0, 4), (0, -4), (1, 0)], [(1, 6), (0, 9)]])),
    ("4x1 column", comp(4, 1, [[(0, 2)], [], [(0, 3)], [(0, 5)]])),
    ("1x4 row", comp(1, 4, [[(0, 2), (1, 3), (3, 5)]])),
    ("1x1", comp(1, 1, [[(0, 3)]])),
    ("0x0", comp(0, 0, [])),
    ("0x3", comp(0, 3, [])),
    ("3x0", comp(3, 0, [[], [], []])),
    ("3x3 empty", comp(3, 3, [[], [], []])),
    ("3x3 canonical, off-diagonal", comp(3, 3, [[(1, 2), (2, 3)], [(0, 5)], [(0, 7), (1, 11)]])),
    ("4x4 canonical with negatives", comp(4, 4, [[(0, -2), (3, 3)], [(1, 5), (2, -7)], [], [(0, 11), (1, -13), (3, 17)]])),
    ("5x2 tall, sorted duplicates", comp(5, 2, [[(0, 2), (0, 3)], [(1, 5)], [(0, 7), (1, 11), (1, 13)], [], [(1, 17)]])),
    ("2x5 wide reversed", comp(2, 5, [[(4, 2), (2, 3), (0, 5)], [(3, 7), (1, 11)]])),
    ("2x3 with slack arrays", comp(2, 3, [[(2, 2)], [(0, 3), (1, 5)]], 2)),
]
# Structures a shortcut would single out (full, diagonal, permutation, symmetric, triangular, one value, overfull, ...).
SHAPES += [
    ("2x2 full", comp(2, 2, [[(0, 2), (1, 3)], [(0, 5), (1, 7)]])),
    ("2x3 full unsorted", comp(2, 3, [[(1, 2), (2, 3), (0, 5)], [(0, 7), (2, 11), (1, 13)]])),
    ("3x3 diagonal", comp(3, 3, [[(0, 2)], [(1, 3)], [(2, 5)]])),
    ("3x3 identity", comp(3, 3, [[(0, 1)], [(1, 1)], [(2, 1)]])),
    ("3x3 permutation", comp(3, 3, [[(1, 1)], [(2, 1)], [(0, 1)]])),
    ("3x3 symmetric", comp(3, 3, [[(0, 2), (1, 3)], [(0, 3), (2, 5)], [(1, 5), (2, 7)]])),
    ("3x3 skew-symmetric", comp(3, 3, [[(1, 3)], [(0, -3), (2, 5)], [(1, -5)]])),
    ("3x3 upper triangular", comp(3, 3, [[(0, 2), (1, 3), (2, 5)], [(1, 7), (2, 11)], [(2, 13)]])),
    ("3x3 strictly lower", comp(3, 3, [[], [(0, 2)], [(0, 3), (1, 5)]])),
    ("1x1 with three duplicates", comp(1, 1, [[(0, 2), (0, 3), (0, 5)]])),
    ("2x2 more entries than cells", comp(2, 2, [[(1, 2), (0, 3), (1, 5)], [(0, 7), (0, 11), (1, 13)]])),
    ("3x3 only the last row unsorted", comp(3, 3, [[(0, 2), (1, 3)], [(2, 5)], [(2, 7), (0, 11)]])),
    ("3x3 only the last row with a duplicate", comp(3, 3, [[(0, 2), (1, 3)], [(2, 5)], [(1, 7), (1, 11)]])),
    ("3x3 only the first row with a duplicate", comp(3, 3, [[(2, 2), (2, 3)], [(2, 5)], [(0, 7), (1, 11)]])),
    ("2x4 middle of a row exchanged", comp(2, 4, [[(0, 2), (2, 3), (1, 5), (3, 7)], [(1, 11), (3, 13)]])),
    ("2x4 duplicate apart", comp(2, 4, [[(1, 2), (3, 3), (1, 5)], [(0, 11), (2, 1), (3, 4), (0, 13)]])),
    ("3x2 one row holds everything", comp(3, 2, [[], [], [(0, 2), (1, 3)]])),
    ("2x3 one value throughout", comp(2, 3, [[(0, 4), (2, 4)], [(1, 4), (2, 4)]])),
    ("2x3 all ones", comp(2, 3, [[(0, 1), (2, 1)], [(1, 1)]])),
    ("2x3 all stored zero", comp(2, 3, [[(0, 0), (2, 0)], [(1, 0)]])),
    ("2x3 all negative", comp(2, 3, [[(0, -4), (2, -1)], [(1, -1)]])),
    ("3x3 rows cancel to nothing", comp(3, 3, [[(0, 4), (0, -4)], [(1, 2)], [(2, 3), (2, -3)]])),
    ("3x4 last column empty", comp(3, 4, [[(0, 1), (2, 3)], [(1, 2)], [(2, 6)]])),
    ("4x3 first column empty", comp(4, 3, [[(1, 1), (2, 3)], [], [(2, 6)], [(1, 9)]])),
    ("1x1 empty", comp(1, 1, [[]])),
    ("3x3 canonical with slack", comp(3, 3, [[(0, 2), (1, 3)], [], [(2, 7)]], 1)),
    ("2x2 unsorted duplicates with slack", comp(2, 2, [[(1, 2), (0, 3), (1, 5)], [(0, 7)]], 3)),
]
# Beyond the hand-picked corner cases: arbitrary structures from a fixed stream, more of them in the thorough tier.
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
KINDS = ["canonical", "sorted with duplicates", "unsorted", "unsorted with duplicates", "cancelling"]
def more(quick, thorough): return thorough if THOROUGH else quick
def rrows(r, nr, nc, kind, small=False):
    R = []
    for _ in range(nr):
        k = r.choice([0, 1, 1, 2, 2, 3, 4]) if nc else 0
        if kind in ("canonical", "unsorted"): js = r.sample(range(nc), min(k, nc))
        else: js = [r.randrange(nc) for _ in range(k)]
        if kind in ("canonical", "sorted with duplicates"): js.sort()
        vs = [r.choice([-1, 0, 1, 1, 2, 3]) if small else r.choice([-1, 1]) * r.randint(1, 40) if kind != "cancelling" else r.choice([-3, 3, 3, 0]) for _ in js]
        R.append(list(zip(js, vs)))
    return R
def rshapes(n):
    r = random.Random(7); out = []
    for k in range(n):
        nr, nc = r.randint(1, 6), r.randint(1, 6); kind = KINDS[k % 5]
        out.append(("%dx%d %s, arbitrary (%d)" % (nr, nc, kind, k), comp(nr, nc, rrows(r, nr, nc, kind))))
    for k in range(3 * n):                  # values that coincide with each other, with indices and with neutral elements
        nr, nc = r.randint(1, 4), r.randint(1, 4); kind = KINDS[k % 5]
        out.append(("%dx%d %s, small values (%d)" % (nr, nc, kind, k), comp(nr, nc, rrows(r, nr, nc, kind, True))))
    return out
def famkinds(nr, nc):
    """one matrix of each kind a shape admits"""
    n = 0
    def v():
        nonlocal n; n += 1
        return (2, 3, 5, 7, 11, 13, -2, 17, -3, 19, 23, -5)[n % 12]
    E = lambda: [[] for _ in range(nr)]
    def only(f): return [[(j, v()) for j in range(nc) if f(i, j)] for i in range(nr)]
    out = [("empty", E())]
    if not nr or not nc: return out
    ok = lambda d, R: out.append((d, R)) if all(R != q for _, q in out) else None
    ok("first cell", only(lambda i, j: i == j == 0))
    ok("last cell", only(lambda i, j: i == nr - 1 and j == nc - 1))
    ok("corner", only(lambda i, j: i == 0 and j == nc - 1))
    ok("full", only(lambda i, j: True))
    ok("ones on the diagonal", [[(i, 1)] if i < nc else [] for i in range(nr)])
    ok("diagonal", only(lambda i, j: i == j))
    ok("upper", only(lambda i, j: i <= j)); ok("strictly lower", only(lambda i, j: i > j))
    ok("first row", only(lambda i, j: i == 0)); ok("last row", only(lambda i, j: i == nr - 1))
    ok("first column", only(lambda i, j: j == 0)); ok("last column", only(lambda i, j: j == nc - 1))
    ok("checkered", only(lambda i, j: (i + j) % 2 == 0))
    ok("stored zeros", [[(j, 0 if (i + j) % 2 else v()) for j in range(nc)] for i in range(nr)])
    ok("all zeros", [[(j, 0) for j in range(nc)] for i in range(nr)])
    ok("reversed", [r[::-1] for r in only(lambda i, j: True)])
    ok("last row reversed", [r[::-1] if i == nr - 1 else r for i, r in enumerate(only(lambda i, j: True))])
    ok("duplicates", [[(j, v()) for j in range(nc) for _ in range(1 + (i + j) % 2)] for i in range(nr)])
    ok("cancelling duplicates", [[e for j in range(nc) for e in ([(j, 4), (j, -4)] if (i + j) % 2 else [(j, v())])] for i in range(nr)])
    ok("scattered duplicates", [[(j, v()) for j in range(nc)][::-1] + [(0, v())] for i in range(nr)])
    return out
SHAPES += rshapes(more(5, 50))
# Few entries in a wide, a tall or a large matrix; many in a small one.
SHAPES += [
    ("2x9 sorted duplicates", comp(2, 9, [[(3, 2), (3, 5)], [(8, 7)]])),
    ("2x9 last row unsorted", comp(2, 9, [[(3, 2)], [(8, 7), (0, 3), (8, 5)]])),
    ("9x2 sorted duplicates", comp(9, 2, [[], [], [], [(1, 2), (1, 5)], [], [], [], [(0, 3)], []])),
    ("9x2 unsorted", comp(9, 2, [[], [(1, 4)], [], [], [], [(1, 2), (0, 5)], [], [], []])),
    ("7x7 few entries", comp(7, 7, [[], [(6, 2)], [], [], [(0, 3), (4, 5)], [], []])),
    ("7x7 one cancelling pair", comp(7, 7, [[], [(6, 2)], [], [], [(4, 5), (4, -5)], [(5, 1)], []])),
    ("2x2 many duplicates", comp(2, 2, [[(1, 2), (1, 3), (0, 5), (1, 7), (0, 11)], [(0, 1), (0, 2), (0, 3), (0, 4)]])),
    ("1x6 sorted with a triple", comp(1, 6, [[(1, 2), (2, 3), (2, 4), (2, 5), (5, 7)]])),
    ("6x1 with duplicates", comp(6, 1, [[(0, 2), (0, 3)], [], [(0, 5)], [(0, 1), (0, 1)], [(0, 7)], []])),
]
SHAPES += [("%dx%d %s" % (nr, nc, d), comp(nr, nc, a)) for nr, nc in ((2, 3), (3, 2), (3, 3)) + more((), ((1, 3), (3, 1), (4, 4), (2, 5), (5, 2))) for d, a in famkinds(nr, nc)]
SHAPES += [("%dx%d empty with slack arrays" % q, comp(*q, [[] for _ in range(q[0])], 2)) for q in ((2, 2), (0, 0), (3, 0), (0, 2), (1, 1))]
SHAPES += [(d + ", slack of %d and %d" % (p, q), s[:3] + (s[3] + [0] * p, s[4] + [0] * q)) for d, s in [("2x3 canonical", comp(2, 3, [[(2, 2)], [(0, 3), (1, 5)]])), ("3x2 duplicates", comp(3, 2, [[(1, 2), (1, 3)], [], [(1, 7), (0, 5)]]))] for p, q in ((1, 3), (3, 1), (0, 2), (2, 0))]
# Sizes around every integer constant of the source: thresholds, block lengths and tables have both sides exercised.
BIG = []
HUGE = []                 # the same for constants above 130: few structures, with few entries per row
def literals(m):
    """integer constants at least 4 (and powers from shift amounts, and the ranges of narrow casts) in the bodies of the crate's functions"""
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "int" and m.types[x["t"]]["k"] == "int": out.add(abs(int(x["v"])))
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            if len(x) == 4 and x[0] == "bin" and str(x[1]).startswith(("Shr", "Shl")) and isinstance(x[3], list) and x[3][:1] == ["k"] and x[3][1].get("k") == "int" and 2 <= int(x[3][1]["v"]) <= 16: out.add(1 << int(x[3][1]["v"]))
            if x and x[0] == "cast":
                for t in x[1:]:
                    if isinstance(t, int) and t < len(m.types) and m.types[t].get("n") in NARROW: out.add(NARROW[m.types[t]["n"]])
            for v in x: walk(v)
    for f in m.list:
        if f["path"].endswith(("::eigs", "::csr_table")): continue          # their own families cover every constant they use
        walk(f["body"]); walk(f.get("prom"))
    return sorted(v for v in out if 4 <= v <= 70000)
NARROW = {"i8": 127, "u8": 255, "i16": 32767, "u16": 65535}
def sizes(cs): return sorted({v for c in cs for v in (c - 1, c, c + 1, c + 2, 2 * c + 1) if 4 <= v <= 133 and c <= 130})
def hugesizes(cs): return sorted({c for c in cs if c > 130}, reverse=False)[:3]
def bigs():
    out = []; r = random.Random(17)
    def row(nc, k, kind):
        js = r.sample(range(nc), min(k, nc)) if "dup" not in kind else [r.randrange(nc) for _ in range(k)]
        if "unsorted" not in kind: js.sort()
        if kind == "last two exchanged" and k > 1: js[-2:] = js[:-3:-1]
        if kind == "last one twice" and k > 1: js[-1] = js[-2]
        return [(j, r.choice([-1, 1]) * r.randint(1, 60)) for j in js]
    for n in BIG:
        for kind in ("canonical", "unsorted with duplicates", "unsorted", "last two exchanged", "last one twice"):
            out.append(("rows of %d, %s" % (n, kind), comp(3, n + 2, [row(n + 2, n, kind), row(n + 2, 2, kind), row(n + 2, n + 1, kind)])))
        out.append(("%d rows" % n, comp(n, 4, [row(4, (i * 7) % 3, "canonical") for i in range(n)])))
        out.append(("%d rows, columns of %d" % (n, n), comp(n, 3, [row(3, 1 + i % 2, "unsorted") for i in range(n)])))
        out.append(("%dx%d canonical" % (n, n), comp(n, n, [row(n, 2, "canonical") for i in range(n)])))
    return out
def huges():
    out = []; r = random.Random(19)
    for c in HUGE:
        for n in (c + 1, c):
            v = lambda: r.choice([-1, 1]) * r.randint(1, 60)
            out.append(("3x%d few entries" % n, comp(3, n, [[(0, v()), (n - 1, v())], [], [(n // 2, v()), (n - 2, v())]])))
            out.append(("%dx3 few entries" % n, comp(n, 3, [[(i % 3, v())] if i in (0, 1, n // 2, n - 2, n - 1) else [] for i in range(n)])))
            if n == c + 1:
                out.append(("3x%d unsorted with duplicates" % n, comp(3, n, [[(n - 1, v()), (n // 2, v()), (0, v()), (n - 1, v())], [(3, v()), (1, v())], []])))
                out.append(("2x3, rows of %d entries" % n, comp(2, 3, [[(k * 2 % 3, v()) for k in range(n)], [(2, v()), (0, v())]])))
                out.append(("%dx%d few entries" % (n, n), comp(n, n, [[(i, v())] if i in (0, 7, n - 1) else [(0, v()), (n - 1, v())] if i == n - 2 else [] for i in range(n)])))
                if n < 5000: out.append(("2x%d, full row" % n, comp(2, n, [[], [(k, v()) for k in range(n)]])))
    return out
def is_canon(s):
    nr, nc, p, j, x = s
    return all(j[k] < j[k + 1] for i in range(nr) for k in range(p[i], p[i + 1] - 1))
def is_sort(s):
    nr, nc, p, j, x = s
    return all(j[k] <= j[k + 1] for i in range(nr) for k in range(p[i], p[i + 1] - 1))
def csrs(f=lambda s: True, slack=True):
    return [(d, csr(*s)) for d, s in SHAPES if f(s) and (slack or len(s[3]) == s[2][-1])]
def cscs(f=lambda s: True, slack=True):
    return [(d.replace("row", "column").replace("x", "x", 1) + " (column-major)", csc(s[1], s[0], s[3], s[2], s[4])) for d, s in SHAPES if f(s) and (slack or len(s[3]) == s[2][-1])]
def coos():
    out = []
    for d, (nr, nc, p, j, x) in SHAPES:
        i = [r for r in range(nr) for _ in range(p[r], p[r + 1])]; n = len(i)
        out.append((d, coo(nr, nc, i, j[:n], x[:n])))
        if n > 2:
            q = list(range(n))[::-1]; q[0], q[1] = q[1], q[0]
            out.append((d + ", entries shuffled", coo(nr, nc, [i[k] for k in q], [j[k] for k in q], [x[k] for k in q])))
    return out
def doks():
    out = []
    for d, (nr, nc, p, j, x) in SHAPES:
        m = {}
        for r in range(nr):
            for k in range(p[r], p[r + 1]):
                if x[k] != 0: m[r, j[k]] = x[k]
        out.append((d, dok(nr, nc, m)))
    return out
def denses():
    out = []
    for nr, nc, v in [(2, 3, [0, 2, 0, 3, 0, 5]), (3, 2, [0, 0, 2, 3, 0, 5]), (2, 2, [0, 0, 0, 0]), (0, 0, []), (3, 1, [2, 0, 3]), (1, 3, [0, 2, -3]), (3, 3, [0, 2, 3, 0, 5, 0, 7, 0, 0]), (2, 0, []),
                     (1, 1, [0]), (1, 1, [3]), (2, 2, [2, 3, 5, 7]), (3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1]), (2, 3, [1] * 6), (2, 2, [-1, 0, -3, -4]), (4, 2, [0, 0, 0, 0, 0, 0, 0, 9]), (2, 4, [9, 0, 0, 0, 0, 0, 0, 0]), (3, 3, [2, 3, 0, 3, 5, 7, 0, 7, 11])]:
        out.append(("%dx%d dense" % (nr, nc), [v[i * nc:(i + 1) * nc] for i in range(nr)]))
    for z in BIG:
        out.append(("2x%d dense" % z, [[(7 * k + i) % 5 - 1 for k in range(z)] for i in range(2)])); out.append(("%dx2 dense" % z, [[(7 * i + k) % 5 - 1 for k in range(2)] for i in range(z)]))
    return out
def pairs(kind):
    """same-shaped operand pairs"""
    P = []
    def add(d, nr, nc, a, b): P.append((d, comp(nr, nc, a), comp(nr, nc, b)))
    add("canonical, overlapping and disjoint", 3, 4, [[(0, 2), (2, 3)], [(1, 5)], []], [[(0, 7), (3, 11)], [], [(0, 13), (2, 17)]])
    add("canonical, right ends first", 2, 4, [[(1, 2), (2, 3), (3, 5)], [(0, 7), (3, 9)]], [[(0, 11), (1, 13)], [(0, 17), (1, 19)]])
    add("canonical, left ends first", 2, 4, [[(0, 11), (1, 13)], [(0, 17)]], [[(1, 2), (2, 3), (3, 5)], [(0, 7), (3, 9)]])
    add("canonical, cancelling", 2, 3, [[(0, 4), (1, 5)], [(2, 6)]], [[(0, -4), (1, 5)], [(2, -6)]])
    add("equal operands", 2, 2, [[(0, 4)], [(0, 5), (1, 6)]], [[(0, 4)], [(0, 5), (1, 6)]])
    add("left empty", 2, 3, [[], []], [[(0, 2), (2, 3)], [(1, -5)]])
    add("right empty", 2, 3, [[(0, 2), (2, 3)], [(1, -5)]], [[], []])
    add("stored zeros", 2, 3, [[(0, 0), (2, 3)], [(1, 5)]], [[(0, 2), (1, 0)], [(1, 0), (2, 0)]])
    add("negatives", 2, 3, [[(0, -2), (1, 3)], [(0, -7)]], [[(1, -5), (2, -1)], [(0, -7), (1, 4)]])
    add("left unsorted", 2, 4, [[(3, 2), (0, 3)], [(2, 5), (1, 7)]], [[(0, 11), (3, 13)], [(2, 17)]])
    add("right unsorted", 2, 4, [[(0, 3), (3, 2)], [(1, 5)]], [[(3, 11), (0, 13), (2, 19)], [(2, 17), (0, 23)]])
    add("left duplicates", 3, 3, [[(1, 2), (1, 3)], [(0, 5), (2, 7), (0, 11)], []], [[(1, 13)], [(2, 17)], [(0, 19)]])
    add("both duplicates, cancelling", 2, 3, [[(1, 2), (1, 3)], [(0, 4), (0, -4)]], [[(2, 5), (1, -5), (2, 1)], [(0, 7), (0, 1)]])
    add("duplicates across rows", 3, 2, [[(1, 2), (1, 3)], [(1, 5), (0, 6)], [(0, 7), (0, 8)]], [[(0, 1)], [(1, 4), (1, 9)], [(1, 11), (0, 12)]])
    add("1x1", 1, 1, [[(0, 5)]], [[(0, 2)]])
    add("0x0", 0, 0, [], [])
    add("0x2", 0, 2, [], [])
    add("2x0", 2, 0, [[], []], [[], []])
    add("both empty 3x3", 3, 3, [[], [], []], [[], [], []])
    U = [[(0, 2), (1, 3)], [(1, 5), (2, 7)], [(0, 11)]]
    V = lambda A, f: [[(j, f(v)) for j, v in r] for r in A]
    T = lambda A, n: [[(i, v) for i, r in enumerate(A) for j, v in r if j == k] for k in range(n)]
    add("same positions, other values", 3, 3, U, V(U, lambda v: v + 1))
    add("opposite operands", 3, 3, U, V(U, lambda v: -v))
    add("transposed operands", 3, 3, U, T(U, 3))
    add("same positions, some cancel", 2, 3, [[(0, 2), (2, 3)], [(1, 5)]], [[(0, -2), (2, 3)], [(1, -5)]])
    add("same row lengths, other columns", 2, 4, [[(0, 2), (2, 3)], [(1, 5)]], [[(1, 2), (3, 3)], [(3, 5)]])
    add("same count, other rows", 2, 4, [[(0, 2), (2, 3)], []], [[], [(1, 7), (3, 3)]])
    add("same positions, unsorted", 2, 3, [[(2, 2), (0, 3)], [(1, 5)]], [[(2, 7), (0, 11)], [(1, 13)]])
    add("same positions, duplicates", 2, 3, [[(0, 2), (0, 3)], [(1, 5)]], [[(0, 7), (0, 11)], [(1, 13)]])
    add("left within right", 2, 3, [[(1, 2)], [(0, 3)]], [[(0, 5), (1, 7)], [(0, 11), (2, 13)]])
    add("right within left", 2, 3, [[(0, 5), (1, 7)], [(0, 11), (2, 13)]], [[(1, 2)], [(0, 3)]])
    add("full", 2, 2, [[(0, 2), (1, 3)], [(0, 5), (1, 7)]], [[(0, 11), (1, 13)], [(0, 17), (1, 19)]])
    add("identity left", 3, 3, [[(0, 1)], [(1, 1)], [(2, 1)]], U)
    add("identity right", 3, 3, U, [[(0, 1)], [(1, 1)], [(2, 1)]])
    add("only the last rows meet", 3, 3, [[], [], [(0, 2), (2, 3)]], [[], [], [(1, 5), (2, 7)]])
    add("only the last left row unsorted", 3, 3, [[(0, 2)], [(1, 3)], [(2, 5), (0, 7)]], U)
    add("only the last right row unsorted", 3, 3, U, [[(0, 2)], [(1, 3)], [(2, 5), (0, 7)]])
    add("only the last left row with a duplicate", 3, 3, [[(0, 2)], [(1, 3)], [(2, 5), (2, 7)]], U)
    add("only the last right row with a duplicate", 3, 3, U, [[(0, 2)], [(1, 3)], [(2, 5), (2, 7)]])
    add("more entries than cells", 1, 1, [[(0, 2), (0, 3)]], [[(0, 5), (0, 7), (0, 11)]])
    add("ones", 2, 2, [[(0, 1), (1, 1)], [(1, 1)]], [[(0, 1)], [(0, 1), (1, 1)]])
    add("slack", 2, 3, [[(0, 2), (2, 3)], [(1, 5)]], [[(0, 7)], [(1, 11), (2, 13)]])
    d, a, b = P.pop(); P.append((d, a[:3] + (a[3] + [0, 0], a[4] + [0, 0]), b[:3] + (b[3] + [0], b[4] + [0])))
    P.append(("left slack, unsorted", a[:2] + ([0, 2, 3], [2, 0, 1, 0, 0], [3, 2, 5, 0, 0]), b))
    r = random.Random(11)
    for k in range(more(10, 75)):
        nr, nc = r.randint(1, 5), r.randint(1, 6); ka, kb = KINDS[k % 5], KINDS[k // 5 % 5]
        add("%s and %s, arbitrary (%d)" % (ka, kb, k), nr, nc, rrows(r, nr, nc, ka), rrows(r, nr, nc, kb))
    for k in range(more(40, 200)):
        nr, nc = r.randint(1, 3), r.randint(1, 4); ka, kb = KINDS[k % 5], KINDS[k // 5 % 5]
        add("%s and %s, small values (%d)" % (ka, kb, k), nr, nc, rrows(r, nr, nc, ka, True), rrows(r, nr, nc, kb, True))
    for nr, nc in ((2, 3), (3, 2), (3, 3)) + more((), ((1, 3), (3, 1), (4, 4), (2, 5))):
        for (da, a), (db, b) in itertools.product(famkinds(nr, nc), repeat=2): add("%dx%d, %s and %s" % (nr, nc, da, db), nr, nc, a, b)
    for d, a in huges():
        b = comp(a[0], a[1], [[(j, 3 - v if t % 2 else -v) for t, (j, v) in enumerate(zip(a[3][a[2][i]:a[2][i + 1]], a[4][a[2][i]:a[2][i + 1]])) if t % 4 != 1] for i in range(a[0])])
        P.append((d, a, b)); P.append((d + ", operands exchanged", b, a))
    B = bigs()
    for k in range(0, len(B), 2 if len(B) > 60 else 1):
        d, a = B[k]; q = B[k + 1][1] if k % 6 == 0 else a
        b = comp(a[0], a[1], [[(j, 3 - v if (i + t) % 3 else -v) for t, (j, v) in enumerate(zip(a[3][a[2][i]:a[2][i + 1]], a[4][a[2][i]:a[2][i + 1]])) if t % 4 != 1] for i in range(a[0])])
        P.append((d, a, q if q[:2] == a[:2] and q is not a else b)); 
        if k % 3 == 0: P.append((d + ", operands exchanged", b, a))
    if kind == "csr": return [(d, csr(*a), csr(*b)) for d, a, b in P]
    if kind == "csc": return [(d, csc(a[1], a[0], a[3], a[2], a[4]), csc(b[1], b[0], b[3], b[2], b[4])) for d, a, b in P]
    if kind == "coo":
        def c(s): return coo(s[0], s[1], [r for r in range(s[0]) for _ in range(s[2][r], s[2][r + 1])], s[3][:s[2][-1]], s[4][:s[2][-1]])
        return [(d, c(a), c(b)) for d, a, b in P]
    return P
def prodpairs(kind):
    """conformable operands of a product"""
    P = []
    def add(d, n, m, q, a, b): P.append((d, comp(n, m, a), comp(m, q, b)))
    add("2x3 by 3x4", 2, 3, 4, [[(0, 2), (2, 3)], [(1, 5)]], [[(0, 7), (3, 11)], [(1, 13)], [(0, 17), (2, 19)]])
    add("3x2 by 2x2", 3, 2, 2, [[(1, 2)], [], [(0, 3), (1, 5)]], [[(0, 7)], [(0, 11), (1, 13)]])
    add("cancelling", 2, 2, 3, [[(0, 1), (1, 1)], [(0, 2), (1, -3)]], [[(0, 5), (1, 7)], [(0, -5), (2, 4)]])
    add("duplicates and unsorted", 2, 3, 3, [[(2, 2), (0, 3), (2, 5)], [(1, 7)]], [[(1, 11), (0, 13)], [(2, 17), (2, 19)], [(1, 23), (1, 29)]])
    add("empty rows", 3, 3, 2, [[], [(1, 2)], [(0, 3), (2, 5)]], [[], [(1, 7)], [(0, 11)]])
    add("row by column", 1, 3, 1, [[(0, 2), (1, 3), (2, 5)]], [[(0, 7)], [(0, 11)], [(0, 13)]])
    add("column by row", 3, 1, 2, [[(0, 2)], [(0, 3)], []], [[(0, 5), (1, 7)]])
    add("stored zeros", 2, 2, 2, [[(0, 0), (1, 2)], [(0, 3)]], [[(0, 5)], [(0, 0), (1, 7)]])
    add("noncommuting squares", 2, 2, 2, [[(0, 2), (1, 3)], [(1, 5)]], [[(0, 7)], [(0, 11), (1, 13)]])
    add("zero rows", 0, 2, 2, [], [[(0, 1)], [(1, 2)]])
    add("zero inner", 2, 0, 3, [[], []], [])
    add("zero columns", 2, 2, 0, [[(0, 1)], [(1, 2)]], [[], []])
    add("empty by empty", 2, 2, 2, [[], []], [[], []])
    U = [[(0, 2), (1, 3)], [(1, 5), (2, 7)], [(0, 11)]]; E3 = [[(k, 1)] for k in range(3)]
    add("identity by square", 3, 3, 3, E3, U)
    add("square by identity", 3, 3, 3, U, E3)
    add("diagonal by square", 3, 3, 3, [[(0, 2)], [(1, 3)], [(2, 5)]], U)
    add("square by diagonal", 3, 3, 3, U, [[(0, 2)], [(1, 3)], [(2, 5)]])
    add("permutation by square", 3, 3, 3, [[(2, 1)], [(0, 1)], [(1, 1)]], U)
    add("square by itself", 3, 3, 3, U, U)
    add("square by its transpose", 3, 3, 3, U, [[(i, v) for i, r in enumerate(U) for j, v in r if j == k] for k in range(3)])
    add("full by full", 2, 2, 2, [[(0, 2), (1, 3)], [(0, 5), (1, 7)]], [[(0, 11), (1, 13)], [(0, 17), (1, 19)]])
    add("nilpotent", 3, 3, 3, [[(1, 2)], [(2, 3)], []], [[(1, 2)], [(2, 3)], []])
    add("nothing meets", 2, 3, 2, [[(0, 2)], [(0, 3)]], [[], [(0, 5)], [(1, 7)]])
    add("whole product cancels", 1, 2, 2, [[(0, 1), (1, 1)]], [[(0, 5), (1, 7)], [(0, -5), (1, -7)]])
    add("1x1 by 1x1", 1, 1, 1, [[(0, 3)]], [[(0, 5)]])
    add("1x1 by row", 1, 1, 3, [[(0, 3)]], [[(2, 5), (0, 7)]])
    add("only the last row", 3, 2, 2, [[], [], [(1, 3)]], [[(0, 2)], [(0, 7), (1, 5)]])
    add("overfull", 1, 1, 1, [[(0, 3), (0, 4)]], [[(0, 5), (0, 6), (0, 7)]])
    r = random.Random(13)
    for k in range(more(8, 60)):
        n, m, q = r.randint(1, 4), r.randint(1, 5), r.randint(1, 5); ka, kb = KINDS[k % 5], KINDS[k // 3 % 5]
        add("%s and %s, arbitrary (%d)" % (ka, kb, k), n, m, q, rrows(r, n, m, ka), rrows(r, m, q, kb))
    for k in range(more(40, 200)):
        n, m, q = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3); ka, kb = KINDS[k % 5], KINDS[k // 5 % 5]
        add("%s and %s, small values (%d)" % (ka, kb, k), n, m, q, rrows(r, n, m, ka, True), rrows(r, m, q, kb, True))
    for n, m, q in ((2, 3, 3), (3, 3, 2)) + more((), ((3, 3, 3), (1, 3, 4), (3, 1, 3), (4, 2, 1))):
        for (da, a), (db, b) in itertools.product(famkinds(n, m), famkinds(m, q)): add("%s %dx%d by %s %dx%d" % (da, n, m, db, m, q), n, m, q, a, b)
    for z in BIG:
        add("inner dimension %d" % z, 2, z, 2, [[(j, j + 1) for j in range(z)], [(z - 1, 2)]], [[(i % 2, i + 2)] for i in range(z)])
        add("result row of %d" % z, 2, 2, z + 1, [[(0, 2), (1, 3)], [(1, 5)]], [[(j, j + 1) for j in range(z)], [(z, 3), (0, 7)]])
        add("%d result rows" % z, z, 2, 2, [[(i % 2, i + 1)] for i in range(z)], [[(0, 2), (1, 3)], [(1, 5)]])
    for c in HUGE:
        z = c + 1
        add("inner dimension %d" % z, 2, z, 2, [[(0, 2), (z - 1, 3)], [(z // 2, 2)]], [[(i % 2, i + 2)] if i in (0, z // 2, z - 1) else [] for i in range(z)])
        add("result row of %d" % z, 2, 2, z, [[(0, 2), (1, 3)], [(1, 5)]], [[(0, 2), (z - 1, 5)], [(z - 1, 3), (0, 7), (z // 2, 1)]])
        add("%d result rows" % z, z, 2, 2, [[(i % 2, i + 1)] if i in (0, z // 2, z - 1) else [] for i in range(z)], [[(0, 2), (1, 3)], [(1, 5)]])
        if z < 5000: add("%d products in one entry" % z, 1, z, 1, [[(j, j % 7 + 1) for j in range(z)]], [[(0, i % 5 - 1)] for i in range(z)])
    if kind == "csr": return [(d, csr(*a), csr(*b)) for d, a, b in P]
    def t(s):
        nr, nc, p, j, x = s
        cols = [[] for _ in range(nc)]
        for i in range(nr):
            for k in range(p[i], p[i + 1]): cols[j[k]].append((i, x[k]))
        if any(len(c) > 2 for c in cols): cols = [c[::-1] for c in cols]
        q = comp(nc, nr, cols)
        return csc(nr, nc, q[3], q[2], q[4])
    if kind == "csc": return [(d, t(a), t(b)) for d, a, b in P]
    if kind == "csccsr": return [(d, t(a), csr(*b)) for d, a, b in P]

# ------------------------------------------------------------------ matrix meaning
class Bad(Exception): pass
def ents(M):
    """entries of a well-formed matrix value, else Bad"""
    need(M)
    if isinstance(M, (CSRv, CSCv)):
        p, j = (M.rowptr, M.colidx) if isinstance(M, CSRv) else (M.colptr, M.rowidx)
        n, w = (M.rows, M.cols) if isinstance(M, CSRv) else (M.cols, M.rows)
        if len(p) != n + 1: raise Bad("pointer array has %d entries for %d slots" % (len(p), n))
        if n >= 0 and p[0] != 0: raise Bad("pointer array starts at %r" % p[0])
        if any(a > b for a, b in zip(p, p[1:])): raise Bad("pointer array decreases: %r" % p)
        if len(j) < p[-1] or len(M.values) < p[-1]: raise Bad("index or value array shorter than the entry count %d (%d, %d)" % (p[-1], len(j), len(M.values)))
        es = []
        for i in range(n):
            for k in range(p[i], p[i + 1]):
                if not 0 <= j[k] < w: raise Bad("index %r outside 0..%d" % (j[k], w))
                es.append((i, j[k], M.values[k]) if isinstance(M, CSRv) else (j[k], i, M.values[k]))
        return es
    if isinstance(M, COOv):
        if not len(M.rowidx) == len(M.colidx) == len(M.values): raise Bad("index and value arrays have lengths %d, %d, %d" % (len(M.rowidx), len(M.colidx), len(M.values)))
        for i, j in zip(M.rowidx, M.colidx):
            if not (0 <= i < M.rows and 0 <= j < M.cols): raise Bad("entry at (%r, %r) outside %rx%r" % (i, j, M.rows, M.cols))
        return list(zip(M.rowidx, M.colidx, M.values))
    if isinstance(M, DOKv): return [(k[0], k[1], v) for k, v in M.values.items()]
    raise Undec("not a matrix")
def sums(es):
    d = {}
    for i, j, v in es: d[i, j] = d.get((i, j), 0) + v
    return d
def nz(d): return {k: v for k, v in d.items() if v != 0}
def bag(es): return sorted(map(repr, es))
def dump(M):
    return repr(M)
def eq_shape(R, rows, cols):
    need(R.rows); need(R.cols)
    if (R.rows, R.cols) != (rows, cols): return "shape is %rx%r, not %rx%r" % (R.rows, R.cols, rows, cols)
def same_bag(R, rows, cols, es, what="result"):
    """same stored entries"""
    e = eq_shape(R, rows, cols)
    if e: return e
    got = ents(R)
    if bag(got) != bag(es): return "%s stores %s, expected %s" % (what, srt(got), srt(es))
def same_sum(R, rows, cols, d, what="result", pattern=None):
    """same value at every coordinate; stored coordinates = pattern"""
    e = eq_shape(R, rows, cols)
    if e: return e
    got = ents(R); g = sums(got)
    if nz(g) != nz(d): return "%s is %s, expected %s" % (what, srt(nz(g)), srt(nz(d)))
    if pattern is not None and set(g) != set(pattern): return "%s stores positions %s, expected %s" % (what, sorted(g), sorted(pattern))
def srt(x):
    try: return str(sorted(x.items() if isinstance(x, dict) else x))[:200]
    except TypeError: return str(x)[:200]
def nodup(R):
    es = ents(R)
    if len({(i, j) for i, j, _ in es}) != len(es): return "result stores a coordinate twice: %s" % srt(es)
def canonical(R):
    p, j = (R.rowptr, R.colidx) if isinstance(R, CSRv) else (R.colptr, R.rowidx)
    need(R); ents(R)
    for i in range(len(p) - 1):
        for k in range(p[i], p[i + 1] - 1):
            if not j[k] < j[k + 1]: return "indices of slot %d are not strictly increasing: %s" % (i, j[p[i]:p[i + 1]])
def exact(R):
    p, j = (R.rowptr, R.colidx) if isinstance(R, CSRv) else (R.colptr, R.rowidx)
    need(R)
    if len(j) != p[-1] or len(R.values) != p[-1]: return "arrays hold %d and %d elements for %d entries" % (len(j), len(R.values), p[-1])
def nozeros(R):
    es = [e for e in ents(R) if e[2] == 0]
    if es: return "explicit zero stored at %s" % [(i, j) for i, j, _ in es][:4]
def dense_of(rows, cols, es):
    d = [[0] * cols for _ in range(rows)]
    for i, j, v in es: d[i][j] = d[i][j] + v
    return d

# ------------------------------------------------------------------ registry
class Spec:
    def __init__(s, label, props, models, check, valid=True, ptr=True, imax=None, which=0, tag="", order=(0,), may="", signed=False, opt=False):
        s.signed, s.opt = signed, opt            # opt: the function need not exist
        s.may = tuple(may.split())
        s.label, s.props, s.models, s.check, s.valid, s.ptr, s.imax, s.which, s.tag, s.order = label, props, models, check, valid, ptr, imax, which, tag, order
SPECS = []
def spec(labels, props, models, check, **k):
    for l in ([labels] if isinstance(labels, str) else labels): SPECS.append(Spec(l, tuple(props.split()), models, check, **k))

def ret_ok(o):
    """value of a Result that must be Ok"""
    r = o.ret
    if isinstance(r, Bot): raise Undec(r.why)
    if isinstance(r, Err): raise Bad("returns an error on valid input")
    return r.v if isinstance(r, Ok) else r
def first(*xs):
    for x in xs:
        if x: return x

def load(m=None):
    """all specs; m: the analysed tree, whose constants size some of the structures"""
    if m is not None and not BIG and not SPECS:
        BIG.extend(sizes(sorted(set(literals(m)) | {int(v) for v in os.environ.get("VERIF_SIZES", "").split(",") if v}))); SHAPES.extend(bigs())
        HUGE.extend(hugesizes(set(literals(m)) | {int(v) for v in os.environ.get("VERIF_SIZES", "").split(",") if v})); SHAPES.extend(huges())
    import specs_methods, specs_kernels, specs_reject, specs_text, specs_graph, specs_eigen
    if m is not None:
        import targets
        idx = targets.index(m); SPECS[:] = [sp for sp in SPECS if not sp.opt or sp.which < len(idx.get(sp.label, []))]
    return SPECS
