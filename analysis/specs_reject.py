"""Arguments that must be rejected (C06, C11) and degenerate inputs (C17)."""
from specs import *
from specs_methods import BL, mkc, tocsr_, tocsc_

def rejected(o, *a):
    """a Result-returning function answers Err; others may panic"""
    if o.panic is not None:
        return []
    r = o.ret
    if isinstance(r, Err): return []
    if o.evunk is not None: raise Undec("rejection: %s" % (o.evunk[1],))
    if isinstance(r, Bot):
        if r.why == "diverges": return []
        raise Undec(r.why)
    return [(None, "accepts arguments it must reject")]
def must_err(o, *a):
    """must be an error, not a panic"""
    if o.panic is not None: return [(None, "%s instead of returning an error (%s)" % (o.panic.kind, o.panic.loc))]
    return rejected(o, *a)

MIS = [(d, comp(*a), comp(*b)) for d, a, b in [
    ("2x3 with 3x2", (2, 3, [[(0, 2)], [(1, 3)]]), (3, 2, [[(0, 5)], [(1, 7)], []])),
    ("2x3 with 2x2", (2, 3, [[(0, 2)], [(1, 3)]]), (2, 2, [[(0, 5)], [(1, 7)]])),
    ("2x2 with 2x3", (2, 2, [[(0, 2)], [(1, 3)]]), (2, 3, [[(0, 5)], [(1, 7)]])),
    ("3x2 with 2x2", (3, 2, [[(0, 2)], [(1, 3)], []]), (2, 2, [[(0, 5)], [(1, 7)]])),
    ("2x2 with 3x2", (2, 2, [[(0, 2)], [(1, 3)]]), (3, 2, [[(0, 5)], [(1, 7)], []])),
    ("empty 2x3 with empty 2x4", (2, 3, [[], []]), (2, 4, [[], []])),
    ("empty 2x3 with empty 3x3", (2, 3, [[], []]), (3, 3, [[], [], []])),
    ("0x0 with 1x1", (0, 0, []), (1, 1, [[]])), ("1x1 with 0x0", (1, 1, [[]]), (0, 0, [])),
    ("0x2 with 0x3", (0, 2, []), (0, 3, [])),
]]
# every mismatch among small shapes, operands with and without entries
SHP = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1)]
def filled(r, c, f): return comp(r, c, [([(0, 2 + i), (c - 1, -3)][:c] if f else []) for i in range(r)])
def fills(*shapes):
    """choices of which operands hold entries (those of no area never do)"""
    for m in range((1 << len(shapes)) - 1, -1, -1):
        if all(r * c or not m >> k & 1 for k, (r, c) in enumerate(shapes)): yield m
MIS += [("%dx%d%s with %dx%d%s" % (a + ("" if m & 1 else " empty",) + b + ("" if m & 2 else " empty",)), filled(*a, m & 1), filled(*b, m & 2)) for a in SHP for b in SHP if a != b for m in fills(a, b)]
def shp(kind, f=lambda a, b: True):
    def g():
        for d, a, b in MIS:
            if not f(a, b): continue
            if kind == "csr": yield d, (csr(*a), csr(*b))
            elif kind == "csc": yield d, (csc(a[0], a[1], *_c(a)), csc(b[0], b[1], *_c(b)))
            elif kind == "csccsr": yield d, (csc(a[0], a[1], *_c(a)), csr(*b))
            elif kind == "coo": yield d, (_o(a), _o(b))
    return g
def _c(s):
    nr, nc, p, j, x = s
    cols = [[] for _ in range(nc)]
    for i in range(nr):
        for k in range(p[i], p[i + 1]): cols[j[k]].append((i, x[k]))
    q = comp(nc, nr, cols)
    return q[3], q[2], q[4]
def _o(s): return coo(s[0], s[1], [r for r in range(s[0]) for _ in range(s[2][r], s[2][r + 1])], s[3], s[4])
REFS = [(x, y) for x in ("", "&") for y in ("", "&")]
R = dict(valid=False)
for t in ("CSR", "CSC"):
    for op in ("Add", "Sub"):
        spec(["%s<%s%s,%s%s>" % (op, x, t, y, t) for x, y in REFS], "C06", shp(t.lower()), rejected, tag="mismatched shapes", **R)
    spec(["Mul<%s%s,%s%s>" % (x, t, y, t) for x, y in REFS], "C06", shp(t.lower(), lambda a, b: a[1] != b[0]), rejected, tag="mismatched shapes", **R)
    spec("%s::mat_mat" % t, "C06", shp(t.lower(), lambda a, b: a[1] != b[0]), must_err, tag="mismatched shapes", **R)
spec(["Mul<%sCSC,%sCSR>" % xy for xy in REFS], "C06", shp("csccsr", lambda a, b: a[1] != b[0]), rejected, tag="mismatched shapes", **R)
spec(["Add<%sCoo,%sCoo>" % xy for xy in REFS], "C06", shp("coo"), rejected, tag="mismatched shapes", **R)
spec(["CSC::add", "CSC::subtract"], "C06", shp("csc"), must_err, tag="mismatched shapes", **R)
def badvec(kind):
    def g():
        for d, s in SHAPES:
            a = csr(*s) if kind == "csr" else csc(s[1], s[0], s[3], s[2], s[4])
            for n in sorted({a.cols + 1, a.cols - 1, a.cols + 3, a.rows, 0, 1, 2 * a.cols, a.rows + a.cols, len(s[3]), a.cols + 17}):
                if n >= 0 and n != a.cols:
                    yield "%s, vector of length %d" % (d, n), (a, [2] * n)
                    if n and n < 9: yield "%s, zero vector of length %d" % (d, n), (a, [0] * n)
    return g
for t in ("CSR", "CSC"):
    spec("%s::mat_vec" % t, "C06", badvec(t.lower()), must_err, tag="wrong vector length", **R)
    spec(["Mul<%s%s,%s>" % (x, t, y) for x in ("", "&") for y in ("&[T]", "&&[T]", "&Vec", "&&Vec")], "C06", badvec(t.lower()), rejected, tag="wrong vector length", **R)
# ---- selection
def longsel(r, c):
    """a bad index at every place of lists of up to four, repeated, beside a good or a bad list of the other kind, and behind many good ones"""
    out = []
    for n in (2, 3, 4):
        for at in range(n):
            for bad in (0, 3):
                if r: out.append(([min(k, r - 1) if k != at else r + bad for k in range(n)], None)); out.append(([0 if k != at else r + bad for k in range(n)], []))
                if c: out.append((None, [min(k, c - 1) if k != at else c + bad for k in range(n)])); out.append(([], [c - 1 if k != at else c + bad for k in range(n)]))
    if r: out += [([k % r for k in range(3 * r + 2)] + [r], None), ([r, r], None), (list(range(r + 1)), None), (list(range(r, -1, -1)), None), ([r - 1] * (r + c) + [r + 1], None)]
    if c: out += [(None, [k % c for k in range(3 * c + 2)] + [c]), (None, [c, c]), (None, list(range(c + 1))), (None, list(range(c, -1, -1))), (None, [c - 1] * (r + c) + [c + 1])]
    if r and c: out += [([r], [c]), ([0, r], [c, 0]), ([0], [c]), (list(range(r)), list(range(c + 1))), (list(range(r + 1)), list(range(c)))]
    return out
def badsel(kind):
    def g():
        for d, s in SHAPES:
            if not is_canon(s): continue
            a = csr(*s) if kind == "csr" else csc(s[1], s[0], s[3], s[2], s[4])
            r, c = a.rows, a.cols
            for ri, ci in [([r], None), ([r + 2], None), ([0, r], None), ([r, 0], None), (None, [c]), (None, [c + 3]), (None, [0, c]), ([0], [c]), ([r], [0]), ([], [c]), ([r], [])] + longsel(r, c):
                if ri and any(k < r for k in ri) and r == 0 or ci and any(k < c for k in ci) and c == 0: continue
                yield "%s, rows %s cols %s" % (d, ri, ci), (a, Some(v=ri) if ri is not None else None, Some(v=ci) if ci is not None else None)
    return g
for t in ("CSR", "CSC"): spec("%s::select" % t, "C06", badsel(t.lower()), must_err, tag="index outside", **R)
def negsel(kind):
    def g():
        for d, s in SHAPES:
            if not is_canon(s): continue
            a = csr(*s) if kind == "csr" else csc(s[1], s[0], s[3], s[2], s[4])
            for ri, ci in [([-1], None), ([0, -1], None), (None, [-1]), ([], [-2]), ([-a.rows], []), (None, [-a.cols - 1])]:
                if any(k >= n for l, n in ((ri, a.rows), (ci, a.cols)) if l for k in l): continue
                if not any(k < 0 for l in (ri, ci) if l for k in l): continue
                yield "%s, rows %s cols %s" % (d, ri, ci), (a, Some(v=ri) if ri is not None else None, Some(v=ci) if ci is not None else None)
    return g
for t in ("CSR", "CSC"): spec("%s::select" % t, "C06", negsel(t.lower()), must_err, tag="negative index", signed=True, **R)
# ---- stacking
def badstack(vert, n):
    sh = ([[(2, 3), (1, 1), (3, 3)], [(2, 2), (3, 3), (2, 2)], [(2, 3), (2, 2), (2, 3)], [(0, 3), (2, 1), (0, 3)], [(3, 1), (1, 3), (3, 1)], [(1, 2), (1, 1), (1, 2)]] if vert
          else [[(2, 3), (1, 3), (2, 1)], [(2, 2), (3, 2), (2, 2)], [(2, 3), (3, 3), (2, 2)], [(0, 3), (2, 0), (0, 3)], [(3, 1), (1, 3), (3, 1)], [(2, 1), (1, 1), (2, 1)]])
    out = [(s[0], s[1]) for s in sh] if n == 2 else [tuple(s) for s in sh] + [(s[0], s[2], s[1]) for s in sh] + [(s[1], s[0], s[2]) for s in sh]
    dim = 1 if vert else 0
    return [s for s in out if len({k[dim] for k in s}) > 1]
def fillb(b, f): return mkc(b[0], b[1], [(i, j % b[1], 2 + i - 5 * j) for i in range(b[0]) for j in (0, b[1] - 1)] if f and b[1] else [])
def badany(vert, n, conv=lambda b: b):
    """every mismatch among small shapes, in every place, blocks with and without entries"""
    dim = 1 if vert else 0
    for a in SHP:
        for b in SHP:
            if a[dim] == b[dim]: continue
            for at in range(n):
                s = [a] * n; s[at] = b
                for m in fills(*s) if n == 2 else {0, (1 << n) - 1, 1 << at, ((1 << n) - 1) ^ (1 << at)}:
                    yield "blocks %s, filled %s" % (s, bin(m)), tuple(conv(fillb(k, m >> i & 1)) for i, k in enumerate(s))
for v, nm in ((True, "v"), (False, "h")):
    for n in (2, 3): spec("Coo::%s_stack%s" % (nm, "" if n == 2 else 3), "C06", lambda v=v, n=n: badany(v, n), must_err, tag="mismatched blocks, every shape", **R)
    spec("Coo::%s_stack" % nm, "C06", lambda v=v: [("blocks %s" % (s,), tuple(BL[k] for k in s)) for s in badstack(v, 2)], must_err, tag="mismatched blocks", **R)
    spec("Coo::%s_stack3" % nm, "C06", lambda v=v: [("blocks %s" % (s,), tuple(BL[k] for k in s)) for s in badstack(v, 3)], must_err, tag="mismatched blocks", **R)
spec("CSR::h_stack", "C06", lambda: [("blocks %s" % (s,), tuple(tocsr_(BL[k]) for k in s)) for s in badstack(False, 2)], must_err, tag="mismatched blocks", **R)
spec("CSR::h_stack", "C06", lambda: badany(False, 2, tocsr_), must_err, tag="mismatched blocks, every shape", **R)
def badgrids(n):
    """grids with one block of another shape, or one whose widths differ only in one line; blocks with and without entries"""
    for hs, ws in ([(1, 2, 3)[:n], (2, 1, 3)[:n]], [(2, 2, 2)[:n], (2, 2, 2)[:n]], [(0, 2, 1)[:n], (1, 0, 2)[:n]]):
        for i in range(n):
            for j in range(n):
                for alt in SHP:
                    g = [[(h, w) for w in ws] for h in hs]; g[i][j] = alt
                    if not badgrid(g): continue
                    for name, f in (("full", lambda a, b: 1), ("empty", lambda a, b: 0), ("only it empty", lambda a, b: (a, b) != (i, j)), ("only it full", lambda a, b: (a, b) == (i, j))):
                        yield "grid %s, %s" % (g, name), [[fillb(k, f(a, b)) for b, k in enumerate(r)] for a, r in enumerate(g)]
spec("Coo::compose", "C06", lambda: [(d, (g,)) for d, g in badgrids(2)], must_err, tag="one block of another shape", **R)
spec("Coo::compose3", "C06", lambda: [(d, (g,)) for d, g in badgrids(3)], must_err, tag="one block of another shape", **R)
spec("CSC::compose", "C06", lambda: [(d, tuple(tocsc_(b) for r in g for b in r)) for d, g in badgrids(2)], must_err, tag="one block of another shape", **R)
BG = [[[(2, 3), (1, 1)], [(1, 3), (1, 1)]], [[(2, 3), (2, 1)], [(1, 3), (2, 1)]], [[(2, 3), (2, 1)], [(1, 1), (1, 3)]], [[(2, 2), (2, 3)], [(3, 3), (3, 2)]], [[(2, 2), (2, 2)], [(2, 1), (2, 2)]], [[(2, 2), (2, 2)], [(2, 2), (2, 1)]], [[(2, 2), (2, 1)], [(2, 2), (2, 2)]], [[(3, 2), (2, 2)], [(2, 2), (2, 2)]], [[(2, 2), (3, 2)], [(2, 2), (2, 2)]]]
BG3 = []
base = [[(1, 1), (1, 2), (1, 3)], [(2, 1), (2, 2), (2, 3)], [(3, 1), (3, 2), (3, 3)]]
for i in range(3):
    for j in range(3):
        for alt in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 1)):
            if alt[0] != base[i][j][0] or alt[1] != base[i][j][1]:
                g = [list(r) for r in base]; g[i][j] = alt; BG3.append(g)
def badgrid(g):
    rs = [len({s[0] for s in r}) > 1 for r in g]; ws = {sum(s[1] for s in r) for r in g}
    return any(rs) or len(ws) > 1
spec("Coo::compose", "C06", lambda: [("grid %s" % g, ([[BL[s] for s in r] for r in g],)) for g in BG if badgrid(g)], must_err, tag="mismatched blocks", **R)
spec("Coo::compose3", "C06", lambda: [("grid %s" % g, ([[BL[s] for s in r] for r in g],)) for g in BG3 if badgrid(g)], must_err, tag="mismatched blocks", **R)
spec("CSC::compose", "C06", lambda: [("grid %s" % g, tuple(tocsc_(BL[s]) for r in g for s in r)) for g in BG if badgrid(g)], must_err, tag="mismatched blocks", **R)
# ---- dictionary
def outpos(*extra):
    def g():
        for r, c in [(2, 3), (3, 1), (1, 1), (0, 0), (0, 2)]:
            for i, j in [(r, 0), (0, c), (r, c), (r + 2, 0), (0, c + 5)] + ([(c, r - 1)] if c > r > 0 else []):
                for e in extra: yield "%dx%d at (%d, %d) value %s" % (r, c, i, j, e[0] if e else ""), (dok(r, c, {}), i, j) + e
    return g
spec(["DoK::set", "DoK::add", "DoK::sub"], "C06 C10", outpos((3,), (0,)), must_err, tag="position outside", **R)
def negpos(*extra):
    def g():
        for r, c in [(2, 3), (1, 1), (0, 2)]:
            for i, j in [(-1, 0), (0, -1), (-1, -1), (-3, c - 1), (r - 1, -2)]:
                for e in extra: yield "%dx%d at (%d, %d) value %s" % (r, c, i, j, e[0]), (dok(r, c, {}), i, j) + e
    return g
spec(["DoK::set", "DoK::add", "DoK::sub"], "C06 C10", negpos((3,), (0,)), must_err, tag="negative position", signed=True, **R)
# ---- graphs
def nonsq():
    for r, c, p, j in [(2, 3, [0, 1, 2], [2, 0]), (3, 2, [0, 1, 1, 2], [1, 0]), (1, 2, [0, 1], [1]), (2, 1, [0, 0, 0], []), (0, 1, [0], []), (1, 0, [0, 0], [])]:
        yield "%dx%d matrix" % (r, c), (csr(r, c, p, j, [1] * len(j)),)
spec("CSR::connected_components", "C06", nonsq, must_err, tag="non-square graph", **R)

# ---------------------------------------------------------------- C11 constructors
def badctor(kind):
    def g():
        for r, c in [(2, 3), (3, 2), (1, 1), (0, 0), (2, 2), (0, 3), (3, 0)]:
            n = c if kind == "csc" else r
            if kind == "coo":
                for a, b, x in [(1, 2, 2), (2, 1, 2), (2, 2, 1), (3, 3, 2), (0, 0, 1), (0, 1, 0), (1, 0, 0), (2, 3, 3), (3, 2, 3), (1, 0, 1)]:
                    yield "%dx%d from %d row indices, %d column indices, %d values" % (r, c, a, b, x), (r, c, [0] * a, [0] * b, [1] * x)
            else:
                for pl, last, a, x in [(n, 0, 0, 0), (n + 2, 0, 0, 0), (n + 1, 2, 1, 2), (n + 1, 2, 2, 1), (n + 1, 1, 0, 1), (n + 1, 1, 1, 0), (n + 1, 2, 1, 1), (n + 1, 3, 4, 2), (n + 1, 3, 2, 5), (n, 1, 1, 1), (0, 0, 0, 0), (n + 3, 2, 2, 2), ((r if kind == "csc" else c) + 1, 1, 1, 1)]:
                    if pl < 0 or (pl == n + 1 and (n == 0 or (a >= last and x >= last))): continue
                    p, i = ([0] * pl)[:-1] + [last] * (pl > 0), [0] * a
                    yield "%dx%d from %d pointers ending at %d, %d indices, %d values" % (r, c, pl, last, a, x), (r, c, i, p, [1] * x) if kind == "csc" else (r, c, p, i, [1] * x)
    return g
spec("CSR::new", "C11", badctor("csr"), must_err, tag="inconsistent arrays", **R)
spec("CSC::new", "C11", badctor("csc"), must_err, tag="inconsistent arrays", **R)
spec("Coo::new", "C11", badctor("coo"), must_err, tag="inconsistent arrays", **R)
def badext():
    for base in (mkc(2, 3, []), mkc(2, 3, [(0, 1, 5)])):
        for a, b, x in [(1, 2, 2), (2, 1, 2), (2, 2, 1), (0, 0, 1), (1, 0, 0), (0, 1, 0), (2, 3, 3)]:
            yield "%d entries extended by %d, %d, %d" % (len(base.values), a, b, x), (base, [0] * a, [0] * b, [1] * x)
spec("Coo::extend", "C11", badext, rejected, tag="unequal lengths", **R)
