"""C21: text renderings."""
import re
from specs import *
from specs_methods import CS, CC, CO, DK, one, CV

def num(v):
    if isinstance(v, G): return str(v)
    return str(v)
def text(v):
    """a string value as one text; displayed values appear as ‹v›"""
    if isinstance(v, str): return v
    if isinstance(v, Agg) and v[0] not in ("disp", "pretty"): raise Undec("text of %r" % (v,))
    if isinstance(v, Enum): raise Undec("text of %r" % v)
    if isinstance(v, Agg):
        if v[0] in ("disp", "pretty"): return text(v[2]) if isinstance(v[2], list) else num(v[2])
        raise Undec("text of %r" % (v,))
    if isinstance(v, list): return "".join(text(x) for x in v)
    if isinstance(v, bytes): return v.decode()
    if isinstance(v, (int, F, G)): return num(v)
    raise Undec("text of %r" % (v,))
NUM = re.compile(r"-?\d+(?:/\d+)?")
def rows_text(o):
    r = o.ret
    if isinstance(r, Bot): raise Undec(r.why)
    return text(r)
def listing(o, a):
    t = rows_text(o); es = ents(a)
    ls = t.split("\n")
    while ls and ls[-1] == "": ls.pop()
    got = []
    for l in ls:
        n = NUM.findall(l)
        if len(n) != 3: return [(None, "line %r does not give row, column and value" % l)]
        got.append(tuple(int(x) for x in n))
    if sorted(got) != sorted((i, j, int(v)) for i, j, v in es): return [(None, "lists %s, stored are %s" % (sorted(got), srt(es)))]
    if not isinstance(a, DOKv) and got != [(i, j, int(v)) for i, j, v in es]: return [(None, "lists entries in the order %s, stored order is %s" % (got, es))]
    return [(None, None)]
spec("Coo::to_string", "C21", one(CO), listing)
spec("CSR::to_string", "C21", one(CS), listing)
spec("CSC::to_string", "C21", one(CC), listing)
spec("DoK::to_string", "C21", one(DK), listing, order=(0, 1))
def cells(t, rows, cols):
    ls = t.split("\n")
    while ls and ls[-1].strip() == "": ls.pop()
    return [[c for c in re.split(r"[\t ]+", l) if c] for l in ls]
def table(rows, cols, es, t):
    d = {(i, j): v for i, j, v in es}
    want = [[num(d[i, j]) if (i, j) in d else "-" for j in range(cols)] for i in range(rows)] if cols else []
    got = cells(t, rows, cols)
    return None if got == want else "table is %s, expected %s" % (got, want)
ND = lambda s: all(len(set(s[3][s[2][i]:s[2][i + 1]])) == s[2][i + 1] - s[2][i] for i in range(s[0]))
spec("CSR::to_table", "C21", one(csrs(ND)), lambda o, a: [(None, table(a.rows, a.cols, ents(a), rows_text(o)))])
def tabc(o, nr, nc, p, j, x, label, w, cfg):
    t = rows_text(o)
    es = ents(csr(nr, nc, p, j, x))
    if not label: return [(None, table(nr, nc, es, t))]
    d = {(i, k): v for i, k, v in es}
    want = [[str(k) for k in range(nc)]] + [[str(i)] + [num(d[i, k]) if (i, k) in d else "-" for k in range(nc)] for i in range(nr)]
    got = cells(t, nr, nc)
    if nc == 0: return [(None, None)]
    return [(None, None if got == want else "labelled table is %s, expected %s" % (got, want))]
spec("csr_table", "C21", lambda: [(d + (", labelled" if l else ""), s + (l, [], None)) for d, s in SHAPES if ND(s) for l in (False, True)], tabc)
def cpx(o, v, c):
    t = text(need(o.ret)); v = G._c(v)
    w = num(v.re) + ("-" if v.im < 0 else "+") + "j" + num(abs(v.im))
    return [(None, None if t == w else "prints %s for real part %s and imaginary part %s" % (t, v.re, v.im))]
for w in (0, 1):
    spec("C::pretty_string", "C21", lambda: [("value %s" % v, (v, None)) for v in CV], cpx, which=w)
spec(["f64::pretty_string", "f32::pretty_string", "pretty_string"], "C21", lambda: [("value %s" % v, (v, None)) for v in (0, 3, -7, 12)], lambda o, v, c: [(None, None if text(need(o.ret)) == num(v) else "prints %s for %s" % (text(o.ret), v))])
