"""Graph traversal and component labelling (C13, C14), judged from the edges alone."""
from specs import *
from specs_reject import must_err, nonsq
from itertools import product

def graph(n, edges, slack=0):
    """adjacency matrix; edges in storage order per row; weights of either sign, no two of which cancel"""
    R = [[] for _ in range(n)]
    for k, (i, j) in enumerate(edges): R[i].append((j, (1, 3, -7, 20, 1, -50, 111)[k % 7]))
    return n, edges, csr(*comp(n, n, R, slack))
def fam():
    out = [("no nodes", graph(0, []))]
    for n in (1, 2):
        cells = list(product(range(n), repeat=2))
        for bits in product((0, 1), repeat=len(cells)):
            es = [c for c, b in zip(cells, bits) if b]
            out.append(("%d nodes, edges %s" % (n, es), graph(n, es)))
    cells = [(i, j) for i in range(3) for j in range(3) if i != j]
    for bits in product((0, 1), repeat=6):
        es = [c for c, b in zip(cells, bits) if b]
        out.append(("3 nodes, edges %s" % es, graph(3, es)))
    def add(d, n, es): out.append((d, graph(n, es)))
    add("3 nodes, loops", 3, [(0, 0), (0, 1), (1, 1), (2, 2)])
    add("3 nodes, unsorted with duplicates", 3, [(0, 2), (0, 1), (0, 2), (2, 1), (2, 1), (2, 0)])
    add("4-cycle", 4, [(0, 1), (1, 2), (2, 3), (3, 0)])
    add("diamond", 4, [(0, 1), (0, 2), (1, 3), (2, 3)])
    add("diamond with back edge", 4, [(0, 2), (0, 1), (1, 3), (2, 3), (3, 0)])
    add("diamond reversed", 4, [(3, 1), (3, 2), (2, 0), (1, 0)])
    add("path backwards", 4, [(3, 2), (2, 1), (1, 0)])
    add("star out", 5, [(2, 0), (2, 1), (2, 3), (2, 4)])
    add("star in", 5, [(0, 2), (1, 2), (3, 2), (4, 2)])
    add("deep then shallow", 5, [(0, 1), (0, 4), (1, 2), (2, 3), (3, 4)])
    add("shallow then deep", 5, [(0, 4), (0, 1), (1, 2), (2, 3), (3, 4)])
    add("two branches", 6, [(0, 1), (0, 3), (1, 2), (3, 4), (4, 1), (2, 5)])
    add("two triangles", 6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)])
    add("two triangles, bridged", 6, [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 5), (5, 3)])
    add("interleaved pairs", 6, [(0, 3), (4, 1), (2, 5)])
    add("late joins", 5, [(0, 4), (1, 3), (2, 4), (3, 4)])
    add("mutual pairs", 5, [(0, 1), (1, 0), (2, 3), (3, 2)])
    add("nested cycles", 6, [(0, 1), (1, 2), (2, 1), (2, 3), (3, 0), (3, 4), (4, 5), (5, 4)])
    add("figure eight", 5, [(0, 1), (1, 0), (1, 2), (2, 3), (3, 1), (4, 4)])
    add("six in a row", 6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)])
    add("cross edge", 4, [(0, 1), (0, 2), (2, 1), (1, 3)])
    add("empty 4", 4, [])
    for d, n, es in (("diamond with unused slots", 4, [(1, 2), (1, 3), (2, 0), (3, 0)]), ("two pairs with unused slots", 5, [(1, 2), (2, 1), (3, 4), (4, 3)]), ("no edges but unused slots", 3, [])): out.append((d, graph(n, es, 2)))
    add("complete 4", 4, [(i, j) for i in range(4) for j in range(4) if i != j])
    add("complete 4 with loops", 4, [(i, j) for i in range(4) for j in range(4)])
    add("transitive tournament", 4, [(i, j) for i in range(4) for j in range(i + 1, 4)])
    add("symmetric path", 4, [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)])
    add("only the last node has edges", 4, [(3, 0), (3, 2)])
    add("first node alone", 4, [(1, 2), (2, 3), (3, 1)])
    add("last node alone", 4, [(0, 1), (1, 2), (2, 0)])
    add("all loops", 3, [(0, 0), (1, 1), (2, 2)])
    add("loops first in their rows", 4, [(0, 0), (0, 2), (2, 2), (2, 0), (1, 1), (1, 3)])
    add("bipartite", 6, [(0, 3), (0, 4), (1, 4), (1, 5), (2, 5), (2, 3)])
    add("as many edges as nodes, one source", 4, [(0, 1), (0, 2), (0, 3), (1, 0)])
    for z in BIG:
        add("path of %d" % z, z, [(i, i + 1) for i in range(z - 1)])
        add("cycle of %d" % z, z, [(i, (i + 1) % z) for i in range(z)])
        add("star of %d" % z, z, [(0, i) for i in range(1, z)])
        add("star into the last of %d" % z, z, [(i, z - 1) for i in range(z - 1)])
    for z in [h + 1 for h in HUGE]:
        add("few edges among %d nodes" % z, z, [(0, z - 1), (z - 1, 7), (7, 0), (z // 2, z // 2 + 1), (z // 2 + 1, z - 2)])
        if z < 3000:
            add("path of %d" % z, z, [(i, i + 1) for i in range(z - 1)])
            add("star of %d" % z, z, [(0, i) for i in range(1, z)])
    for z in BIG:
        add("%d and %d nodes, linked" % (z, z // 2), z + z // 2, [(i, i + 1) for i in range(z - 1)] + [(z + i, z + (i + 1) % (z // 2)) for i in range(z // 2)] + [(z - 1, z)])
    return out
FAM = fam()
def cycles():
    """chains of strongly connected blocks with edges back to blocks finished earlier, and arbitrary digraphs"""
    import random
    r = random.Random(5); out = []
    def add(d, n, es): out.append((d, graph(n, es)))
    for blocks in ((3, 2), (2, 3), (2, 2, 2), (3, 3), (2, 1, 2), (1, 3, 1, 2), (4, 2), (2, 4), (3, 1, 3), (5, 2)):
        n = sum(blocks); st = [sum(blocks[:i]) for i in range(len(blocks))]
        base = [(s + i, s + (i + 1) % b) for s, b in zip(st, blocks) if b > 1 for i in range(b)]
        add("blocks %s" % (blocks,), n, base)
        for v in range(2):
            es = list(base)
            for i in range(1, len(blocks)):
                for _ in range(1 + v): es.append((r.randrange(st[i], st[i] + blocks[i]), r.randrange(st[i])))
            if v: r.shuffle(es)
            add("blocks %s with edges back" % (blocks,), n, es)
            add("blocks %s with edges on" % (blocks,), n, [(n - 1 - i, n - 1 - j) for i, j in es])
    for k in range(more(110, 1500)):
        n = r.choice((4, 4, 5, 5, 6, 7)); m = r.randint(n - 1, 2 * n + 1)
        add("%d nodes, arbitrary (%d)" % (n, k), n, [(r.randrange(n), r.randrange(n)) for _ in range(m)])
    return out
CYC = cycles()
def adj(n, es, directed):
    A = [set() for _ in range(n)]
    for i, j in es:
        A[i].add(j)
        if not directed: A[j].add(i)
    return A
def reach(A, s):
    seen = {s}; st = [s]
    while st:
        for w in A[st.pop()]:
            if w not in seen: seen.add(w); st.append(w)
    return seen

# ---------------------------------------------------------------- depth-first order
def dfsm():
    for d, (n, es, g) in FAM:
        for s in range(n) if n < 8 else (0, n // 2, n - 1):
            if n == 3 and len(es) in (3,) and s == 2: continue
            for dirn in (True, False):
                yield "%s, from %d, %sdirected" % (d, s, "" if dirn else "un"), (g, s, dirn, Meta(n, es))
class Meta(Hidden):
    def __init__(s, n, es): s.n, s.es = n, es
def dfs(o, g, s, dirn, meta):
    n, A = meta.n, adj(meta.n, meta.es, dirn)
    L, P = need(ret_ok(o))
    P = [p.v if isinstance(p, Some) else None for p in P]
    if not L or L[0] != s: return [(None, "ordering %s does not begin with the start node" % (L,))]
    if len(set(L)) != len(L): return [(None, "ordering %s lists a node twice" % (L,))]
    if len(P) != n: return [(None, "%d predecessors for %d nodes" % (len(P), n))]
    if any(not 0 <= v < n for v in L): return [(None, "ordering %s lists a node that does not exist" % (L,))]
    for v in range(n):
        if (v == s or v not in L) and P[v] is not None: return [(None, "node %d has predecessor %s but is %s" % (v, P[v], "the start" if v == s else "not listed"))]
    for k, v in enumerate(L[1:], 1):
        if P[v] not in L[:k]: return [(None, "predecessor %s of node %d is not listed before it in %s" % (P[v], v, L))]
        if v not in A[P[v]]: return [(None, "no edge joins node %d to its predecessor %d" % (v, P[v]))]
    st = [s]; seen = {s}
    for v in L[1:]:
        while st and st[-1] != P[v]:
            if A[st[-1]] - seen: return [(None, "ordering %s leaves node %d while %s is unvisited" % (L, st[-1], sorted(A[st[-1]] - seen)))]
            st.pop()
        if not st: return [(None, "ordering %s returns to node %s after leaving it" % (L, P[v]))]
        st.append(v); seen.add(v)
    if set(L) != reach(A, s): return [(None, "lists %s, reachable are %s" % (sorted(L), sorted(reach(A, s))))]
    return [(None, None)]
spec("depth_first_order", "C13", dfsm, dfs)
def badstart():
    for d, (n, es, g) in FAM:
        if n in (0, 1, 2, 5):
            for s in (n, n + 1, n + 7):
                for dirn in (True, False): yield "%s, start %d" % (d, s), (g, s, dirn)
spec("depth_first_order", "C06", badstart, must_err, tag="start outside", valid=False)
spec("depth_first_order", "C06", lambda: [("%s, %sdirected" % (d, "" if b else "un"), a + (0, b)) for d, a in nonsq() for b in (True, False)], must_err, tag="non-square graph", valid=False)

# ---------------------------------------------------------------- components
def ccm():
    for d, (n, es, g) in FAM:
        for dirn in (True, False):
            for c in ("Weak", "Strong"):
                yield "%s, %sdirected, %s" % (d, "" if dirn else "un", c), (g, dirn, Variant("Connection", c), Meta(n, es))
def cc(o, g, dirn, conn, meta):
    n, es = meta.n, meta.es
    k, L = need(ret_ok(o))
    if len(L) != n: return [(None, "%d labels for %d nodes" % (len(L), n))]
    strong = dirn and conn.name == "Strong"
    if strong:
        W = adj(n, es, False); W = [reach(W, v) for v in range(n)]
        asweak = all((L[i] == L[j]) == (j in W[i]) for i in range(n) for j in range(i))
        tag = "C14 C22" if asweak else "C22"
    else: tag = "C14"
    A = adj(n, es, strong); R = [reach(A, v) for v in range(n)]
    for i in range(n):
        for j in range(i):
            same = j in R[i] and i in R[j]
            if (L[i] == L[j]) != same:
                return [(tag, "nodes %d and %d %s a label but are %sconnected (labels %s)" % (j, i, "share" if L[i] == L[j] else "do not share", "" if same else "not ", L))]
    if k != len(set(L)): return [(tag, "returns %s components for labels %s" % (k, L))]
    if any(not 0 <= l < k for l in L): return [(tag, "labels %s outside 0..%s" % (L, k))]
    return [(None, None)]
spec("connected_components", "C14 C22", ccm, cc)
spec("connected_components", "C14 C22", lambda: [(d, (g, True, Variant("Connection", "Strong"), Meta(n, es))) for d, (n, es, g) in CYC], cc)
spec("connected_components", "C14", lambda: [("%s, %sdirected" % (d, "" if b else "un"), (g, b, Variant("Connection", "Weak"), Meta(n, es))) for k, (d, (n, es, g)) in enumerate(CYC) if k % 3 == 0 for b in (True, False)], cc)
spec("connected_components", "C14", lambda: [("%s, %sdirected, Weak" % (d, "" if k % 2 else "un"), (g, k % 2 == 1, Variant("Connection", "Weak"), Meta(n, es))) for k, (d, (n, es, g)) in enumerate(FOR)], cc)
spec("depth_first_order", "C13", lambda: [("%s, from %d, %sdirected" % (d, k % n, "" if k % 4 < 2 else "un"), (g, k % n, k % 4 < 2, Meta(n, es))) for k, (d, (n, es, g)) in enumerate(CYC)], dfs)
spec("connected_components", "C06", lambda: [("%s, %sdirected, %s" % (d, "" if b else "un", c), a + (b, Variant("Connection", c))) for d, a in nonsq() for b in (True, False) for c in ("Weak", "Strong")], must_err, tag="non-square graph", valid=False)

def forests():
    """several components of different shapes, numbered in and out of order"""
    import random
    r = random.Random(23); out = []
    def add(d, n, es): out.append((d, graph(n, es)))
    def path(*v): return list(zip(v, v[1:]))
    add("two paths", 8, path(0, 1, 2, 3) + path(4, 5, 6, 7))
    add("two paths interleaved", 8, path(0, 2, 4, 6) + path(1, 3, 5, 7))
    add("two paths backwards", 8, path(3, 2, 1, 0) + path(7, 6, 5, 4))
    add("three paths, a lone node between", 10, path(0, 1, 2) + path(4, 5, 6) + path(7, 8, 9))
    add("star and path", 8, [(0, 1), (0, 2), (0, 3)] + path(4, 5, 6, 7))
    add("path and star", 8, path(0, 1, 2, 3) + [(4, 5), (4, 6), (4, 7)])
    add("pair, triple, quadruple", 9, path(0, 1) + path(2, 3, 4) + path(5, 6, 7, 8))
    add("path entered in the middle", 7, path(3, 1, 0, 2, 4) + path(5, 6))
    add("broom", 7, path(0, 1, 2, 3) + [(3, 4), (3, 5), (3, 6)])
    add("broom backwards", 7, [(0, 3), (1, 3), (2, 3)] + path(3, 4, 5, 6))
    for k in range(more(24, 200)):
        n = r.randint(4, 9); es = []
        for v in range(1, n):
            if r.random() < .7: es.append((r.randrange(max(0, v - 3), v), v))
        q = list(range(n)); r.shuffle(q)
        if k % 2: es = [(q[i], q[j]) for i, j in es]
        if k % 3 == 0 and es: es.append((r.randrange(n), r.randrange(n)))
        es = list(dict.fromkeys(es)); r.shuffle(es)
        add("%d nodes, arbitrary forest (%d)" % (n, k), n, es)
    return out
FOR = forests()
def symm():
    seen = set()
    for d, (n, es, g) in FAM + FOR:
        for rev in (False, True):
            s = []
            for i, j in es:
                for e in ((i, j), (j, i)):
                    if e not in s: s.append(e)
            if rev: s = s[::-1]
            if (n, tuple(s)) in seen: continue
            seen.add((n, tuple(s)))
            yield "%d nodes, symmetric edges %s" % (n, s), (graph(n, s)[2], Meta(n, s))
def flags(k, L, meta):
    n, es = meta.n, meta.es
    if len(L) != n: return [(None, "%d labels for %d nodes" % (len(L), n))]
    A = adj(n, es, False); iso = [not A[v] for v in range(n)]
    for v in range(n):
        if iso[v] != (L[v] < 0): return [(None, "node %d is %sisolated but labelled %s" % (v, "" if iso[v] else "not ", L[v]))]
    for i in range(n):
        for j in range(i):
            if iso[i] or iso[j]: continue
            if (L[i] == L[j]) != (j in reach(A, i)): return [(None, "labels %s do not separate the components of edges %s" % (L, es))]
    used = {l for l in L if l >= 0}
    if used != set(range(len(used))): return [(None, "labels %s are not numbered from zero" % L)]
    if k != len(used): return [(None, "returns %s components for labels %s" % (k, L))]
    return [(None, None)]
spec("CSR::connected_components", "C14", symm, lambda o, g, meta: flags(*need(ret_ok(o)), meta))
spec("cs_graph_components", "C14", lambda: [("%s, labels %s" % (d, f), (meta.n, g.rowptr, g.colidx, f, meta)) for d, (g, meta) in symm() for f in ([0] * meta.n, [3] * meta.n, [-1] * meta.n) if meta.n < 4 or f[0] == 3],
     lambda o, n, p, j, f, meta: flags(need(ret_ok(o)), need(o.out(3)), meta))
