"""The eigenvalue session (C15) and how its results are unpacked (C23), under the solver's documented protocol."""
from specs import *
from specs_reject import must_err, nonsq
import native

class Env(Hidden):
    def __init__(s, session): s.session = session; s.env = {"#session": session, "#nat0": native.nat0()}
def square(n, seed):
    """n x n matrix with an empty column, duplicates and unsorted rows"""
    cols = [[] for _ in range(n)]
    for j in range(n):
        if j == seed % n and n > 3: continue
        for k in range(1 + (j + seed) % 3):
            cols[j].append(((j * 2 + k * 3 + seed) % n, 1 + (j + 2 * k) % 5))
    p, i, x = [0], [], []
    for c in cols:
        for r, v in c: i.append(r); x.append(v)
        p.append(len(i))
    A = [[0] * n for _ in range(n)]
    for j in range(n):
        for r, v in cols[j]: A[r][j] += v
    return csc(n, n, i, p, x), A
SIZES = [(3, 1), (4, 1), (4, 2), (5, 2), (5, 3), (6, 4), (7, 1), (8, 3)]
if THOROUGH: SIZES = sorted(set(SIZES) | {(n, v) for n in range(3, 10) for v in range(1, n - 1)})
TALKS = [("initial request", [(-1, 0, 1), (1, 1, 2), (1, 2, 0)]), ("ordinary requests", [(1, 0, 1), (1, 1, 2), (1, 0, 2), (1, 2, 1)]), ("one request", [(1, 1, 0)]), ("no request", []), ("initial request repeated", [(-1, 2, 1), (-1, 0, 2), (1, 1, 0)])]
def cols(n, k): return [[100 * (j + 1) + i for i in range(n)] for j in range(k)]
def pairs_(nev):
    """imaginary parts the solver may report"""
    yield "real", [0] * (nev + 1)
    if nev >= 2: yield "pair first", [3, -3] + [0] * (nev - 1)
    if nev >= 3: yield "pair second", [0, 5, -5] + [0] * (nev - 2)
    if nev >= 4: yield "two pairs", [3, -3, 7, -7] + [0] * (nev - 3)
    if nev >= 2: yield "pair with tiny imaginary parts", [F(1, 10 ** 15), -F(1, 10 ** 15)] + [0] * (nev - 1)
    yield "pair split at the end", [0] * (nev - 1) + [5, -5]
    yield "conjugate cut off", [0] * nev + [5]
def sessions():
    for n, nev in SIZES:
        a, A = square(n, nev)
        for d, talk in TALKS:
            yield "order %d, %d values, %s" % (n, nev, d), (a, nev, Env(native.Session(A, talk, nev, list(range(2, nev + 3)), [0] * (nev + 1), cols(n, nev + 1))))
    for n, nev, k in [(3, 1, 47), (4, 2, 61)]:         # longer than any bound derived from the order, the subspace or the iteration limit
        a, A = square(n, nev)
        yield "order %d, %d values, %d requests" % (n, nev, k), (a, nev, Env(native.Session(A, [(1, i % 3, (i + 1 + i // 3 % 2) % 3) for i in range(k)], nev, list(range(2, nev + 3)), [0] * (nev + 1), cols(n, nev + 1))))
    for n, nev in [(0, 0), (1, 0), (1, 1), (2, 1), (3, 2), (3, 3), (4, 3), (5, 9)]:
        a, A = square(n, 1) if n else (csc(0, 0, [], [0], []), [])
        yield "order %d, %d values" % (n, nev), (a, nev, Env(native.Session(A, [(1, 0, 1)], nev, [2] * (nev + 1), [0] * (nev + 1), cols(n, nev + 1))))
def talkc(o, a, nev, env):
    s = o.s.st.get(native.NAT)
    v = o.val(s); need(v); need(o.ret)
    if v[4]: return [(None, v[4][0])]
    if isinstance(o.ret, Err):
        if not 0 < nev < a.rows - 1 and v[1] == 0: return [(None, None)]
        return [(None, "fails on a computation the solver completes")]
    if v[5] is not True and v[5] != "end": return [(None, "answers before the solver has finished (%d calls)" % v[1])]
    h = need(o.val(o.s.st.get(native.HELD)))
    if h: return [(None, "the lock is still held on return")]
    return [(None, None)]
spec("eigs", "C15", sessions, talkc, tag="session")
def unpack():
    for n, nev in SIZES:
        a, A = square(n, nev)
        for d, di in pairs_(nev):
            full = nev + 1 if di[nev] else nev
            for nconv in sorted({full, full + (full == nev), max(1, full - 1)}):
                if nconv < full and di[nconv - 1] > 0: continue
                im = [x if i < nconv else 0 for i, x in enumerate(di)]
                if nconv == nev + 1 and d == "real": im = [0] * (nev + 1)
                re = [i + 2 if i < nconv else 0 for i in range(nev + 1)]
                yield "order %d, %d values, %s, %d converged" % (n, nev, d, nconv), (a, nev, Env(native.Session(A, TALKS[1][1], nconv, re, im, cols(n, nev + 1))))
def unpackc(o, a, nev, env):
    r = ret_ok(o); need(r)
    if isinstance(r, Err): return [(None, "fails on a computation the solver completes")]
    S = env.session; n = a.rows
    d, Z = r
    asked = o.val(o.s.st.get(native.NAT)); need(asked)
    if asked[7][:2] != "LM": return [(None, "asks for the eigenvalues ranked %s, not those of largest magnitude" % asked[7])]
    cut = S.di[nev] > 0
    k = S.nconv - cut
    if k > nev: k = nev + 1
    if len(d) != k: return [(None, "returns %d eigenvalues, %d converged%s" % (len(d), S.nconv, ", the last without its conjugate" if cut else ""))]
    w = [G(S.dr[i], S.di[i]) for i in range(k)]
    if d != w: return [(None, "eigenvalues are %s, the solver computed %s" % (d, w))]
    rows, ncols, val = Z.f
    if rows < k or ncols != n: return [(None, "eigenvector matrix is %dx%d for %d vectors of length %d" % (rows, ncols, k, n))]
    for i in range(k):
        c = S.z[i]
        if S.di[i] == 0: e = [G(x, 0) for x in c]
        elif S.di[i] > 0: e = [G(x, y) for x, y in zip(c, S.z[i + 1])]
        else: e = [G(x, -y) for x, y in zip(S.z[i - 1], c)]
        if list(val[i]) != e: return [(None, "eigenvector %d is %s, the solver stored %s" % (i, val[i], e))]
    return [(None, None)]
spec("eigs", "C23", unpack, unpackc, tag="unpacking")
def failed():
    for n, nev in SIZES[::2]:
        a, A = square(n, nev)
        for info, info2 in ((-1, 0), (-9999, 0), (0, 1), (0, -14)):
            yield "order %d, %d values, solver reports %d, %d" % (n, nev, info, info2), (a, nev, Env(native.Session(A, TALKS[1][1], nev, [0] * (nev + 1), [0] * (nev + 1), cols(n, nev + 1), info, info2)))
def failc(o, *args):
    need(o.ret)
    return [(None, None if isinstance(o.ret, Err) else "returns a result although the solver failed")]
spec("eigs", "C23", failed, failc, tag="solver failure")
def nonsquare():
    for d, (a,) in nonsq():
        yield d, (csc(a.cols, a.rows, a.colidx, a.rowptr, a.values), 0, Env(native.Session([], [], 0, [], [], [])))
        yield d, (csc(a.cols, a.rows, a.colidx, a.rowptr, a.values), 1, Env(native.Session([], [], 0, [], [], [])))
    yield "4x3", (csc(4, 3, [0, 3], [0, 1, 1, 2], [1, 2]), 1, Env(native.Session([], [], 0, [], [], [])))
    yield "3x4", (csc(3, 4, [0, 2], [0, 1, 1, 1, 2], [1, 2]), 1, Env(native.Session([], [], 0, [], [], [])))
spec("eigs", "C06", nonsquare, must_err, tag="non-square matrix", valid=False)
