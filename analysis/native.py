"""The native eigenvalue solver and the lock around it, as an environment with a protocol.

A call to ARPACK is not analysed; it is an uninterpreted function of everything passed to it (contents of every
buffer behind a pointer, scalars, the state of the lock) and of the solver's own state.  When a summary is given
meaning, that function is the protocol the ARPACK documentation prescribes: it records every breach by the caller
(buffer shorter than its dimension requires, session not under one acquisition of a process-wide lock, request for
a product not answered) in the solver state, which the specification of `eigs` inspects.
"""
from terms import *

NAT = mk("cell", "arg", "#native")      # state of the solver
HELD = mk("cell", "arg", "#held")       # 1 process-wide lock held, 2 some other lock held, 0 none
ACQ = mk("cell", "arg", "#acq")         # number of acquisitions so far
GUARD = "lockguard"
def init(st):
    st[NAT] = mk("sym", "#nat0", "o"); st[HELD] = ZERO; st[ACQ] = ZERO

def static_of(I, v, st):
    """is v a reference to a static?"""
    for _ in range(6):
        if v.op == "static": return True
        if v.op == "ref":
            if v.args[0].op == "static" or v.args[0].args[0] == "static": return True
            w = st.get(v.args[0])
            if w is None: return False
            if w.op in ("static", "ref"): v = w; continue
            return w.op == "agg" and w.args[0] == "opaquestatic"
        return False
    return False
def lock(I, a, st):
    proc = static_of(I, a, st)
    st[ACQ] = add(st.get(ACQ, ZERO), ONE)
    st[HELD] = num(1 if proc else 2)
    return agg(GUARD, 0)
def has_guard(v, d=0):
    if not isinstance(v, T) or d > 6: return False
    if v.op == "agg" and v.args[0] == GUARD: return True
    if v.op in ("agg", "ite"): return any(has_guard(x, d + 1) for x in v.args)
    return False
def drop(v, st):
    if has_guard(v): st[HELD] = ZERO

# argument positions: name -> index
AUPD = "ido bmat n which nev tol resid ncv v ldv iparam ipntr workd workl lworkl info".split()
EUPD = "rvec howmny select dr di z ldz sigmar sigmai workev bmat n which nev tol resid ncv v ldv iparam ipntr workd workl lworkl info".split()
UPD = {"dnaupd_c": (AUPD, {"ido": "z", "resid": "t", "v": "t", "iparam": "z", "ipntr": "z", "workd": "t", "workl": "t", "info": "z"}),
       "dneupd_c": (EUPD, {"dr": "t", "di": "t", "z": "t", "workev": "t", "resid": "t", "v": "t", "iparam": "z", "ipntr": "z", "workd": "t", "workl": "t", "info": "z"})}
SCALAR = {"ido", "info"}
def foreign(I, n, a, st, g, loc):
    names, outs = UPD[n]
    vals = [st[NAT], st[HELD], st[ACQ]]; refs = {}
    for k, x in zip(names, a):
        if x.op == "ptr": x = x.args[0]
        refs[k] = x
        v = I.rdd(x, st)
        vals.append(v)
    name = "native::" + n
    new = mk("natk", (name, "nat"), "o", None, *vals)
    for k, s in outs.items():
        i = 3 + names.index(k)
        if k in SCALAR: t = P(mk("K", (name, k), s, None, *vals))
        else: t = mk("K", (name, k), s, length(vals[i]), *vals)
        I.wr(refs[k], t, st)
    st[NAT] = new
    return UNIT

# ------------------------------------------------------------------ meaning
class Session:
    """the environment of one computation"""
    def __init__(s, A, responses, nconv, dr, di, z, info=0, info2=0):
        s.A, s.responses, s.nconv, s.dr, s.di, s.z, s.info, s.info2 = A, responses, nconv, dr, di, z, info, info2
def nat0(): return ("nat", 0, 0, (), (), False, ())     # calls so far, acquisition, pending answer (offset, values), breaches, finished, what must come back unchanged
KEEP = "resid v iparam ipntr workl".split()
SAME = "bmat n which nev tol ncv ldv lworkl".split()
def _kept(A, out): return tuple((x, tuple(out[x]) if isinstance(out[x], list) else out[x]) for x in KEEP) + tuple((x, A[x]) for x in SAME)
def _fill(b, base): return [base + i for i in range(len(b))] if isinstance(b, list) else b
def vec(k, n): return [3 + 2 * i + 5 * k + (i * k) % 3 for i in range(n)]
def _common(kind, nat, held, acq, A, S):
    _, k, acq0, pend, err, done, kept = nat
    err = list(err)
    if held != 1: err.append("%s is called %s" % (kind, "without holding the lock" if held == 0 else "under a lock that is not process-wide"))
    if k == 0:
        acq0 = acq
        ip = A["iparam"]
        if isinstance(ip, list) and len(ip) > 6:
            if ip[0] != 1: err.append("the solver is told that the caller supplies the shifts (iparam[0] = %s), and such requests are not answered" % ip[0])
            if ip[2] <= 0: err.append("no iterations are allowed (iparam[2] = %s)" % ip[2])
            if ip[3] != 1: err.append("block size %s is not supported (iparam[3])" % ip[3])
            if ip[6] != 1: err.append("mode %s is requested, for which the requests mean another product (iparam[6])" % ip[6])
        if A["info"] != 0: err.append("a start vector is announced but none is given")
        if A["bmat"][:1] != "I": err.append("a generalised problem is requested")
    elif acq != acq0: err.append("the lock is released and taken again before %s" % kind)
    for x, b in kept:
        now = tuple(A[x]) if isinstance(A[x], list) else A[x]
        if x == "tol" and now <= 0 and b <= 0: continue
        if x == "ipntr" and kind == "dnaupd": continue
        if now != b: err.append("%s of the solver is changed between calls" % x)
    def need(nm, n):
        b = A[nm]
        if not isinstance(b, list): err.append("%s: %s is not a buffer" % (kind, nm)); return
        if len(b) < n: err.append("%s: %s has %d elements, the dimensions passed require %d" % (kind, nm, len(b), n))
    n, ncv, nev = A["n"], A["ncv"], A["nev"]
    if n != len(S.A): err.append("%s: order %d passed for a matrix of order %d" % (kind, n, len(S.A)))
    if not (0 < nev < n - 1 and nev + 2 <= ncv <= n): err.append("%s: nev = %d, ncv = %d with n = %d are outside the solver's limits" % (kind, nev, ncv, n))
    if A["lworkl"] < 3 * ncv * ncv + 6 * ncv: err.append("%s: lworkl = %d is less than %d" % (kind, A["lworkl"], 3 * ncv * ncv + 6 * ncv))
    if A["ldv"] < n: err.append("%s: leading dimension of v is %d" % (kind, A["ldv"]))
    need("resid", n); need("v", A["ldv"] * ncv); need("iparam", 11); need("ipntr", 14); need("workd", 3 * n); need("workl", A["lworkl"])
    if pend:
        w = A["workd"]; off, y = pend
        if w[off:off + n] != list(y): err.append("request %d for a product is not answered" % k)
    return k, acq0, err, need, n
def put(b, off, v):
    b = list(b)
    for i, x in enumerate(v):
        if 0 <= off + i < len(b): b[off + i] = x
    return b
def dnaupd(E, nat, held, acq, *args):
    S = E.m["#session"]; A = dict(zip(AUPD, args))
    k, acq0, err, need, n = _common("dnaupd", nat, held, acq, A, S)
    if k == 0 and A["ido"] != 0: err.append("first call has ido = %s" % A["ido"])
    if nat[5]: err.append("dnaupd is called after the iteration finished")
    if k > 0 and not nat[5] and A["ido"] != S.responses[k - 1][0]: err.append("ido is changed between calls")
    out = {x: A[x] for x in UPD["dnaupd_c"][1]}
    pend = (); done = False
    out["info"] = 0
    out["v"] = _fill(A["v"], 900 + k); out["resid"] = _fill(A["resid"], 300 + k); out["workl"] = _fill(A["workl"], 5000 + k)
    if k < len(S.responses):
        ido, xb, yb = S.responses[k]
        xo, yo = xb * n, yb * n
        x = vec(k, n)
        y = tuple(sum(S.A[i][j] * x[j] for j in range(n)) for i in range(n))
        out["ido"] = ido
        out["workd"] = put(put(A["workd"], yo, [7777] * n), xo, x)
        out["ipntr"] = put(A["ipntr"], 0, [xo + 1, yo + 1, 1])
        pend = (yo, y)
    else:
        out["ido"] = 99; done = True
        out["iparam"] = put(A["iparam"], 4, [S.nconv]); out["info"] = S.info
    out["nat"] = ("nat", k + 1, acq0, pend, tuple(err), done, _kept(A, out))
    return out
def dneupd(E, nat, held, acq, *args):
    S = E.m["#session"]; A = dict(zip(EUPD, args))
    k, acq0, err, need, n = _common("dneupd", nat, held, acq, A, S)
    if not nat[5]: err.append("dneupd is called before the iteration finished")
    nev, ncv = A["nev"], A["ncv"]
    need("select", ncv); need("dr", nev + 1); need("di", nev + 1); need("workev", 3 * ncv)
    if A["ldz"] < n: err.append("dneupd: leading dimension of z is %d" % A["ldz"])
    need("z", A["ldz"] * (nev + 1))
    out = {x: A[x] for x in UPD["dneupd_c"][1]}
    out["dr"] = put(A["dr"], 0, S.dr); out["di"] = put(A["di"], 0, S.di)
    z = A["z"]
    if A["rvec"] != 0 and A["howmny"][:1] in ("A", "P"):
        for j, col in enumerate(S.z): z = put(z, j * A["ldz"], [x + 9000 for x in col] if A["howmny"][:1] == "P" else col)
    out["z"] = z; out["info"] = S.info2
    out["nat"] = ("nat", k + 1, acq0, (), tuple(err), "end", (), A["which"])
    return out
ORACLES = {"native::dnaupd_c": dnaupd, "native::dneupd_c": dneupd}
