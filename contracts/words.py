"""Contracts for the word-based planners (constant curvature): the controls drive state1 exactly to state2."""
from vcg.ctx import *
from vcg.flow import *
from vcg import alg
from vcg.prove import lin_valid, zv, valid, sign_decider, sign_facts
import time

TOL = P(Fr(1, 10**5))

def norm_hyps(al, hyps):
    """literals rewritten with the same normaliser as the goal"""
    out = []
    for h in hyps:
        if h.op in ('lt', 'le', 'eq', 'ne'):
            try:
                p = h.args[0]
                al.collect(p)
                n, d = al.ratio(al.norm(p))
                n = al.red(n); d = al.red(d)
                if d.isconst():
                    n = n.scale(1 / d.const()); out.append(mkbool(h.op, n) if n.d else B({'lt': False, 'le': True, 'eq': True, 'ne': False}[h.op]))
                else: out.append(h)
            except Unsupported: out.append(h)
        else: out.append(h)
    return out

def mdiv(m, M):
    """m / M if divisible else None"""
    d = dict(m)
    for a, e in M:
        if d.get(a, 0) < e: return None
        d[a] = d[a] - e
        if not d[a]: del d[a]
    return tuple(sorted(d.items()))

def el(p, rules):
    """rewrite p with the radicand rules"""
    for _ in range(200):
        hit = False
        for h, M, rep in rules:
            keep = {}; res = ZERO
            for m, c in p.d.items():
                q = mdiv(m, M)
                if q is None: keep[m] = c
                else: res = res + Poly({q: c}) * rep; hit = True
            if hit:
                p = Poly(keep) + res
                break
        if not hit: return p
        if len(p.d) > 5000: raise Unsupported('el')
    raise Unsupported('el')

def small(e2, hyps, tol2, timeout=20000):
    """hyps |= e2 <= tol2 with e2 a sum of squares; by normalisation then z3"""
    al = alg.Alg('hvar')
    try:
        al.collect(e2)
        for h in hyps: al.collect(h) if h.op in ('lt', 'le', 'eq', 'ne') else None
        n, d = al.ratio(al.norm(e2))
        n = al.red(al.norm(n)); d = al.red(d)
    except Unsupported: return False, None
    hh = norm_hyps(al, hyps)
    # eliminate the radicands: h^2 = R used as a rewriting rule on the leading monomial of R
    rules = []
    for hid, R in sorted(al.hrel.items()):
        M = max(R.d, key=lambda m: (sum(e for _, e in m), m))
        c = R.d[M]
        h = P(ATOMS[hid])
        rules.append((h, M, (h * h - (R - Poly({M: c}))).scale(1 / c)))
    if rules:
        try:
            n, d = al.red(el(n, rules)), al.red(el(d, rules))
            hh = [mkbool(x.op, el(x.args[0], rules)) if x.op in ('lt', 'le', 'eq', 'ne') else x for x in hh]
            hh = [x if x.op not in ('lt', 'le', 'eq', 'ne') or x.args[0].d else B({'lt': False, 'le': True, 'eq': True, 'ne': False}[x.op]) for x in hh]
        except Unsupported: pass
    goal = le(n, tol2 * d) if not d.isconst() else le(n.scale(1 / d.const()), tol2)
    if zv(hh, goal, timeout): return True, al.side
    return False, None

def side_ok(side, hyps, timeout=5000):
    """side conditions (non-zero) discharged from the path condition; returns those that are not"""
    bad = []
    for s in dict.fromkeys(side):
        al = alg.Alg('rule')
        try:
            al.collect(s)
            for h in hyps: al.collect(h) if h.op in ('lt', 'le', 'eq', 'ne') else None
            sn = al.red(al.norm(s)); hh = norm_hyps(al, hyps)
            if sn.isconst() and sn.const() != 0: continue
            if lin_valid(hh, ne(sn, ZERO)): continue
        except Unsupported: pass
        if not zv(hyps, ne(s, ZERO), timeout): bad.append(s)
    return bad

def heading_ok(E, hyps, tol=Fr(1, 10**5)):
    """E congruent (mod 2 pi) to a value of magnitude <= tol"""
    E = ang_reduce(E)
    if not E.d: return True
    for h in hyps:
        for at in all_atoms(h):
            if at.kind == 'abs':
                e = at.args[0]
                if ang_zero(e - E) or ang_zero(e + E):
                    if z3_valid(hyps, le(P(at), P(tol)), 5000) is True: return True
    if z3_valid(hyps, And(le(E, P(tol)), le(-E, P(tol))), 3000) is True: return True
    return False

_PZ = {}
def pz(p):
    r = _PZ.get(p)
    if r is None:
        r = _PZ[p] = prove_zero(p)
    return r

def endpoint_leaf(start, goal, segs, hyps, scale, tol=Fr(1, 10**5)):
    """segs: [(ds, kappa)]; returns (ok, backend, detail, sides)"""
    q = start
    for ds, k in segs: q = flow0(q, ds, k)
    ex, ey, et = q[0] - goal[0], q[1] - goal[1], q[2] - goal[2]
    det = []
    back = 'alg'
    sides = []
    if not heading_ok(et, hyps): det.append('heading error %s' % str(ang_reduce(et))[:300])
    rx, ry = pz(ex), pz(ey)
    if rx[0] and ry[0]:
        sides = rx[1] + ry[1]
    else:
        # tolerance branch: |E| <= tol * scale
        e2 = (ex * ex + ey * ey) / (scale * scale)
        ok, sd = small(e2, hyps, P(tol * tol))
        back = 'alg+z3'
        if ok: sides = sd
        else: det.append('position error not shown zero/small: %s ; %s' % (str(rx[1])[:200], str(ry[1])[:200]))
    return (not det), back, '; '.join(det), sides
