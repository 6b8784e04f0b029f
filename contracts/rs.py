"""Contracts: Reeds_Shepp_State_Space::get_controls / get_distance and the word functions behind them.
 word functions (bool W(x, y, phi, t&, u&, v&), every such function of the translation unit):
      ensures  result ==> the path built from t, u, v at each call site leads to the goal of that call site      (C03)
      ensures  inside the word's domain, strictly positive/negative t, u, v of the required signs ==> result,
               and u is the closed form                                                                          (C04)
 selection (all 44 call sites, word results opaque, values merged in passive form):
      ensures  the returned path is the path of a call site whose word exists, or no word exists               (C03)
      ensures  its length is at most that of every existing word                                                (C04)
 C04 also: distance * kappa == path length == sum |delta_s| * kappa, and every (word, symmetry) combination has a call site."""
from contracts.words import *
from vcg.prove import sign_decider
from vcg.ir import DBL
from vcg.exec import mkptr
from vcg.calc import atom_of, at_value
from contracts.dubins import exec_obls

FNC, FND = 'Reeds_Shepp_State_Space::get_controls', 'Reeds_Shepp_State_Space::get_distance'
HP = PI.scale(Fr(1, 2))
NOP, L, S, R = 0, 1, 2, 3

def words(mod): return [n for n in mod.fns if n.endswith('EdddRdS1_S1_')]
def short(n): return next((w for w in SPEC if w in n), n[-30:])

# name -> (segment types, lengths from t,u,v, has a distinct reversed form)
SPEC = {
    'LpSpLp': ((L, S, L), lambda t, u, v: (t, u, v), False),
    'LpSpRp': ((L, S, R), lambda t, u, v: (t, u, v), False),
    'LpRmL': ((L, R, L), lambda t, u, v: (t, u, v), True),
    'LpRupLumRm': ((L, R, L, R), lambda t, u, v: (t, u, -u, v), False),
    'LpRumLumRp': ((L, R, L, R), lambda t, u, v: (t, u, u, v), False),
    'LpRmSmLm': ((L, R, S, L), lambda t, u, v: (t, -HP, u, v), True),
    'LpRmSmRm': ((L, R, S, R), lambda t, u, v: (t, -HP, u, v), True),
    'LpRmSLmRp': ((L, R, S, L, R), lambda t, u, v: (t, -HP, u, -HP, v), False),
}
def closed(w, rho):
    """(open domain, u) of the canonical solution as a function of rho, the distance of the two centres"""
    r2 = rho * rho
    return {
        'LpSpLp': lambda: (TRUE, rho),
        'LpSpRp': lambda: (lt(P(2), rho), sqrt(r2 - 4)),
        'LpRmL': lambda: (lt(rho, P(4)), -2 * T.asin(rho.scale(Fr(1, 4)))),
        'LpRupLumRm': lambda: (lt(rho, P(2)), acos((rho + 2).scale(Fr(1, 4)))),
        'LpRumLumRp': lambda: (And(lt(ZERO, P(20) - r2), lt(P(4), r2)), -acos((P(20) - r2).scale(Fr(1, 16)))),
        'LpRmSmLm': lambda: (lt(P(2), rho), P(2) - sqrt(r2 - 4)),
        'LpRmSmRm': lambda: (lt(P(2), rho), P(2) - rho),
        'LpRmSLmRp': lambda: (lt(P(2), rho), P(4) - sqrt(r2 - 4)),
    }[w]()
SIGN = {  # strict signs of t, u, v demanded of a canonical solution
    'LpSpLp': (1, 0, 1), 'LpSpRp': (1, 0, 1), 'LpRmL': (1, 0, 0), 'LpRupLumRm': (1, 0, -1), 'LpRumLumRp': (1, 0, 1),
    'LpRmSmLm': (1, -1, -1), 'LpRmSmRm': (1, -1, -1), 'LpRmSLmRp': (1, -1, 1)}
EPSC = {'LpSpLp': 1, 'LpRmL': 1, 'LpRmSmLm': 1}

def combos():
    for w, (ty, f, rev) in SPEC.items():
        for bw in ((0, 1) if rev else (0,)):
            for tf in (0, 1):
                for rf in (0, 1): yield (w, bw, tf, rf)
def combo_path(c, t, u, v):
    w, bw, tf, rf = c
    ty, f, _ = SPEC[w]
    ls = list(f(t, u, v)); ty = list(ty)
    if bw: ls.reverse(); ty.reverse()
    if tf: ls = [-x for x in ls]
    if rf: ty = [{L: R, R: L, S: S}[x] for x in ty]
    return tuple(ty), tuple(ls)
def combo_args(c, X, Y, ph):
    w, bw, tf, rf = c
    if bw: X, Y = X * cos(ph) + Y * sin(ph), X * sin(ph) - Y * cos(ph)
    if tf: X, ph = -X, -ph
    if rf: Y, ph = -Y, -ph
    return X, Y, ph

def setting():
    kap = var('kappa', pos=True)
    X, Y, ph = var('X'), var('Y'), var('phi')
    x, y, th = var('x'), var('y'), var('th')
    dx, dy = rot(th, X, Y)
    return dict(kap=kap, X=X, Y=Y, ph=ph, s1=(x, y, th), s2=(x + dx / kap, y + dy / kap, th + ph))

def run(mod, drv, I, only=None, naming=True):
    """all word calls opaque; only=k: exactly the k-th distinct call returns true"""
    calls = {}
    def h(ex, st, a, name):
        key = (name,) + tuple(P(z) for z in a[:3])
        if key not in calls: calls[key] = len(calls)
        j = calls[key]
        for p, c in zip(a[3:], 'tuv'): ex.store(st, p, var('%s%d' % (c, j)), DBL)
        return bvar('b%d' % j) if only is None else B(only == j)
    ex = Executor(mod, {n: (lambda ex, st, a, n=n: h(ex, st, a, n)) for n in words(mod)}); st = State()
    ex.naming = naming
    ex.decider = sign_decider
    (x1, y1, t1), (x2, y2, t2) = I['s1'], I['s2']
    ex.inputs = dict(kappa=I['kap'], x1=x1, y1=y1, t1=t1, x2=x2, y2=y2, t2=t2)
    ex.call(st, drv, [])
    if not calls: raise Unsupported('no word functions found')
    return ex, st, calls

def vec(o): return [P(o['len'][-1])] + [P(z) for z in o['l']] + [P(z) for z in o['ty']]

def defs_hyps(ex, vs):
    """defining equations of the named merges reachable from vs"""
    seen = set(); todo = list(vs); H = []
    while todo:
        v = todo.pop()
        if isinstance(v, Bool):
            if v in seen: continue
            seen.add(v)
            if v in ex.bdefs:
                d = ex.bdefs[v]; H.append(bite(v, d, Not(d))); todo.append(d)
            elif v.op in ('and', 'or', 'not'): todo += list(v.args)
            elif v.op in ('lt', 'le', 'eq', 'ne'): todo.append(v.args[0])
            continue
        for a in all_atoms(v):
            q = P(a)
            if q in seen: continue
            seen.add(q)
            if q in ex.defs:
                c, x, y = ex.defs[q]
                H += [Or(Not(c), eq(q, x)), Or(c, eq(q, y))]; todo += [c, x, y]
    return H

def prep(mod, I):
    ex, st, calls = run(mod, 'vp_rs_path', I)
    o = outs(ex); V = vec(o)
    H = defs_hyps(ex, V)
    n = len(calls)
    H += [lt(absv(var('%s%d' % (c, j))), P(10)**50) for j in range(n) for c in 'tuv']
    R2 = []
    for j in range(n):
        e2, s2, c2 = run(mod, 'vp_rs_path', I, only=j)
        if list(c2) != list(calls): raise Unsupported('the set of words tried depends on word results')
        R2.append(vec(outs(e2)))
    return ex, o, V, H, R2, calls

def task_select(mod, prop):
    I = setting(); t0 = time.time()
    ex, o, V, H, R2, calls = prep(mod, I)
    n = len(calls); bs = [bvar('b%d' % j) for j in range(n)]
    if prop == 'C03':
        yield from exec_obls(ex, 'definedness', FNC)
        g = Or(*[And(bs[j], *[eq(a, b) for a, b in zip(V, R2[j])]) for j in range(n)], And(*[Not(b) for b in bs]))
        ok = z3_valid(H, g, 60000) is True
        yield Ob('selected-path-is-an-existing-word', FNC, 'proved' if ok else 'failed', 'z3', time.time() - t0, 'some selection of existing words returns a path that is none of them')
    else:
        ok, sd = pz(P(o['dist'][-1]) * I['kap'] - P(o['len'][-1]))
        yield Ob('distance-is-path-length', FND, 'proved' if ok else 'failed', 'alg', time.time() - t0, str(o['dist'][-1])[:300])

def task_min(mod, part, parts):
    I = setting()
    ex, o, V, H, R2, calls = prep(mod, I)
    for j in range(part, len(calls), parts):
        t0 = time.time()
        ok = z3_valid(H, Or(Not(bvar('b%d' % j)), le(V[0], R2[j][0])), 40000) is True
        yield Ob('shortest-vs-call-site-%d' % j, FND, 'proved' if ok else 'failed', 'z3', time.time() - t0, 'a path longer than word %d (%s) is returned' % (j, short(list(calls)[j][0])))

def pify_contract(ex, st, a):
    """result = angle - 2 pi n, in [-pi, pi]  (discharged for the code by C07)"""
    al = P(a[0])
    n = fn('turns', al, integer=True)
    r = al - (PI * n).scale(2)
    st.assume(le(-PI, r)); st.assume(le(r, PI))
    return r

def word_paths(mod, name, args):
    """(path condition, result, t, u, v, executor) for each path through the word function"""
    def mk(dec):
        ex = Executor(mod, {n: pify_contract for n in mod.fns if n.endswith('8steering4pifyEd')}, policy=lambda e, f, c: 'split', decisions=dec)
        st = State(); ex.decider = sign_decider
        oid = ex.alloc(st, 'stack', 24, 'out')
        try: r = ex.call(st, name, list(args) + [mkptr(oid, 0), mkptr(oid, 8), mkptr(oid, 16)])
        except Infeasible: return ex, None
        r = B(bool(r)) if isinstance(r, (int, bool)) else r
        vals = [ex.load(st, mkptr(oid, 8 * i), DBL) if st.mem[oid].cells.get(8 * i) else None for i in range(3)]
        return ex, (st, r, vals)
    for ex, res in explore(mk, 200):
        if res is not None: yield ex, res

def invtrig_facts(bs):
    """ranges and signs of the inverse trigonometric atoms (their mathematical specification)"""
    out = []
    for a in {a for b in bs for a in all_atoms(b)}:
        if a.kind == 'asin': out += [Or(lt(a.args[0], ZERO), le(ZERO, P(a))), Or(lt(ZERO, a.args[0]), le(P(a), ZERO)), le(P(a), HP), le(-HP, P(a))]
        if a.kind == 'acos': out += [le(ZERO, P(a)), le(P(a), PI), Or(lt(a.args[0], ZERO), le(P(a), HP))]
    return out

def normargs(p):
    m = {}
    for a in all_atoms(p):
        if a.kind in ('acos', 'asin', 'sqrt'):
            n, d, sd = normal(a.args[0])
            if d.isconst(): m[a] = {'acos': acos, 'asin': T.asin, 'sqrt': sqrt}[a.kind](n.scale(1 / d.const()))
    return Subst(amap=m).poly(p) if m else p

def lits(b):
    if b is TRUE: return []
    if b.op == 'and': return [z for x in b.args for z in lits(x)]
    return [b]

def task_site(mod, prop, k, nsites):
    I = setting()
    _, _, calls = run(mod, 'vp_rs_path', I)
    calls = list(calls)
    if len(calls) != nsites or k >= len(calls): raise Unsupported('number of word calls changed between runs')
    name, ax, ay, ap = calls[k]
    fnm = short(name)
    w = 'call-site-%d(%s)' % (k, fnm)
    t0 = time.time()
    # the goal in terms of the word's arguments: args = M (X, Y), M orthogonal
    def nrm(p):
        n_, d_, sd = normal(P(p))
        return n_ / d_ if not d_.isconst() else n_.scale(1 / d_.const())
    ax, ay, ap = nrm(ax), nrm(ay), nrm(ap)
    Xa, Ya = atom_of(I['X']), atom_of(I['Y'])
    def coef(p, x, y): return at_value(at_value(p, Xa, P(x)), Ya, P(y))
    M = [[coef(p, 1, 0) - coef(p, 0, 0), coef(p, 0, 1) - coef(p, 0, 0)] for p in (ax, ay)]
    lin = all(pz(p - M[i][0] * I['X'] - M[i][1] * I['Y'])[0] for i, p in enumerate((ax, ay)))
    orth = all(pz(M[i][0] * M[j][0] + M[i][1] * M[j][1] - (ONE if i == j else ZERO))[0] for i in (0, 1) for j in (0, 1))
    angok = pz(ap - I['ph'])[0] or pz(ap + I['ph'])[0]
    if not (lin and orth and angok):
        yield Ob('arguments-are-a-symmetric-goal[%s]' % w, FNC, 'failed', 'alg', time.time() - t0, 'x=%s y=%s phi=%s' % (str(ax)[:150], str(ay)[:150], str(ap)[:80])); return
    if prop == 'C03': yield Ob('arguments-are-a-symmetric-goal[%s]' % w, FNC, 'proved', 'alg', time.time() - t0)
    # what the call site does with the result
    e2, s2, _ = run(mod, 'vp_rs_controls', I, only=k)
    o = outs(e2)
    segs = [(P(a), P(b), P(c)) for a, b, c in zip(o['ds'], o['k'], o['s'])]
    if prop == 'C03':
        for i, (ds, kk, ss) in enumerate(segs):
            t0 = time.time()
            ok = any(pz(kk - z)[0] for z in (ZERO, I['kap'], -I['kap'])) and not ss.d
            yield Ob('segment-%d-admissible[%s]' % (i, w), FNC, 'proved' if ok else 'failed', 'alg', time.time() - t0, '%s %s' % (kk, ss))
    p2, _, _ = run(mod, 'vp_rs_path', I, only=k)
    op = outs(p2)
    t, u, v = [var('%s%d' % (c, k)) for c in 'tuv']
    if prop == 'C04':
        t0 = time.time()
        tot = ZERO
        for ds, kk, ss in segs: tot = tot + absv(ds * I['kap'])
        ok = pz(tot - P(op['len'][-1]))[0]
        yield Ob('path-length-is-controls-length[%s]' % w, FND, 'proved' if ok else 'failed', 'alg', time.time() - t0, '%s vs %s' % (str(tot)[:200], str(op['len'][-1])[:200]))
    al = var('alpha'); T.PRINCIPAL.add(al)
    rho = var('rho', pos=True)
    eps = EPSC.get(fnm, -1)
    variants = [('apart', rho * cos(al), rho * sin(al), rho), ('same', ZERO, ZERO, ZERO)]
    if fnm == 'LpRmSmRm': variants[0] = ('apart', rho * sin(al), -rho * cos(al), rho)
    ph = I['ph']
    for tag, xi, eta, rr in variants:
        AX = xi + eps * sin(ap); AY = eta + 1 - eps * cos(ap)
        GX = M[0][0] * AX + M[1][0] * AY; GY = M[0][1] * AX + M[1][1] * AY
        npath = 0
        for ex, (st, r, vals) in word_paths(mod, name, [AX, AY, ap]):
            npath += 1
            nm = '%%s[%s,%s,path%d]' % (w, tag, npath)
            hy = [h for h in st.pc]
            if prop == 'C03':
                yield from exec_obls(ex, nm % 'definedness', name)
                rl = lits(r)
                h = simp_hyps(hy + rl)
                if r is FALSE or h is None: continue
                t0 = time.time()
                if any(z is None for z in vals):
                    ok = infeasible(hy + rl, 4000)
                    yield Ob(nm % 'outputs-set-when-true', name, 'proved' if ok else 'failed', 'z3', time.time() - t0, 'an output is not written although the word reports success'); continue
                sub = {a: P(z) for a, z in zip('tuv', vals)}
                sm = Subst(amap={atom_of(var('%s%d' % (c, k))): sub[c] for c in 'tuv'})
                sg = [(sm.poly(ds), kk) for ds, kk, ss in segs]
                gx, gy = GX / I['kap'], GY / I['kap']
                ok, back, det, sides = endpoint_leaf((ZERO, ZERO, ZERO), (gx, gy, ph), sg, h, inv(I['kap']))
                bad = side_ok(sides, h) if ok else []
                if ok and bad: ok = False; det = 'side condition %s != 0' % str(bad[0])[:200]
                if not ok and infeasible(h, 4000): ok, back = True, 'z3'
                yield Ob(nm % 'word-reaches-goal', name, 'proved' if ok else 'failed', back, time.time() - t0, det)
            else:
                if fnm not in SPEC: raise Unsupported('unknown word function %s' % name)
                dom, uc = closed(fnm, rr)
                if dom is FALSE: continue
                t0 = time.time()
                full = [z is not None for z in vals]
                # canonical t and v: those of the code where it gets that far
                sgn = []
                for z, s in zip(vals, SIGN[fnm]):
                    if z is not None and s: sgn.append(lt(ZERO, s * P(z)))
                if SIGN[fnm][1]: sgn.append(lt(ZERO, SIGN[fnm][1] * uc))
                h = hy + lits(dom) + sgn
                if tag == 'apart' or True:
                    goal = r
                    h = h + invtrig_facts(h + [goal])
                    ok = simp_hyps(h) is None or valid(h, goal, 6000) or lin_valid(h, goal)
                    yield Ob(nm % 'accepts-canonical-solution', name, 'proved' if ok else 'failed', 'z3', time.time() - t0, 'rejected: %s' % '; '.join(str(x)[:80] for x in h[:12]))
                    for c, z in (('t', vals[0]), ('v', vals[2])):
                        if z is None: continue
                        t0 = time.time(); z = P(z)
                        g = And(le(-PI, z), le(z, PI))
                        hh = hy + [le(-PI, al), le(al, PI)]
                        ok = valid(hh, g, 4000) or lin_valid(hh, g) or simp_hyps(h) is None
                        yield Ob(nm % ('canonical-range-' + c), name, 'proved' if ok else 'failed', 'z3', time.time() - t0, '%s = %s' % (c, str(z)[:150]))
                    if r is not FALSE and vals[1] is not None:
                        t0 = time.time()
                        ok, sd = pz(normargs(P(vals[1])) - uc)
                        if not ok: ok = simp_hyps(h) is None or infeasible(h, 3000)
                        yield Ob(nm % 'closed-form', name, 'proved' if ok else 'failed', 'alg', time.time() - t0, 'u = %s, expected %s' % (str(vals[1])[:150], str(uc)[:150]))

def task_cover(mod):
    """every (word, symmetry) combination has its call site, with the right arguments"""
    I = setting()
    _, _, calls = run(mod, 'vp_rs_path', I)
    calls = list(calls)
    have = {}
    for k, (name, ax, ay, ap) in enumerate(calls):
        p2, _, _ = run(mod, 'vp_rs_path', I, only=k)
        op = outs(p2)
        t, u, v = [var('%s%d' % (c, k)) for c in 'tuv']
        n = [P(z) for z in op['ty']].index(ZERO) if ZERO in [P(z) for z in op['ty']] else 5
        have.setdefault(short(name), []).append((k, tuple(P(z) for z in op['ty'][:n]), tuple(P(z) for z in op['l'][:n]), (ax, ay, ap), (t, u, v)))
    for c in combos():
        t0 = time.time()
        ok = False
        ea = combo_args(c, I['X'], I['Y'], I['ph'])
        for k, ty, ls, args, tuv in have.get(c[0], []):
            ety, els = combo_path(c, *tuv)
            if ty == tuple(P(x) for x in ety) and len(ls) == len(els) and all(not (a - b).d for a, b in zip(ls, els)) and all(pz(P(a) - b)[0] for a, b in zip(args, ea)):
                ok = True; break
        nm = c[0] + (' reversed' if c[1] else '') + (' timeflip' if c[2] else '') + (' reflect' if c[3] else '')
        yield Ob('word-is-tried[%s]' % nm, FND, 'proved' if ok else 'failed', 'alg', time.time() - t0, 'no call site for this word')

def tasks(mod, prop):
    if not words(mod): return [('words', no_words, ())]
    try: n = len(run(mod, 'vp_rs_path', setting())[2])
    except Unsupported as e: return [('words', no_words, (str(e),))]
    ts = [('site %d' % k, task_site, (mod, prop, k, n)) for k in range(n)]
    ts.append(('select', task_select, (mod, prop)))
    if prop == 'C04':
        ts += [('min %d' % p, task_min, (mod, p, 8)) for p in range(8)]
        ts.append(('cover', task_cover, (mod,)))
    return ts
def no_words(why='no word functions found'): raise Unsupported(why)
