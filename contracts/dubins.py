"""Contracts: Dubins_State_Space::get_controls / get_distance (and everything they call, inlined or by contract).
 C01  ensures  flow(state1, controls) == state2 ; all segments in the allowed direction, kappa in {-K,0,K}, sigma == 0
 C02  ensures  distance == sum |delta_s|  and  distance <= length of each of the six words that is feasible"""
from contracts.words import *
from vcg.prove import sign_decider, lin_valid, valid, relevant

def inputs(fw, case):
    """WLOG parametrisation: goal = start + D (cos phi, sin phi), headings relative to phi; D > 0 or D = 0 (then phi := 0)"""
    A, Bb = var('A'), var('B'); kap = var('kappa', pos=True); ph = var('phi'); T.PRINCIPAL.add(ph)
    x, y = var('x'), var('y')
    if case == 'apart':
        D = var('D', pos=True)
        p, q = (x, y), (x + D * cos(ph), y + D * sin(ph))
        ta, tb = ph + A, ph + Bb
    else:
        D = ZERO; p = q = (x, y); ta, tb = A, Bb; ph = ZERO
    if not fw: p, q = q, p; ta, tb = tb, ta
    return dict(kap=kap, D=D, ph=ph, A=A, B=Bb, s1=(p[0], p[1], ta), s2=(q[0], q[1], tb))

def execute(mod, fw, I, driver='vp_dubins_controls'):
    ex = Executor(mod); st = State()
    ex.decider = sign_decider
    (x1, y1, t1), (x2, y2, t2) = I['s1'], I['s2']
    ex.inputs = {'kappa': I['kap'], 'forwards': fw, 'x1': x1, 'y1': y1, 't1': t1, 'x2': x2, 'y2': y2, 't2': t2}
    ex.call(st, driver, [])
    return ex, st

def mod2pi(x): return x - PI.scale(2) * floor(x * inv(PI.scale(2)))

def spec_words(d, a, b):
    """independent closed forms: name -> (feasibility, length)"""
    ca, sa, cb, sb = cos(a), sin(a), cos(b), sin(b)
    W = {}
    def csc(name, s1, s2):
        # turn s1 (+1 left), straight, turn s2.  centres: c1 = (0,0)+s1*n(a), c2 = (d,0)+s2*n(b), n(t)=(-sin t, cos t)
        ux = d - s2 * sb + s1 * sa; uy = s2 * cb - s1 * ca
        if s1 == s2:
            p2 = 2 + d * d - 2 * (ca * cb + sa * sb) + s1 * 2 * d * (sa - sb)
            th = atan2(uy, ux)
            W[name] = (TRUE, mod2pi(s1 * (th - a)) + sqrt(p2) + mod2pi(s2 * (b - th)))
        else:
            p2 = d * d - 2 + 2 * (ca * cb + sa * sb) + s1 * 2 * d * (sa + sb)
            p = sqrt(p2)
            th = atan2(uy, ux) + atan2(P(2 * s1), p)
            W[name] = (le(ZERO, p2), mod2pi(s1 * (th - a)) + p + mod2pi(s2 * (b - th)))
    csc('LSL', 1, 1); csc('RSR', -1, -1); csc('RSL', -1, 1); csc('LSR', 1, -1)
    for name, s in (('RLR', -1), ('LRL', 1)):
        t = (6 - d * d + 2 * (ca * cb + sa * sb) - s * 2 * d * (sa - sb)).scale(Fr(1, 8))
        p = PI.scale(2) - acos(t)
        th = atan2(s * (cb - ca), d + s * (sa - sb))
        # first turn angle
        tt = mod2pi(s * (atan2(s * (cb - ca), d + s * (sa - sb)) - a) + p.scale(Fr(1, 2)))
        W[name] = (lt(absv(t), ONE), tt + p + mod2pi(s * (b - a) - tt + p))
    return W

def task(mod, prop, fw, case):
    FN = 'Dubins_State_Space::get_controls' if prop == 'C01' else 'Dubins_State_Space::get_distance'
    I = inputs(fw, case)
    tag = '%s,%s' % ('forwards' if fw else 'backwards', case)
    ex, st = execute(mod, fw, I)
    o = outs(ex)
    t0 = time.time()
    if prop == 'C01':
        yield from exec_obls(ex, 'definedness[%s]' % tag, FN)
    n = o['n'][-1]
    if len(o['ds']) == 0: yield Ob('nonempty[%s]' % tag, FN, 'failed', 'vcgen', detail='no controls'); return
    flat = [P(x) for s in zip(o['ds'], o['k'], o['s']) for x in s] + [P(o['len'][-1])]
    ns = len(o['ds'])
    sg = 1 if fw else -1
    W = spec_words(I['kap'] * I['D'], I['A'], I['B']) if prop == 'C02' else None
    base = [lt(I['kap'] * I['D'], P(10)**100)] if I['D'].d else []
    i = 0
    for ts, hy in cases(flat, base):
        h = simp_hyps(hy)
        if h is None: continue
        i += 1
        nm = '%%s[%s,leaf%d]' % (tag, i)
        t0 = time.time()
        segs = [(ts[3 * j], ts[3 * j + 1], ts[3 * j + 2]) for j in range(ns)]
        ln = ts[-1]
        if prop == 'C01':
            ok, back, det, sides = endpoint_leaf(I['s1'], I['s2'], [(a, b) for a, b, c in segs], h, inv(I['kap']))
            bad = side_ok(sides, h) if ok else []
            if ok and bad: ok = False; det = 'side condition %s != 0' % str(bad[0])[:200]
            if not ok and infeasible(h, 4000): ok, back = True, 'z3'
            yield Ob(nm % 'reaches-goal', FN, 'proved' if ok else 'failed', back, time.time() - t0, det)
            for j, (ds, k, s) in enumerate(segs):
                t0 = time.time()
                g = And(le(ZERO, sg * ds), Or(eq(k, ZERO), eq(k, I['kap']), eq(k, -I['kap'])), eq(s, ZERO))
                ok = valid(h, g)
                yield Ob(nm % ('segment%d-admissible' % j), FN, 'proved' if ok else 'failed', 'z3', time.time() - t0, str(segs[j])[:300])
        else:
            tot = ZERO
            for ds, k, s in segs: tot = tot + sg * ds
            r = pz(ln - tot)
            ok = r[0] or valid(h, eq(ln, tot))
            yield Ob(nm % 'distance-is-length', FN, 'proved' if ok else 'failed', 'alg', time.time() - t0, str(ln - tot)[:300])
            t0 = time.time()
            if pz(ln - I['D'])[0]:
                yield Ob(nm % 'shortest(straight)', FN, 'proved', 'alg', time.time() - t0); continue
            kl = ln * I['kap']
            for w, (fe, L) in W.items():
                t0 = time.time()
                hf = simp_hyps(h + [fe])
                ok = hf is None or lin_valid(hf + [fe], le(kl, L)) or infeasible(relevant(h, fe) + [fe], 3000)
                yield Ob(nm % ('shortest-vs-' + w), FN, 'proved' if ok else 'failed', 'z3', time.time() - t0, 'length %s vs word %s' % (str(kl)[:150], str(L)[:150]))

def exec_obls(ex, tag, fn):
    """definedness/memory obligations collected by the executor"""
    done = {}
    for kind, pc, goal, where in ex.obls:
        key = (kind, goal, pc)
        if key in done: continue
        done[key] = 1
        t0 = time.time()
        ok = any(goal is p for p in pc) or valid(list(pc), goal, 6000)
        if not ok:
            h = simp_hyps(list(pc) + [Not(goal)])
            ok = h is None
            if not ok:
                al_ok = all(refute(hh) for hh in lit_cases(h))
                ok = al_ok
        yield Ob('%s %s@%s' % (tag, kind, where.split(':')[-1]), fn, 'proved' if ok else 'failed', 'z3', time.time() - t0, '%s at %s: %s' % (kind, where, str(goal)[:300]))

def lit_cases(h):
    for ts, hy in cases([x for x in h if x.op in ('lt', 'le', 'eq', 'ne')], [x for x in h if x.op not in ('lt', 'le', 'eq', 'ne')]):
        yield list(hy) + [t for t in ts]

def refute(h):
    """hypotheses contradictory: sign theorems then z3"""
    for x in h:
        if x is FALSE: return True
        if x.op == 'lt' and sign_facts(x.args[0]): return True
    return infeasible(h, 4000)

def tasks(mod, prop):
    return [('%s %s %s' % (prop, fw, case), task, (mod, prop, fw, case)) for fw in (True, False) for case in ('apart', 'same')]
