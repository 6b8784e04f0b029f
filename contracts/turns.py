"""C13: the turn primitives.  A turning circle with start s (heading t0), a = +1 left / -1 right, b = +1 forward / -1 backward and
parameters (kappa, sigma, r, mu, delta_min) has centre  s + R(t0)(b r sin mu, a r cos mu).  A configuration q of deflection delta is
  cc:  heading t0 + a b delta, q = centre + R(theta_q)(b r sin mu, -a r cos mu), curvature 0
  hc:  heading t0 + a b delta, q = centre + R(theta_q)(0, -a / kappa), curvature a kappa      (rs: r = 1/kappa, mu = 0, delta_min = 0)
Contract of X_turn_controls(c, q, order): the motion along the controls leads from s to q (order) or from q to s (not order)."""
from vcg.ctx import *
from vcg.flow import *
from vcg.calc import *
from contracts.words import pz, side_ok
from contracts.motion import zero
from vcg.prove import lin_valid, zv, valid
import time

EPS = P(Fr(1, 10**4)); HPI = PI.scale(Fr(1, 2)); TPI = PI.scale(2)
TWOPIFY = '8steering7twopifyEd'; DIST = '8steering14point_distance'

def flow(q, ds, k, sg, dsign):
    """state after the signed arc length ds of sign dsign from q=(x,y,th) with curvature k and sharpness sg in unsigned arc length
    (closed form of C05); sg is ZERO or an expression of known sign"""
    if not sg.d: return flow0(q, ds, k)
    x, y, t = q
    L = ds.scale(dsign)
    ss = 1 if is_pos(sg) else -1 if is_pos(-sg) else None
    if ss is None: raise Unsupported('sign of sharpness %s' % str(sg)[:80])
    ab = sg.scale(ss)
    c = inv(sqrt(ab)) * inv(sqrt(PI))
    k1 = t - (k * k / sg).scale(Fr(dsign, 2))
    k2 = c * (ab * L + k.scale(ss)); k3 = c * k.scale(ss)
    A = FC(k2) - FC(k3); Bs = FS(k2) - FS(k3)
    f = sqrt(PI) * inv(sqrt(ab))
    return (x + f * (cos(k1).scale(dsign) * A - sin(k1).scale(ss) * Bs), y + f * (sin(k1).scale(dsign) * A + cos(k1).scale(ss) * Bs),
            t + (k * L + (sg * L * L).scale(Fr(1, 2))).scale(dsign))

class Geo:
    """symbolic circle and configuration"""
    def __init__(self, kind, left, forward, half=True):
        a = self.a = 1 if left else -1; b = self.b = 1 if forward else -1
        self.kind = kind
        k = self.k = var('kappa', pos=True); sg = self.sg = var('sigma', pos=True)
        self.x0, self.y0, self.t0 = var('x0'), var('y0'), var('t0')
        self.h = var('h', pos=True); self.delta = self.h.scale(2)
        if kind == 'rs': self.r = inv(k); self.mu = ZERO; self.dm = ZERO
        else: self.r = var('radius', pos=True); self.mu = var('mu'); self.dm = (k * k / sg).scale(Fr(1, 2))
        self.sm, self.cm = sin(self.mu), cos(self.mu)
        self.rs_, self.rc_ = self.r * self.sm, self.r * self.cm
        dx, dy = rot(self.t0, self.rs_.scale(b), self.rc_.scale(a))
        self.xc, self.yc = self.x0 + dx, self.y0 + dy
        self.tq = self.t0 + self.delta.scale(a * b)
        if kind == 'cc': dx, dy = rot(self.tq, self.rs_.scale(b), self.rc_.scale(-a)); self.kq = ZERO
        else: dx, dy = rot(self.tq, ZERO, inv(k).scale(-a)); self.kq = k.scale(a)
        self.xq, self.yq = self.xc + dx, self.yc + dy
        self.k0 = k.scale(a) if kind == 'rs' else ZERO
        self.hyps = [le(ZERO, self.delta), lt(self.delta, TPI)]
        if kind != 'rs': self.hyps += [lt(ZERO, self.mu), lt(self.mu, HPI)]
    def inputs(self):
        return dict(kappa=self.k, sigma=self.sg, radius=self.r, mu=self.mu, sin_mu=self.sm, cos_mu=self.cm, delta_min=self.dm,
                    x0=self.x0, y0=self.y0, t0=self.t0, k0=self.k0, xq=self.xq, yq=self.yq, tq=self.tq, kq=self.kq)
    def minclo(self):
        """the parameters are those of the end point of the minimal clothoid (obligation of the constructor)"""
        u = self.k * inv(sqrt(self.sg)) * inv(sqrt(PI)); f = sqrt(self.sg) * inv(sqrt(PI))
        return {atom_of(FC(u)): f * (self.rs_ + sin(self.dm) * inv(self.k)), atom_of(FS(u)): f * (self.rc_ * 1 - cos(self.dm) * inv(self.k)) if False else f * (self.rc_ - cos(self.dm) * inv(self.k))}

def handlers(mod, g, D):
    def h_twopify(ex, st, a):
        p = ang_reduce(P(a[0]))
        if p == g.delta or ang_reduce(g.delta - p) == ZERO: return g.delta
        al = P(a[0]); r = al - TPI * T.floor(al / TPI)
        if not al.d: return ZERO
        st.assume(le(ZERO, r)); st.assume(lt(r, TPI)); st.assume(le(r, al)) if is_pos(al) else None
        return r
    def h_dist(ex, st, a):
        """distance of the two configurations of the circle: 2 r sin(h + mu) (lemma L2: positive)"""
        x1, y1, x2, y2 = [P(v) for v in a]
        e = (x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1)
        w = g.r * sin(g.h + g.mu).scale(2)
        if g.kind == 'cc' and pz(e - w * w)[0]:
            return D
        return hypot(x2 - x1, y2 - y1)
    h = {}
    for n in mod.fns:
        if n.endswith(TWOPIFY): h[n] = h_twopify
        if DIST in n and n.endswith('dddd'): h[n] = h_dist
    D1, D2 = var('D1', pos=True), var('D2')
    def h_fr(ex, st, a):
        h_fresnel(ex, st, a)
    h[FRESNEL] = h_fr
    return h, D1, D2
from vcg import terms as T

def run(mod, kind, left, fw, reg, order):
    g = Geo(kind, left, fw)
    D = var('dist', pos=True)
    hd, D1, D2 = handlers(mod, g, D)
    # Fresnel values at the half deflection in terms of D1 > 0 (lemma L1) and D2
    u = atom_of(FC(sqrt((g.h / PI).scale(2)))); v = atom_of(FS(sqrt((g.h / PI).scale(2))))
    ele = {u: D1 * cos(g.h) + D2 * sin(g.h), v: D1 * sin(g.h) - D2 * cos(g.h)}
    def h_fr(ex, st, a):
        s = P(a[0]); S, C = FS(s), FC(s)
        if g.kind == 'cc': S, C = [Subst(amap=ele).poly(x) for x in (S, C)]
        ex.store(st, a[1], S, DBL); ex.store(st, a[2], C, DBL)
    hd[FRESNEL] = h_fr
    norm_after(mod, hd, '12HC_CC_Circle2D1', [D1])
    def mk(dec):
        ex = Executor(mod, dict(hd), policy=lambda e, f, c: 'split', decisions=dec)
        st = State(); ex.decider = decider
        for x in g.hyps: st.assume(x)
        ex.inputs = dict(g.inputs(), left=B(left), forward=B(fw), regular=B(reg), order=B(order))
        try: ex.call(st, 'vp_%s_turn' % kind, [])
        except Infeasible: return ex, None
        return ex, st
    for ex, st in explore(mk, 500):
        if st is None: continue
        yield g, D, ele, ex, st
from vcg.ir import DBL
def decider(ex, st, c):
    r = sign_decider(ex, st, c)
    if r is not None: return r
    hy = [h for h in list(st.pc) if len(all_atoms(h)) < 12]
    if lin_valid(hy, c, 2000): return True
    if lin_valid(hy, Not(c), 2000): return False
    return None
from vcg.prove import sign_decider

def chord_sign(g, e):
    """sign of e when it is a multiple of the dot product chord . heading = 2 r cos(h) sin(h + mu) b (positive factors: h below 1e-4 / 2, lemma L2)"""
    for s_ in (1, -1):
        for f in (ONE, g.r):
            if pz(e - (f * cos(g.h) * sin(g.h + g.mu)).scale(2 * s_))[0]: return s_
    return 0

def norm_after(mod, hd, part, cands):
    """run the real body, then replace the result by an equal simpler term (equality proved)"""
    for n in [n for n in mod.fns if part in n]:
        def h(ex, st, a, n=n):
            del ex.handlers[n]
            try: r = ex.call(st, n, a)
            finally: ex.handlers[n] = h
            for c in cands:
                if isinstance(r, Poly) and zero(r - c)[0]: return c
            return r
        hd[n] = h

FNS = {'rs': 'rs_turn_controls', 'hc': 'hc_turn_controls', 'cc': 'cc_turn_controls'}

def task_turn(mod, kind, left, fw, reg, order):
    fn = FNS[kind]
    a, b = (1 if left else -1), (1 if fw else -1)
    tag0 = '%s,%s,%s,%s,%s' % (kind, 'left' if left else 'right', 'forward' if fw else 'backward', 'regular' if reg else 'irregular', 'order' if order else 'reverse')
    leaf = 0
    first = True
    for g, D, ele, ex, st in run(mod, kind, left, fw, reg, order):
        leaf += 1
        sub = Subst(bmap=st.known)
        o = {n: [sub.poly(P(v)) for v in vs] for n, vs in outs(ex).items()}
        pc = list(st.pc)
        def ob(name, r, det='', back='alg'): return Ob('%s[%s,path%d]' % (name, tag0, leaf), fn, 'proved' if r else 'failed', back, 0, '' if r else str(det)[:300])
        if first:
            first = False
            for nm, val, sp in (('centre x', o['xc'][0], g.xc), ('centre y', o['yc'][0], g.yc), ('start x', o['xs'][0], g.x0), ('start y', o['ys'][0], g.y0), ('start heading', o['ts'][0], g.t0),
                                ('curvature', o['kc'][0], g.k.scale(a)), ('sharpness', o['sc'][0], g.sg.scale(a)), ('radius', o['rc'][0], g.r), ('inverse curvature', o['kic'][0], inv(g.k).scale(a))):
                yield Ob('circle %s[%s]' % (nm, tag0), 'HC_CC_Circle::HC_CC_Circle', 'proved' if (ang_zero(val - sp) if 'heading' in nm else zero(val - sp)[0]) else 'failed', 'alg', 0, str(val - sp)[:200])
        n = int(o['n'][0].const())
        ds, ks, sgs = o.get('ds', []), o.get('k', []), o.get('s', [])
        if len(ds) != n: raise Unsupported('controls')
        ln = o['len'][0]
        start, goal = (g.x0, g.y0, g.t0), (g.xq, g.yq, g.tq)
        if not order: start, goal = goal, start
        dirn = b if order else -b
        # signs of the lengths
        sg_of = []
        for d_ in ds:
            if is_pos(d_) or lin_valid(pc, le(ZERO, d_), 3000): sg_of.append(1)
            elif is_pos(-d_) or lin_valid(pc, le(d_, ZERO), 3000): sg_of.append(-1)
            elif all(not s.d for s in sgs): sg_of.append(0)
            else: sg_of.append(0)
        if kind == 'cc' and n == 1 and not ks[0].d and not sgs[0].d:
            # degenerate turn: a straight line of the chord length in the requested direction, only for deflections of at most 1e-4
            yield ob('deflection below tolerance', lin_valid(pc, le(g.delta, EPS), 3000), pc[-3:], 'z3')
            d0 = ds[0]
            bm = {}
            for at in all_atoms(d0):
                if at.kind == 'ite' and at.args[0].op in ('lt', 'le'):
                    v_ = chord_sign(g, at.args[0].args[0])
                    if v_: bm[at.args[0]] = v_ < 0
            if bm: d0 = Subst(bmap=bm).poly(d0)
            feas = True
            for c in pc:
                if c.op in ('lt', 'le') and len(all_atoms(c)) > 3 and chord_sign(g, c.args[0]) == 1: feas = False
            if not feas: continue
            if not zero(d0 - D.scale(dirn))[0]:
                yield ob('straight length', False, d0)
                continue
            yield ob('straight length', True)
            yield ob('turn length', zero(ln - D)[0] or zero(ln - g.rs_.scale(2))[0], ln)
            continue
        # sharpness within the limit, curvature chain
        for i in range(n):
            if not sgs[i].d: continue
            ok = zero(sgs[i] - g.sg)[0] or zero(sgs[i] + g.sg)[0]
            if ok: yield ob('sharpness %d' % i, True)
            else:
                e0 = (PI * var('D1', pos=True) * var('D1', pos=True) * inv(D) * inv(D)).scale(4)
                ok = zero(sgs[i] - e0)[0] or zero(sgs[i] + e0)[0]
                reg_ok = lin_valid(pc, And(lt(g.delta, g.dm.scale(2)), lt(g.delta, P(Fr(45948, 10000)))), 3000)
                yield ob('elementary sharpness %d' % i, ok and reg_ok, sgs[i])
                if not (ok and reg_ok): continue
        kc = None
        end_k = None
        q = start
        mcl = g.minclo() if kind != 'rs' else {}
        m = dict(ele); m.update(mcl)
        chain = True; det = ''
        expect = [(g.k0 if order else g.kq)]
        cur = g.k0 if order else g.kq
        if kind == 'cc': cur = ZERO
        for i in range(n):
            if not zero(ks[i] - cur)[0]: chain = False; det = 'segment %d starts at curvature %s, expected %s' % (i, str(ks[i])[:80], str(cur)[:80])
            if sgs[i].d and sg_of[i] == 0: chain = False; det = 'sign of a clothoid length'; break
            L = ds[i].scale(sg_of[i]) if sg_of[i] else None
            if sgs[i].d: cur = ks[i] + sgs[i] * L
            else: cur = ks[i]
            q = flow(q, ds[i], ks[i], sgs[i], sg_of[i] or 1)
            # limits: boundary values of the (monotone) curvature are 0 or kappa, or the peak of an elementary turn, whose square is
            # deflection times sharpness (<= 2 delta_min sigma = kappa^2 with lemma L3)
            for e_ in (ks[i], cur):
                lim = not e_.d or any(zero(e_ - g.k.scale(z_))[0] for z_ in (1, -1)) or kind == 'cc' and zero(e_ * e_ - g.delta * absv(sgs[i] if is_pos(sgs[i]) else -sgs[i]))[0]
                yield ob('curvature within limit %d' % i, lim, e_)
            if reg: yield ob('driving direction %d' % i, sg_of[i] == dirn or lin_valid(pc, eq(ds[i], ZERO), 2000) or not ds[i].d, '%s expected direction %+d' % (str(ds[i])[:100], dirn))
        endk = g.kq if order else (g.k0 if kind != 'cc' else ZERO)
        if chain and not zero(cur - endk)[0]: chain = False; det = 'ends at curvature %s' % str(cur)[:80]
        yield ob('curvature continuous from %s to %s' % ('start' if order else 'q', 'q' if order else 'start'), chain, det)
        if not chain: continue
        q = tuple(Subst(amap=m).poly(z) for z in q)
        el_ = any(sgs[i].d and not (zero(sgs[i] - g.sg)[0] or zero(sgs[i] + g.sg)[0]) for i in range(n))
        if el_:
            # chord of the elementary turn: b dist (cos, sin)(t0 + a b h), equal to q - start since dist = 2 r sin(h + mu)
            t_ = g.t0 + g.h.scale(a * b)
            cx, cy = cos(t_).scale(b), sin(t_).scale(b)
            w = g.r * sin(g.h + g.mu).scale(2)
            yield ob('chord direction', zero(g.xq - g.x0 - w * cx)[0] and zero(g.yq - g.y0 - w * cy)[0])
            s_ = 1 if order else -1
            ex_, ey_ = q[0] - start[0] - D * cx.scale(s_), q[1] - start[1] - D * cy.scale(s_)
        else:
            ex_, ey_ = q[0] - goal[0], q[1] - goal[1]
        ok, dt = zero(ex_, pc); yield ob('end x', ok, dt)
        ok, dt = zero(ey_, pc); yield ob('end y', ok, dt)
        et = q[2] - goal[2]
        yield ob('end heading', ang_zero(et), ang_reduce(et))
        tot = ZERO
        for i in range(n): tot = tot + (ds[i].scale(sg_of[i]) if sg_of[i] else absv(ds[i]))
        e = ln - tot
        ok = zero(e)[0]
        if not ok:
            ok = zv(pc, eq(e, ZERO), 5000)
        yield ob('turn length is the summed arc length', ok, e)
    if not leaf: raise Unsupported('no path')

def call(mod, drv, inp, hd=None, hyps=(), policy=None, dec=None):
    ex = Executor(mod, dict(hd or {}), policy=policy, decisions=dec); st = State()
    ex.decider = decider
    for x in hyps: st.assume(x)
    ex.inputs = inp
    ex.call(st, drv, [])
    sub = Subst(bmap=st.known)
    return {n: [sub.poly(P(v)) if not isinstance(v, Bool) else v for v in vs] for n, vs in outs(ex).items()}, st

def eqs(fn, tag, pairs, hyps=()):
    for nm, v, sp in pairs:
        ok, dt = zero(v - sp, hyps)
        if not ok and hyps: ok = zv(list(hyps), eq(v, sp), 5000)
        yield Ob('%s[%s]' % (nm, tag), fn, 'proved' if ok else 'failed', 'alg', 0, '' if ok else '%s expected %s' % (str(v)[:150], str(sp)[:100]))

def task_small(mod):
    k, sg = var('kappa', pos=True), var('sigma', pos=True)
    base = dict(kappa=k, sigma=sg, radius=var('radius', pos=True), mu=var('mu'), sin_mu=var('sm'), cos_mu=var('cm'), delta_min=var('dm', pos=True))
    for l in (True, False):
        a = 1 if l else -1
        for f in (True, False):
            for r in (True, False):
                o, _ = call(mod, 'vp_circle_at', dict(base, xc=var('xc'), yc=var('yc'), left=B(l), forward=B(f), regular=B(r)))
                o = {n: P(v[0]) if not isinstance(v[0], Bool) else v[0] for n, v in o.items()}
                tag = '%s,%s,%s' % (l, f, r)
                yield from eqs('HC_CC_Circle::HC_CC_Circle', tag, [('xc', o['xc'], var('xc')), ('yc', o['yc'], var('yc')), ('kappa', o['kc'], k.scale(a)), ('sigma', o['sc'], sg.scale(a)), ('kappa_inv', o['kic'], inv(k).scale(a)),
                        ('radius', o['rc'], base['radius']), ('mu', o['mc'], base['mu']), ('sin mu', o['smc'], base['sin_mu']), ('cos mu', o['cmc'], base['cos_mu']), ('left', o['left'], P(int(l))), ('forward', o['fw'], P(int(f))), ('regular', o['reg'], P(int(r)))])
    x, y, t = var('x0'), var('y0'), var('t0')
    for sgn_ in (1, -1):
        L = var('L', pos=True).scale(sgn_)
        o, st = call(mod, 'vp_straight', dict(x0=x, y0=y, t0=t, k0=ZERO, xq=x + L * cos(t), yq=y + L * sin(t), tq=t, kq=ZERO))
        d_ = o['ds'][0]
        yield from eqs('straight_controls', 'L%+d' % sgn_, [('one control', o['n'][0], ONE), ('length', resolve(d_), L), ('curvature', o['k'][0], ZERO), ('sharpness', o['s'][0], ZERO)])
    o, _ = call(mod, 'vp_empty', {})
    yield from eqs('empty_controls', '', [('one control', o['n'][0], ONE), ('length', o['ds'][0], ZERO), ('curvature', o['k'][0], ZERO), ('sharpness', o['s'][0], ZERO)])
    for sgn_ in (1, -1):
        L = var('L', pos=True)
        o, _ = call(mod, 'vp_reverse', dict(ds=L.scale(sgn_), k=var('k'), s=var('s')))
        yield from eqs('reverse_control', 'dir%+d' % sgn_, [('length', o['ds'][0], L.scale(-sgn_)), ('curvature', o['k'][0], var('k') + var('s') * L), ('sharpness', o['s'][0], -var('s'))])
    for s1 in (1, -1):
        for s2 in (1, -1):
            for s3 in (1, -1):
                A, E = var('A', pos=True), var('E', pos=True)
                # ds1 - ds2 = s3 E, with ds1 = s1 A ; ds2 of sign s2
                ds1 = A.scale(s1); ds2 = ds1 - E.scale(s3)
                hy = [lt(ZERO, ds2.scale(s2))]
                if not feasible(hy): continue
                o, _ = call(mod, 'vp_subtract', dict(ds1=ds1, k1=var('k1'), s1=var('s1'), ds2=ds2, k2=var('k2'), s2=var('s1').scale(s1 * s2)), hyps=hy)
                yield from eqs('subtract_control', '%+d%+d%+d' % (s1, s2, s3), [('length', o['ds'][0], E.scale(s3)), ('curvature', o['k'][0], var('k1')), ('sharpness', o['s'][0], var('s1').scale(s1 * s3))], hy)

def feasible(hy): return not lin_valid(list(hy), FALSE, 3000)

def resolve(d_):
    """decide comparisons of provably positive/negative quantities"""
    bm = {}
    for at in all_atoms(d_):
        if at.kind == 'ite' and at.args[0].op in ('lt', 'le'):
            n, dd, sd = normal(at.args[0].args[0])
            n = n.scale(1 / dd.const()) if dd.isconst() else n
            if is_pos(n): bm[at.args[0]] = False
            elif is_pos(-n): bm[at.args[0]] = True
    return Subst(bmap=bm).poly(d_) if bm else d_

def task_param(mod):
    """constructor: radius (sin mu, cos mu) is the centre of the circle reached by the minimal clothoid (lemma L0: it lies in the first quadrant)"""
    k, sg = var('kappa', pos=True), var('sigma', pos=True)
    R, M = var('R', pos=True), var('M')
    dm = (k * k / sg).scale(Fr(1, 2))
    u = k * inv(sqrt(sg)) * inv(sqrt(PI)); f = sqrt(sg) * inv(sqrt(PI))
    mp = {atom_of(FC(u)): f * (R * sin(M) + sin(dm) * inv(k)), atom_of(FS(u)): f * (R * cos(M) - cos(dm) * inv(k))}
    def h_fr(ex, st, a):
        s = P(a[0]); ex.store(st, a[1], Subst(amap=mp).poly(FS(s)), DBL); ex.store(st, a[2], Subst(amap=mp).poly(FC(s)), DBL)
    fn = 'HC_CC_State_Space::HC_CC_State_Space'
    for big in (True, False):
        hy = [lt(EPS, k * inv(sg))] if big else [le(k * inv(sg), EPS)]
        o, st = call(mod, 'vp_param_cc00d', dict(kappa=k, sigma=sg, disc=var('disc', pos=True)), {FRESNEL: h_fr}, hy)
        o = {n: v[0] for n, v in o.items()}
        am = {}
        if big:
            for v in o.values():
                for at in all_atoms(v):
                    if at.kind == 'atan':
                        z = at.args[0]
                        if zero(z * z * cos(M) * cos(M) - sin(M) * sin(M))[0] and nonneg_syn(z): am[at] = M
                    if at.kind == 'sqrt' and zero(at.args[0] - R * R)[0]: am[at] = R
                    if at.kind == 'abs' and at.args[0] in (sin(M), cos(M)): am[at] = at.args[0]   # lemma L0
            sub = Subst(amap=am)
            o = {n: sub.poly(v) for n, v in o.items()}
        X_, Y_ = (R * sin(M), R * cos(M)) if big else (ZERO, inv(k))
        yield from eqs(fn, 'long' if big else 'short', [('kappa', o['kappa'], k), ('kappa_inv', o['kinv'], inv(k)), ('sigma', o['sigma'], sg), ('delta_min', o['dmin'], dm),
                       ('radius sin mu', o['r'] * o['smu'], X_), ('radius cos mu', o['r'] * o['cmu'], Y_), ('sin mu', o['smu'], sin(o['mu'])), ('cos mu', o['cmu'], cos(o['mu'])), ('radius', o['r'], R if big else inv(k))])
    for n in ('hcpmpm', 'hc0pm', 'hcpm0', 'hc00', 'cc0pm', 'ccpm0', 'ccpmpm'):
        def h_fr2(ex, st, a): h_fresnel(ex, st, a)
        o, st = call(mod, 'vp_rsparam_' + n, dict(kappa=k, sigma=sg, disc=var('disc', pos=True)), {FRESNEL: h_fr2})
        o = {n_: v[0] for n_, v in o.items()}
        yield from eqs('rs_circle_param_ of ' + n, n, [('kappa', o['kappa'], k), ('kappa_inv', o['kinv'], inv(k)), ('radius', o['r'], inv(k)), ('mu', o['mu'], ZERO), ('sin mu', o['smu'], ZERO), ('cos mu', o['cmu'], ONE), ('delta_min', o['dmin'], ZERO)])

def nonneg_syn(z): return is_nonneg(z) or all(ATOMS[a].kind == 'abs' or ATOMS[a].pos or e % 2 == 0 for m in z.d for a, e in m) and all(c > 0 for c in z.d.values())

def tasks(mod, prop):
    R = [('small', task_small, (mod,)), ('param', task_param, (mod,))]
    for kind in ('rs', 'hc', 'cc'):
        for l in (True, False):
            for f in (True, False):
                for r in (True, False):
                    for o in (True, False): R.append(('%s %s %s %s %s' % (kind, l, f, r, o), task_turn, (mod, kind, l, f, r, o)))
    return R
