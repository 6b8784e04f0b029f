"""C14-C16, C18-C21: the curvature-continuous planners, against the contracts of the turn primitives (C13).
The real get_controls / get_distance run for one symbolic query per (pair of turning circles, path family): the branch structure is kept
by merging in passive form, the family is the index returned by array_index_min (contract C07), the calls of the turn primitives are
recorded as events and must chain from the start state to the goal state."""
from vcg.ctx import *
from vcg.flow import *
from vcg.calc import *
from vcg.ir import DBL
from contracts.words import pz, side_ok
from contracts.motion import zero
from vcg.prove import lin_valid, z3_valid, zv, valid, sign_decider
from vcg import terms as T
import time, re
from vcg.exec import Ptr, cstr

EPS = P(Fr(1, 10**4)); HPI = PI.scale(Fr(1, 2)); TPI = PI.scale(2)
# space -> (class, start curvature is maximal, end curvature is maximal, Dubins, continuous curvature)
SPACES = {
    'cc00d': ('CC00_Dubins_State_Space', 0, 0, True, True), 'cc0pmd': ('CC0pm_Dubins_State_Space', 0, 1, True, True),
    'ccpm0d': ('CCpm0_Dubins_State_Space', 1, 0, True, True), 'ccpmpmd': ('CCpmpm_Dubins_State_Space', 1, 1, True, True),
    'cc00rs': ('CC00_Reeds_Shepp_State_Space', 0, 0, False, True), 'hc00': ('HC00_Reeds_Shepp_State_Space', 0, 0, False, False),
    'hc0pm': ('HC0pm_Reeds_Shepp_State_Space', 0, 1, False, False), 'hcpm0': ('HCpm0_Reeds_Shepp_State_Space', 1, 0, False, False),
    'hcpmpm': ('HCpmpm_Reeds_Shepp_State_Space', 1, 1, False, False)}

def names(mod, part): return [n for n in mod.fns if part in n]

def out_name(e, s, a): return cstr(e, s, a[0])
OMAP = {}     # query -> position of the length of the k-th examined pair in the array of lengths
class Run:
    """one symbolic run: query in which circle pair number `pair` (order of calls) is selected with family `fam`"""
    def __init__(self, mod, space, pair, fam, inputs, fw=True, hyps=(), drv='ctl', outer=None):
        self.mod, self.space, self.pair, self.fam, self.want = mod, space, pair, fam, outer
        self.drv = drv
        self.events = []; self.ncalls = 0; self.depth = 0; self.sel = None; self.lens = None; self.sizes = None
        self.pairinfo = []
        ex = self.ex = Executor(mod, {}, policy=lambda e, f, c: 'merge'); ex.naming = True; ex.strict = True
        st = self.st = State()
        H = ex.handlers
        for n in names(mod, '12HC_CC_CircleES'):
            if 'circles' in n and n.startswith('_ZNK8steering') and 'Path' not in n[:0]: H[n] = self.wrap_circles(n)
        for k in ('rs', 'hc', 'cc'):
            for n in names(mod, '16%s_turn_controlsE' % k):
                if n.startswith('_ZN8steering'): H[n] = self.h_turn(k)
            for n in names(mod, '14%s_turn_lengthE' % k):
                if n.startswith('_ZNK8steering'): H[n] = self.h_len(k)
        for n in names(mod, 'HC_CC_Circle_Param9set_paramE'): H[n] = self.h_param(n)
        for n in names(mod, '17straight_controlsE'): H[n] = self.h_straight
        for n in names(mod, '14empty_controlsE'): H[n] = self.h_empty
        self.sos = set()
        for n in names(mod, '14point_distanceE'): H[n] = self.h_dist
        for n in names(mod, '15array_index_minE'): H[n] = self.h_min
        for n in names(mod, '19configuration_equalE'): H[n] = self.h_pred('cfg_equal', ('q', 'q'))
        for n in names(mod, '21configuration_alignedE'): H[n] = self.h_pred('cfg_aligned', ('q', 'q'))
        for n in names(mod, '29configuration_on_hc_cc_circleE'): H[n] = self.h_pred('on_circle', ('c', 'q'))
        self.preds = {}
        for h in hyps: st.assume(h)
        ex.inputs = dict(inputs, forwards=B(fw))
        out = H['__vcg_out']
        def h_out(e, s, a):
            n = out_name(e, s, a)
            if n == 'begin': self.begin(e, s)
            if n == 'end': self.finish(e, s)
            return out(e, s, a)
        H['__vcg_out'] = h_out
        self.ret = ex.call(st, 'vp_%s_%s' % (drv, space), [])
        self.out = outs(ex)
    def begin(self, ex, st): pass
    def finish(self, ex, st): pass
    # ---- snapshots through accessor drivers (independent of the memory layout)
    def snap(self, ex, st, fn, p):
        save = ex.outs; ex.outs = []
        try:
            ex.call(st, fn, [p])
            return {n: v for n, v, pc in ex.outs}
        finally: ex.outs = save
    def cfg(self, ex, st, p): return self.snap(ex, st, 'vp_snap_cfg', p)
    def circ(self, ex, st, p): return self.snap(ex, st, 'vp_snap_circle', p)
    # ---- handlers
    def h_param(self, n):
        """contract of the base constructor (C13): the parameters of the minimal clothoid, here symbolic"""
        def h(ex, st, a):
            if P(a[2]) == BIG: return NotImplemented
            i = ex.inputs
            del ex.handlers[n]
            try: return ex.call(st, n, [a[0], i['kappa'], i['sigma'], i['radius'], i['mu'], i['sin_mu'], i['cos_mu'], i['delta_min']])
            finally: ex.handlers[n] = h
        return h
    def wrap_circles(self, n):
        def h(ex, st, a):
            if self.depth: return NotImplemented
            k = self.ncalls; self.ncalls += 1
            c1, c2 = self.circ(ex, st, a[-2]), self.circ(ex, st, a[-1])
            self.pairinfo.append((c1, c2))
            del ex.handlers[n]
            self.depth = 2 if k == self.pair else 1
            try: r = ex.call(st, n, a)
            finally: ex.handlers[n] = h; self.depth = 0
            return r
        return h
    def h_min(self, ex, st, a):
        size = a[1] if isinstance(a[1], int) else int(P(a[1]).const())
        vals = [ex.load(st, Ptr([(g, o, f + 8 * i) for g, o, f in a[0].t]), DBL) for i in range(size)]
        if self.depth == 2:
            self.lens = vals; self.nfam = size
            if self.fam >= size: raise Infeasible('family')
            return self.fam
        if self.depth == 1:      # a pair that is not selected: a path of some other length
            ex.store(st, a[0], var('plen#%d' % (self.ncalls - 1)), DBL)
            return 0
        self.outer = vals
        if self.want is not None: return self.want
        if self.pair < 0:
            n = {str(v): i for i, v in enumerate(vals)}
            OMAP[self.okey()] = [n.get('plen#%d' % k) for k in range(self.ncalls)]
            return 0
        om = OMAP[self.okey()]
        if self.pair >= len(om) or om[self.pair] is None: raise Unsupported('length of a pair of circles is not compared')
        self.outer_idx = om[self.pair]
        return self.outer_idx
    def okey(self): return (self.space, self.drv, str(self.ex.inputs['forwards']), str(self.ex.inputs['k1']), str(self.ex.inputs['k2']))
    def h_turn(self, k):
        def h(ex, st, a):
            self.events.append(('turn', k, self.circ(ex, st, a[0]), self.cfg(ex, st, a[1]), a[2], st.pc))
        return h
    def h_dist(self, ex, st, a):
        x1, y1, x2, y2 = [P(v) for v in a]; dx, dy = x2 - x1, y2 - y1
        r = sqrt(dx * dx + dy * dy)
        for at in r.atoms():
            if at.kind == 'sqrt': self.sos.add(at.id)
        return r
    def h_straight(self, ex, st, a): self.events.append(('straight', self.cfg(ex, st, a[0]), self.cfg(ex, st, a[1]), st.pc))
    def h_empty(self, ex, st, a): self.events.append(('empty', st.pc))
    def lenkey(self, k, c, q):
        f = [c['left'], c['forward'], c['regular']]
        f = [P(x) if not isinstance(x, Bool) else ite(x, ONE, ZERO) for x in f]
        f += [P(c[n]) for n in ('x', 'y', 't', 'kappa', 'sigma', 'radius', 'sm', 'cm', 'dm')] + [P(q[n]) for n in ('x', 'y', 't')]
        return fn(k + '_len', *f)
    def h_len(self, k):
        def h(ex, st, a):
            c, q = self.circ(ex, st, a[0]), self.cfg(ex, st, a[1])
            return self.lenkey(k, c, q)
        return h
    def h_pred(self, name, kinds):
        def h(ex, st, a):
            if self.depth == 1 and name == 'cfg_equal': return TRUE      # pairs that are not selected: any path object will do
            sn = [self.circ(ex, st, p) if kd == 'c' else self.cfg(ex, st, p) for kd, p in zip(kinds, a)]
            key = (name,) + tuple(tuple(sorted((n, v) for n, v in s.items())) for s in sn)
            b = self.preds.get(key)
            if b is None:
                b = bvar('%s#%d' % (name, len(self.preds))); self.preds[key] = b
            return b
        return h

# ---------------------------------------------------------------- symbolic query for a pair of circles
K_, SG, RAD, MU = var('kappa', pos=True), var('sigma', pos=True), var('radius', pos=True), var('mu')
X, Y, D, PH, T1, T2 = var('X'), var('Y'), var('D', pos=True), var('phi'), var('t1'), var('t2')
def base_inputs():
    return dict(kappa=K_, sigma=SG, disc=var('disc', pos=True), radius=RAD, mu=MU, sin_mu=sin(MU), cos_mu=cos(MU), delta_min=(K_ * K_ / SG).scale(Fr(1, 2)),
                x1=var('x1'), y1=var('y1'), t1=T1, k1=ZERO, x2=var('x2'), y2=var('y2'), t2=T2, k2=ZERO, d=var('d'))
def btrue(v):
    if isinstance(v, Bool): return True if v is TRUE else False if v is FALSE else None
    if isinstance(v, int): return bool(v)
    p = P(v); return bool(p.const()) if p.isconst() else None
def sgn(v):
    b = btrue(v)
    if b is None: raise Unsupported('orientation not constant')
    return 1 if b else -1
def signed(inp, s1, s2):
    """states that carry a curvature of the given sign (0: none)"""
    return dict(inp, k1=var('k1', pos=True).scale(s1) if s1 else ZERO, k2=var('k2', pos=True).scale(s2) if s2 else ZERO)
def probe(mod, space, fw, s1=0, s2=0):
    """the circle pairs the planner examines, in call order"""
    for d in ('ctl', 'dist'):
        R = Run.__new__(Run)
        try: R.__init__(mod, space, -1, 0, signed(base_inputs(), s1, s2), fw, drv=d)
        except Infeasible: pass
    return R.pairinfo
def offs(c, t):
    """centre of the circle minus its start"""
    return rot(t, (P(c['radius']) * P(c['sm'])).scale(sgn(c['forward'])), (P(c['radius']) * P(c['cm'])).scale(sgn(c['left'])))
def query(info, dist=D):
    """inputs for which the circles of the pair have centres (X, Y) and (X, Y) + dist (cos phi, sin phi)"""
    c1, c2 = info; inp = base_inputs()
    d1, d2 = offs(c1, T1), offs(c2, T2)
    inp.update(x1=X - d1[0], y1=Y - d1[1], x2=X + dist * cos(PH) - d2[0], y2=Y + dist * sin(PH) - d2[1])
    return inp

# ---------------------------------------------------------------- resolution of merged values
def exp_b(R, b):
    if b.op == 'bvar' and b in R.ex.bdefs: return exp_b(R, R.ex.bdefs[b])
    if b.op == 'nbvar' and Not(b) in R.ex.bdefs: return Not(exp_b(R, R.ex.bdefs[Not(b)]))
    if b.op == 'and': return And(*[exp_b(R, x) for x in b.args])
    if b.op == 'or': return Or(*[exp_b(R, x) for x in b.args])
    return b
def phis(R, vals):
    for v in vals:
        for a in all_atoms(v):
            if a.kind == 'var' and P(a) in R.ex.defs: return a
def leaves(R, vals, hyps=(), env=None):
    """[(hyps, vals, env)] with all merged values resolved; env: merged value -> branch"""
    hyps = list(hyps); env = dict(env or {}); vals = list(vals)
    while True:
        s = Subst(amap=env)
        vals = [s.val(v) for v in vals]
        at = phis(R, vals)
        if at is None:
            yield hyps, vals, env; return
        kn = Subst(amap=env, bmap=assume_map(hyps))
        while True:
            c, x, y = R.ex.defs[P(at)]
            c = kn.bool(exp_b(R, c))
            b = phis(R, [c])
            if b is None: break
            at = b
        if c is TRUE or c is FALSE:
            x = Subst(amap=env).poly(x if c is TRUE else y); s = Subst(amap={at: x})
            env = {k: s.poly(v) for k, v in env.items()}; env[at] = x; continue
        l = split_cond(c)
        for b in (l, Not(l)): yield from leaves(R, vals, hyps + [b], env)
        return

# ---------------------------------------------------------------- the chain of primitives
CF = ('x', 'y', 't', 'k', 'left', 'forward', 'regular', 'xc', 'yc', 'kappa', 'kinv', 'sigma', 'radius', 'mu', 'sm', 'cm', 'dm'); QF = ('x', 'y', 't', 'k')
def bp(v): return ite(v, ONE, ZERO) if isinstance(v, Bool) else P(v)
def flatten(evs):
    vals = []
    for e in evs:
        if e[0] == 'turn': vals += [bp(e[2][n]) for n in CF] + [bp(e[3][n]) for n in QF] + [bp(e[4])]
        elif e[0] == 'straight': vals += [bp(e[i][n]) for i in (1, 2) for n in QF]
    return vals
def unflatten(evs, vals):
    out = []; i = 0
    for e in evs:
        if e[0] == 'turn':
            c = dict(zip(CF, vals[i:i + 17])); q = dict(zip(QF, vals[i + 17:i + 21])); out.append(('turn', e[1], c, q, vals[i + 21])); i += 22
        elif e[0] == 'straight':
            out.append(('straight', dict(zip(QF, vals[i:i + 4])), dict(zip(QF, vals[i + 4:i + 8])))); i += 8
        else: out.append(e[:1])
    return out

for _v in (sin(MU), cos(MU)): ATOMS[next(iter(_v.atoms())).id].pos = True      # lemma L0: 0 < mu < pi/2
_S2, _C2 = sin(MU) * sin(MU), cos(MU) * cos(MU)
BASEHY = [lt(ZERO, sin(MU)), lt(ZERO, cos(MU)), lt(sin(MU), ONE), lt(cos(MU), ONE), eq(_S2 + _C2, ONE), lt(inv(K_), RAD), lt(inv(K_), RAD * cos(MU)), le(P(Fr(1, 1000)), RAD), le(P(Fr(1, 1000)), inv(K_))]
def lem(v):
    """sqrt(1 - cos^2 mu) = sin mu, sqrt(1 - sin^2 mu) = cos mu"""
    if not isinstance(v, Poly): return v
    m = {}
    for a in all_atoms(v):
        if a.kind == 'sqrt':
            if a.args[0] == ONE - _C2: m[a] = sin(MU)
            elif a.args[0] == ONE - _S2: m[a] = cos(MU)
    return Subst(amap=m).poly(v) if m else v

class Leaf:
    """one resolved run: events, hypotheses, permitted residuals"""
    def __init__(self, mod, space, pair, fam, fw, R, inp, hyps, length, evs, tag):
        self.__dict__.update(mod=mod, space=space, pair=pair, fam=fam, fw=fw, R=R, inp=inp, length=lem(length), tag=tag)
        self.hyps = [h for h in hyps]
        self.evs = [tuple({n: lem(v) for n, v in x.items()} if isinstance(x, dict) else x for x in e) for e in evs]
        self.obs = []
        # |D - E| < eps in the guard: E is where the tolerance family is exact
        self.dsub = []
        for h in literals(And(*self.hyps)):
            if h.op in ('lt', 'le'):
                for a in all_atoms(h):
                    if a.kind == 'abs':
                        n = a.args[0]; k = diff(n, atom_of(D))
                        if k.d and not diff(k, atom_of(D)).d:
                            E = D - n / k
                            if diff(E, atom_of(D)).d: continue
                            # the guard must keep |D - E| within 1e-4
                            t = (D - E); 
                            ok = self.lin([h], And(le(t, EPS), le(-t, EPS)))
                            self.ob('tolerance of the guard', ok, str(h)[:150], 'z3')
                            self.dsub.append(E)
                if D.atoms() and self.lin([h], le(D, EPS)): self.dsub.append(ZERO)
        self.vec = []; self.ang = []       # residual vectors / angles bounded by a true predicate (contracts: pred_obls)
        for key, b in R.preds.items():
            if b not in self.hyps: continue
            a1, a2 = [{n: lem(v) for n, v in z} for z in key[1:]]
            if key[0] == 'cfg_equal':
                self.vec.append((a1['x'] - a2['x'], a1['y'] - a2['y'])); self.ang.append(a1['t'] - a2['t'])
            elif key[0] == 'cfg_aligned':
                self.ang.append(a1['t'] - a2['t']); self.vec.append(((a2['x'] - a1['x']) * sin(a1['t']) - (a2['y'] - a1['y']) * cos(a1['t']), None))
            else:
                o = rot(a2['t'], (P(a1['radius']) * P(a1['sm'])).scale(sgn(a1['forward'])), (P(a1['radius']) * P(a1['cm'])).scale(-sgn(a1['left'])))
                self.vec.append((a2['x'] - a1['xc'] - o[0], a2['y'] - a1['yc'] - o[1]))
    def lin(self, hy, g):
        return lin_valid(list(hy), g, 3000)
    def ob(self, name, ok, det='', back='alg', secs=0):
        self.obs.append(Ob('%s[%s]' % (name, self.tag), self.fn, 'proved' if ok else 'failed', back, secs, '' if ok else str(det)[:300]))
        return ok
    @property
    def fn(self): return '%s::get_controls' % SPACES[self.space][0]
    def hy(self): return self.hyps + BASEHY
    def z(self, p): return zero(p, self.hy())
    def vec0(self, name, dx, dy):
        """the vector (dx, dy) is zero, or within the tolerance the guard of the family allows"""
        t = time.time(); dx, dy = lem(dx), lem(dy)
        r1, r2 = self.z(dx), self.z(dy)
        ok = r1[0] and r2[0]; how = 'alg'
        if not ok:
            for v in self.vec:
                if v[1] is None: continue
                for sg in (1, -1):
                    if self.z(dx - v[0].scale(sg))[0] and self.z(dy - v[1].scale(sg))[0]: ok = True; how = 'alg (within the tolerance of a predicate)'; break
                if ok: break
        if not ok:
            for E in self.dsub:
                f = Subst(amap={atom_of(D): E})
                if self.z(lem(f.poly(dx)))[0] and self.z(lem(f.poly(dy)))[0]: ok = True; how = 'alg (exact at the centre of the tolerance)'; break
        return self.ob(name, ok, '(%s, %s)' % (str(dx)[:140], str(dy)[:140]), how, time.time() - t)
    def ang0(self, name, p):
        t = time.time()
        p = lem(p)
        def iz(q): return ang_zero(q) or (self.z(sin(q))[0] and self.z(cos(q) - ONE)[0])
        ok = iz(p)
        if not ok: ok = any(iz(p - v) or iz(p + v) for v in self.ang)
        if not ok: ok = any(iz(lem(Subst(amap={atom_of(D): E}).poly(p))) for E in self.dsub)
        return self.ob(name, ok, str(ang_reduce(p))[:200], 'alg', time.time() - t)
    def eq0(self, name, p):
        r = self.z(lem(p)); return self.ob(name, r[0], r[1])

    # ---- C14-C16: the primitives lead from start to goal
    def chain(self):
        start = {n: self.inp[n + '1'] for n in 'xyt'}; goal = {n: self.inp[n + '2'] for n in 'xyt'}
        at = start; prev = 'start'
        for n, e in enumerate(self.evs):
            t = 'segment %d ' % (n + 1)
            if e[0] == 'empty': continue
            if e[0] == 'turn':
                k, c, q = e[1:4]; a, b = sgn(c['left']), sgn(c['forward']); od = btrue(e[4])
                s = {m: c[m] for m in 'xyt'}
                o = offs(c, c['t'])
                self.vec0(t + 'circle centre', c['xc'] - c['x'] - o[0], c['yc'] - c['y'] - o[1])
                if k == 'rs': prm = [('radius', c['radius'], inv(K_)), ('sin mu', c['sm'], ZERO), ('cos mu', c['cm'], ONE), ('mu', c['mu'], ZERO), ('delta_min', c['dm'], ZERO)]
                else: prm = [('radius', c['radius'], RAD), ('sin mu', c['sm'], sin(MU)), ('cos mu', c['cm'], cos(MU)), ('mu', c['mu'], MU), ('sharpness', c['sigma'], SG.scale(a)), ('delta_min', c['dm'], (K_ * K_ / SG).scale(Fr(1, 2)))]
                for nm, u, v in prm + [('curvature', c['kappa'], K_.scale(a)), ('inverse curvature', c['kinv'], inv(K_).scale(a))]: self.eq0(t + 'circle ' + nm, u - v)
                if k == 'cc': o = rot(q['t'], (c['radius'] * c['sm']).scale(b), (c['radius'] * c['cm']).scale(-a))
                else: o = rot(q['t'], ZERO, -c['kinv'])
                self.vec0(t + 'ends on its circle', q['x'] - c['xc'] - o[0], q['y'] - c['yc'] - o[1])
                f, g = (s, q) if od else (q, s)
            else:
                f, g = e[1], e[2]
                dx, dy = g['x'] - f['x'], g['y'] - f['y']
                lat, lat2 = [lem(dx * sin(u['t']) - dy * cos(u['t'])) for u in (f, g)]
                ok = self.z(lat)[0] or any(v[1] is None and (self.z(l_ - v[0])[0] or self.z(l_ + v[0])[0]) for v in self.vec for l_ in (lat, lat2))
                self.ob(t + 'straight along the heading', ok, lat)
                self.ang0(t + 'straight keeps the heading', g['t'] - f['t'])
            self.vec0('%s starts where %s ends' % (t, prev), f['x'] - at['x'], f['y'] - at['y']); self.ang0('%sstarts with the heading of %s' % (t, prev), f['t'] - at['t'])
            at = g; prev = t
        self.vec0('ends at the goal', at['x'] - goal['x'], at['y'] - goal['y']); self.ang0('ends with the goal heading', at['t'] - goal['t'])
    def ends(self, dirs=True):
        """(start curvature, end curvature, driving direction or None) per primitive; curvature as multiple of kappa"""
        out = []
        for e in self.evs:
            if e[0] == 'empty': out.append((0, 0, 0)); continue
            if e[0] == 'straight': out.append((0, 0, self.sdir(e) if dirs else None)); continue
            k, c = e[1], e[2]; a = sgn(c['left']); od = btrue(e[4])
            ks, kq = (a if k == 'rs' else 0), (0 if k == 'cc' else a)
            d = sgn(c['forward']) * (1 if od else -1)
            out.append(((ks, kq) if od else (kq, ks)) + (d if btrue(c['regular']) else None,))
        return out
    def sdir(self, e):
        f, g = e[1], e[2]
        for h in self.hyps:                               # contract of configuration_aligned: the second lies ahead of the first
            for key, b in self.R.preds.items():
                if b is h and key[0] == 'cfg_aligned':
                    a1, a2 = [dict(z) for z in key[1:]]
                    for sg, u, v in ((1, a1, a2), (-1, a2, a1)):
                        if all(self.z(u[n] - f[n])[0] and self.z(v[n] - g[n])[0] for n in 'xy'): return sg
        pr = lem((g['x'] - f['x']) * cos(f['t']) + (g['y'] - f['y']) * sin(f['t']))
        n, d, sd = normal(pr)
        n, d = lem(n), lem(d)
        p = n * d
        for s in (1, -1):
            if self.nonneg(p.scale(s)): return s
        return None
    def nonneg(self, p): return is_nonneg(p) or zv(self.hy(), le(ZERO, p), 10000)
    def direction(self):
        want = 1 if self.fw else -1
        for n, e in enumerate(self.ends()):
            if self.evs[n][0] == 'empty': continue
            self.ob('segment %d drives %s' % (n + 1, 'forwards' if self.fw else 'backwards'), e[2] == want, 'direction %s' % e[2], 'z3')
    def boundary(self):
        _, p1, p2, dub, cc = SPACES[self.space]
        if self.evs and all(e[0] == 'empty' for e in self.evs): return
        es = self.ends(False)
        self.ob('starts with the promised curvature', bool(es) and abs(es[0][0]) == p1, es); self.ob('ends with the promised curvature', bool(es) and abs(es[-1][1]) == p2, es)
    def junctions(self):
        _, p1, p2, dub, cc = SPACES[self.space]
        evs = [e for e in self.evs if e[0] != 'empty']
        es = [e for e, v in zip(self.ends(False), self.evs) if v[0] != 'empty']
        for n, (u, v) in enumerate(zip(es, es[1:])):
            if u[1] != v[0] and not cc:
                if evs[n][0] == 'straight': u = u[:2] + (self.sdir(evs[n]),)
                if evs[n + 1][0] == 'straight': v = v[:2] + (self.sdir(evs[n + 1]),)
            ok = u[1] == v[0] or not cc and u[2] is not None and v[2] is not None and u[2] == -v[2]
            self.ob('curvature between segments %d and %d' % (n + 1, n + 2), ok, '%s -> %s' % (u, v), 'alg+z3')
    def sumlen(self):
        """the length used for the choice is the sum of the lengths of the primitives (their lengths: C13)"""
        t = time.time(); tot = ZERO
        for e in self.evs:
            if e[0] == 'turn': tot = tot + self.R.lenkey(e[1], {n: P(v) for n, v in e[2].items()}, {n: P(v) for n, v in e[3].items()})
            elif e[0] == 'straight':
                dx, dy = e[1]['x'] - e[2]['x'], e[1]['y'] - e[2]['y']
                tot = tot + sqrt(dx * dx + dy * dy)
        r = self.leneq(tot, self.length)
        return self.ob('path length is the sum of the segment lengths', r, lem(self.length - tot), 'alg', time.time() - t)
    def select(self):
        """the length compared between circle pairs is the length of this path"""
        o = [lem(Subst(amap=self.env).poly(P(v))) for v in self.R.outer]
        k = self.R.outer_idx
        self.ob('length compared between circle pairs', o[k] == self.length or self.leneq(o[k], self.length), '%s' % str(o[k])[:200])
    def leneq(self, x, y):
        d = lem(x - y)
        if not d.d or self.z(d)[0]: return True
        # turn lengths with provably equal arguments
        def parts(p):
            fs, rest = [], {}
            for m, c in p.d.items():
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind.endswith('_len'): fs.append((ATOMS[m[0][0]], c))
                else: rest[m] = c
            return fs, Poly(rest)
        fs, rest = parts(d)
        if not self.z(rest)[0]: return False
        while fs:
            a, c = fs.pop()
            for i, (b, k) in enumerate(fs):
                if k == -c and a.kind == b.kind and all(self.z(u - v)[0] for u, v in zip(a.args, b.args)): del fs[i]; break
            else: return False
        return True
    def domains(self):
        """arguments of sqrt, asin, acos are in the domain, or the same term makes the length of the path not-a-number, so that the family is
        never the shortest (a comparison with NaN is false)"""
        inlen = {a.id for a in all_atoms(self.length)}
        for a, p in self.domain_atoms(flatten(self.evs)):
            if a.id in inlen: self.ob('argument of %s in its domain' % a.kind, True, '', 'NaN excluded by the length'); continue
            t = time.time(); ok = self.dom(p)
            self.ob('argument of %s in its domain' % a.kind, ok, p, 'z3', time.time() - t)
    def domain_atoms(self, vals):
        seen = set()
        for v in vals:
            for a in all_atoms(v):
                if a.id in seen: continue
                seen.add(a.id)
                if a.kind == 'sqrt': yield a, a.args[0]
                elif a.kind in ('asin', 'acos'): yield a, ONE - a.args[0] * a.args[0]
    def inrange(self):
        """hypotheses: the length is a number"""
        out = []
        for a, p in self.domain_atoms([self.length]):
            if a.id in self.R.sos: continue
            try:
                n, d, sd = normal(p); out.append(le(ZERO, lem(n) * lem(d)))
            except Unsupported: pass
        return out
    def dom(self, p):
        if self.dom_(p): return True
        return any(self.dom_(lem(Subst(amap={atom_of(D): E}).poly(p))) for E in self.dsub)
    def dom_(self, p):
        if is_nonneg(p): return True
        try:
            n, d, sd = normal(p); n, d = lem(n), lem(d)
            q = n * d
        except Unsupported: q = p
        return is_nonneg(q) or self.nonneg(q)

def tagof(space, fw, pair, fam, info, n): 
    def o(c): return ('L' if btrue(c['left']) else 'R') + ('+' if btrue(c['forward']) else '-')
    return '%s%s,pair %s%s,family %d%s' % (space, '' if not SPACES[space][3] else ',forwards' if fw else ',backwards', o(info[0]), o(info[1]), fam, ',case %d' % n if n > 1 else '')
def fam_leaves(mod, space, info, pair, fam, fw, dist=D, drv='ctl'):
    inp = query(info, dist)
    R = Run.__new__(Run); R.lens = None
    try: R.__init__(mod, space, pair, fam, inp, fw, drv=drv)
    except Infeasible as e:
        if R.lens is None or fam >= len(R.lens): return
        for h0, (l,), env in leaves(R, [P(R.lens[fam])]):
            if l == BIG: continue
            if dist is not D and ('zero' in str(e) or zv([x for y in h0 for x in literals(y)] + BASEHY, FALSE, 5000)): continue
            yield Ob('selected path can be turned into controls[%s]' % tagof(space, fw, pair, fam, info, 1), '%s::get_controls' % SPACES[space][0], 'failed', 'vcgen', 0, str(e))
        return
    n = 0
    for c in R.st.pc:
        # coinciding centres: a family that divides by their distance gets the length NaN (acos of x/0) and is never selected
        if dist is D and not zv(BASEHY, exp_b(R, c), 5000): raise Unsupported('path condition %s' % str(c)[:100])
    for h0, (l,), env in leaves(R, [P(R.lens[fam])]):
        if l == BIG: continue
        if dist is not D and zv([x for y in h0 for x in literals(y)] + BASEHY, FALSE, 5000): continue
        for h, vals, e2 in leaves(R, flatten(R.events), h0, env):
            n += 1
            L = Leaf(mod, space, pair, fam, fw, R, inp, h, l, unflatten(R.events, vals), tagof(space, fw, pair, fam, info, n) + ('' if dist is D else ',concentric'))
            L.env = e2
            yield L

# ---------------------------------------------------------------- some family always applies
def finite_cond(R, l):
    """condition under which the length of a family is finite, as a disjunction; case distinctions that do not matter are resolved"""
    out = set()
    for h, (v,), env in leaves(R, [P(l)]):
        if v == BIG: continue
        hs = [x for y in h for x in literals(y)]
        L = Leaf.__new__(Leaf); L.length = lem(v); L.R = R
        out.add(frozenset(list(hs) + [x for y in L.inrange() for x in literals(y)]))
    while True:
        for c in out:
            m = next(((c, x) for x in c if (c - {x}) | {Not(x)} in out), None)
            if m: break
        else: break
        c, x = m
        out -= {c, (c - {x}) | {Not(x)}}; out.add(c - {x})
    return Or(*[And(*c) for c in out])
def single_atom(v):
    (a,) = v.atoms()
    return a.id
SA, SB = var('sa', pos=True), var('sb', pos=True)
SCALED = [lt(ZERO, sin(MU)), lt(ZERO, cos(MU)), eq(_S2 + _C2, ONE), lt(ONE, SA), lt(ONE, SA * cos(MU))]
def scaled(g):
    """g in units of the turning radius; disjuncts that are not independent of the unit are dropped"""
    sub = Subst(amap={single_atom(RAD): SA * inv(K_), single_atom(D): SB * inv(K_)}); k = single_atom(K_)
    r = []
    for d in (g.args if g.op == 'or' else [g]):
        try: d = sub.bool(d)
        except Unsupported: continue
        if not any(a.id == k or a.kind.startswith('fn:') for a in all_atoms(d)): r.append(d)
    return Or(*r)
def csign(c): return 1 if btrue(c['left']) else -1      # sign of the curvature on the circle
def task_exists(mod, space, fw):
    _, p1, p2, dub, cc = SPACES[space]
    fnn = '%s::get_controls' % SPACES[space][0]
    for s1 in ((0, 1, -1) if p1 else (0,)):
        for s2 in ((0, 1, -1) if p2 else (0,)):
            t = time.time(); info = probe(mod, space, fw, s1, s2); det = ''
            nm = '%s,%s%s' % (space, 'forwards' if fw else 'backwards', ',curvature signs %d %d' % (s1, s2) if s1 or s2 else '')
            if s1 or s2:
                bad = [c for c in info if s1 and csign(c[0]) != s1 or s2 and csign(c[1]) != s2]
                yield Ob('a curvature given by the user keeps its sign[%s]' % nm, fnn, 'failed' if bad else 'proved', 'vcgen', time.time() - t, '%d pairs of circles with the other sign are considered' % len(bad))
            ok = False
            for pair in range(len(info)):
                if not (s1 and s2) and csign(info[pair][0]) != csign(info[pair][1]): continue
                R = None
                for fam in range(18):
                    try: R = Run(mod, space, pair, fam, signed(query(info[pair]), s1, s2), fw); break
                    except Infeasible: continue
                if R is None: continue
                g = Or(*[finite_cond(R, l) for l in R.lens])
                if z3_valid(SCALED, scaled(g), 8000) is True or zv(BASEHY, g, 20000): ok = True; break
                det = str(g)[:200]
            yield Ob('some path exists for every query[%s]' % nm, fnn, 'proved' if ok else 'failed', 'z3', time.time() - t, det)

# ---------------------------------------------------------------- contracts of the predicates that guard the degenerate families
def task_preds(mod):
    def heading_ok(E, hy, tol):
        for h in hy:
            for at in all_atoms(h):
                if at.kind != 'abs': continue
                for c in (1, 2, Fr(1, 2)):
                    if any(ang_zero(at.args[0].scale(Fr(1) / c * s_) - E) for s_ in (1, -1)) and lin_valid(hy, le(P(at), P(tol * c)), 3000): return True
        return False
    def run(drv, inp, hyps=()):
        ex = Executor(mod, {}, policy=lambda e, f, c: 'merge'); st = State()
        for h in hyps: st.assume(h)
        ex.inputs = inp; ex.call(st, drv, [])
        r = outs(ex)['res'][0]
        r = r if isinstance(r, Bool) else ne(P(r), ZERO)
        return And(r, *st.pc)
    TOL = P(Fr(10001, 10**8))
    rho, al, t, tq, x, y = var('rho', pos=True), var('alpha'), var('t'), var('tq'), var('x'), var('y')
    def ob(n, fn, ok, det=''): return Ob(n, fn, 'proved' if ok else 'failed', 'z3', 0, '' if ok else str(det)[:300])
    base = dict(x1=x, y1=y, t1=t, x2=x + rho * cos(al), y2=y + rho * sin(al), t2=tq, k1=var('k1'), k2=var('k2'))
    r = run('vp_pred_equal', base); hy = list(literals(r))
    yield ob('configuration_equal: positions within 1e-4', 'configuration_equal', lin_valid(hy, le(rho, TOL), 3000), r)
    yield ob('configuration_equal: headings within 1e-4', 'configuration_equal', heading_ok(t - tq, hy, Fr(10001, 10**8)), r)
    yield ob('configuration_equal: curvatures within 1e-4', 'configuration_equal', lin_valid(hy, le(absv(var('k1') - var('k2')), TOL), 3000), r)
    r = run('vp_pred_aligned', base); hy = list(literals(r))
    yield ob('configuration_aligned: headings within 1e-4', 'configuration_aligned', heading_ok(t - tq, hy, Fr(10001, 10**8)), r)
    yield ob('configuration_aligned: second lies ahead of the first within 1e-4', 'configuration_aligned', heading_ok(al - t, hy, Fr(10001, 10**8)), r)
    for l in (True, False):
        for f in (True, False):
            a, b = (1 if l else -1), (1 if f else -1)
            inp = dict(base, left=B(l), forward=B(f), kappa=K_, sigma=SG, radius=RAD, mu=MU, sin_mu=sin(MU), cos_mu=cos(MU), delta_min=var('dm'))
            r = run('vp_pred_on_circle', inp); hy = list(literals(r))
            # q - centre = R(tq)(b r sin mu, -a r cos mu) has the direction tq - a pi/2 + a b mu
            yield ob('configuration_on_hc_cc_circle: distance from the centre within 1e-4[%s,%s]' % (l, f), 'configuration_on_hc_cc_circle', lin_valid(hy, And(le(rho - RAD, TOL), le(RAD - rho, TOL)), 3000), r)
            yield ob('configuration_on_hc_cc_circle: heading within 1e-4[%s,%s]' % (l, f), 'configuration_on_hc_cc_circle', heading_ok(tq - HPI.scale(a) + MU.scale(a * b) - al, hy, Fr(10001, 10**8)), r)

# ---------------------------------------------------------------- tasks
WHAT = {'C14': ('chain', 'boundary', 'direction', 'domains'), 'C15': ('chain', 'boundary', 'domains'), 'C16': ('chain', 'boundary', 'domains'), 'C18': ('junctions',), 'C19': ('sumlen', 'select')}
PSP = {'C14': ['cc00d', 'cc0pmd', 'ccpm0d', 'ccpmpmd'], 'C15': ['hc00', 'hc0pm', 'hcpm0', 'hcpmpm'], 'C16': ['cc00rs']}
def task_pair(mod, prop, space, fw, pair):
    info = probe(mod, space, fw)
    if pair >= len(info): return
    for dist in (D, ZERO):
        for fam in range(18 if not SPACES[space][3] else 7):
            for L in fam_leaves(mod, space, info[pair], pair, fam, fw, dist):
                if isinstance(L, Ob): yield L; continue
                for w in WHAT[prop]: getattr(L, w)()
                yield from L.obs
def task_dist(mod, space, fw, pair):
    """get_distance computes the same lengths, selects among them in the same way and returns the selected one"""
    info = probe(mod, space, fw)
    if pair >= len(info): return
    fnn = '%s::get_distance' % SPACES[space][0]
    def ls(R, l): return [(tuple(h), v) for h, (v,), e in leaves(R, [P(l)])]
    for fam in range(18 if not SPACES[space][3] else 7):
        Rs = []
        for drv in ('ctl', 'dist'):
            R = Run.__new__(Run); R.lens = None
            try: R.__init__(mod, space, pair, fam, query(info[pair]), fw, drv=drv)
            except Infeasible: R.bad = True
            Rs.append(R)
        if Rs[0].lens is None or fam >= len(Rs[0].lens): continue
        A = [x for x in ls(Rs[0], Rs[0].lens[fam])]; tag = tagof(space, fw, pair, fam, info[pair], 1)
        if all(v == BIG for h, v in A): continue
        if Rs[1].lens is None or fam >= len(Rs[1].lens):
            yield Ob('same length for get_distance and get_controls[%s]' % tag, fnn, 'failed', 'alg', 0, 'family not examined'); continue
        Bl = ls(Rs[1], Rs[1].lens[fam])
        ok = len(A) == len(Bl)
        L = Leaf.__new__(Leaf); L.hyps = []; L.R = Rs[0]
        for (h, v), (h2, v2) in zip(A, Bl): ok = ok and (v == v2 or v != BIG and v2 != BIG and L.leneq(v, v2))
        yield Ob('same length for get_distance and get_controls[%s]' % tag, fnn, 'proved' if ok else 'failed', 'alg')
        dv = Rs[1].out.get('dist') if hasattr(Rs[1], 'out') else None
        ok = False
        if dv:
            C = [(h, v, o) for h, (v, o), e in leaves(Rs[1], [P(Rs[1].lens[fam]), P(dv[0])]) if v != BIG]
            ok = bool(C) and all(v == o or L.leneq(v, o) for h, v, o in C)
        yield Ob('get_distance returns the length of the selected path[%s]' % tag, fnn, 'proved' if ok else 'failed', 'alg', 0, '' if ok else str(dv)[:200])
def npairs(space): return 4 if SPACES[space][3] else 16
def tasks(mod, prop):
    if prop == 'C20': return tasks_mem(mod)
    if prop == 'C21': return tasks_pure(mod)
    R = []
    spaces = PSP.get(prop, list(SPACES))
    for sp in spaces:
        for fw in ((True, False) if SPACES[sp][3] else (True,)):
            if prop in PSP: R.append(('%s exists' % sp, task_exists, (mod, sp, fw)))
            for p in range(npairs(sp)):
                R.append(('%s %s pair %d' % (sp, fw, p), task_pair, (mod, prop, sp, fw, p)))
                if prop == 'C19': R.append(('%s %s pair %d distance' % (sp, fw, p), task_dist, (mod, sp, fw, p)))
            R.append(('%s %s pairs' % (sp, fw), task_npairs, (mod, sp, fw)))
    if prop in PSP: R.append(('predicates', task_preds, (mod,)))
    if prop == 'C18':
        from contracts import turns
        R += turns.tasks(mod, 'C13')
    return R
def task_npairs(mod, space, fw):
    n = len(probe(mod, space, fw))
    if n > npairs(space): raise Unsupported('%d pairs of circles' % n)
    yield Ob('pairs of start and end circles[%s,%s]' % (space, fw), '%s::get_controls' % SPACES[space][0], 'proved' if n else 'failed', 'vcgen', 0, '%d' % n)

# ---------------------------------------------------------------- C20: memory
MEMK = ('initialised-pointer', 'valid-load', 'valid-store', 'valid-free', 'no-double-free')
def mem_hyps(seeds, R):
    """definitions of the merged conditions that the given formulas depend on"""
    H = []; seen = set(); todo = list(seeds)
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ('and', 'or'): todo += x.args
        elif x.op in ('bvar', 'nbvar'):
            b = x if x.op == 'bvar' else Not(x)
            if x.op == 'nbvar': todo.append(b); continue
            d = R.ex.bdefs.get(b)
            if d is not None: H += [Or(Not(b), d), Or(b, Not(d))]; todo.append(d)
    return H
def available(R, v, memo=None):
    """the merged length v is not the 'not available' marker"""
    v = P(v)
    if v == BIG: return FALSE
    d = R.ex.defs.get(v)
    if d is None: return TRUE
    c, x, y = d; x, y = available(R, x), available(R, y)
    return Or(And(c, x), And(Not(c), y))
def mem_check(R, fam):
    """(number of obligations, [(kind, where)] of the violated ones) of one run"""
    hy = list(R.st.pc)
    if R.lens is not None and fam < len(R.lens): hy.append(available(R, R.lens[fam]))
    todo = {}
    for k, opc, g, w in R.ex.obls:
        if k in MEMK and g is not TRUE: todo.setdefault((k, w), []).append(Or(*[Not(x) for x in opc], g))
    n = len(todo)
    for o in R.st.mem.values():
        if o.kind == 'heap':
            n += 1
            if o.live is not FALSE: todo.setdefault(('released before return', o.site), []).append(Not(o.live))
    if not todo: return n, []
    goal = And(*[g for gs in todo.values() for g in gs])
    hy += mem_hyps(hy + [goal], R)
    if lin_valid(hy, goal, 20000): return n, []
    return n, [k for k, gs in todo.items() if not lin_valid(hy, And(*gs), 20000)]
def task_memory(mod, space, fw, pair, drv):
    info = probe(mod, space, fw)
    if pair >= len(info): return
    inp = query(info[pair])
    fn_ = '%s::%s' % (SPACES[space][0], 'get_controls' if drv == 'ctl' else 'get_distance')
    fam = 0; tot = None
    while tot is None or fam < tot:
        for outer in ((pair, (pair + 1) % len(info)) if len(info) > 1 else (pair,)):
            t0 = time.time()
            R = Run.__new__(Run); R.lens = None; inf = None
            try: R.__init__(mod, space, pair, fam, inp, fw, drv=drv, outer=outer)
            except Infeasible as e: inf = e
            if R.lens is None: raise Unsupported('family selection not reached: %s' % inf)
            tot = len(R.lens)
            nm = 'memory[%s,%s%s,pair %d,family %d%s]' % (drv, space, '' if fw else ',backwards', pair, fam, '' if outer == pair else ',not selected')
            if inf is not None:
                # the run stops at an access without any valid target: the family must be one that is never available here
                h = list(R.st.pc) + [available(R, R.lens[fam])]
                ok = lin_valid(h + mem_hyps(h, R), FALSE, 20000)
                yield Ob(nm, fn_, 'proved' if ok else 'failed', 'vcgen+z3', time.time() - t0, '' if ok else str(inf))
                break
            n, bad = mem_check(R, fam)
            yield Ob(nm, fn_, 'failed' if bad else 'proved', 'vcgen+z3', time.time() - t0, '; '.join('%s at %s' % (k, w[-120:]) for k, w in bad[:4]))
        fam += 1
def tasks_mem(mod):
    R = []
    for sp in SPACES:
        for fw in ((True, False) if SPACES[sp][3] else (True,)):
            for p in range(npairs(sp)):
                for drv in ('ctl', 'dist'): R.append(('%s %s pair %d %s memory' % (sp, fw, p, drv), task_memory, (mod, sp, fw, p, drv)))
            R.append(('%s %s pairs' % (sp, fw), task_npairs, (mod, sp, fw)))
    return R

# ---------------------------------------------------------------- C21: purity
def cells_of(st):
    """(object, offset) -> value of everything that exists"""
    return {(i, f): c for i, o in st.mem.items() for f, c in o.cells.items()}
def same_cell(a, b):
    if a is b: return True
    a, b = a[1], b[1]
    if a is b: return True
    if isinstance(a, Ptr) or isinstance(b, Ptr): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.same(b)
    try: return a is not UNDEF and b is not UNDEF and (a == b if isinstance(a, Bool) or isinstance(b, Bool) else P(a) == P(b))
    except Exception: return False
class PureRun(Run):
    """remembers everything that exists when the query starts; the given cells get arbitrary (stale) contents"""
    stale = ()
    def __init__(self, *a, **k):
        self.pre = None
        Run.__init__(self, *a, **k)
    def begin(self, ex, st):
        for g, (ty, init, const) in ex.mod.globals.items():
            if not const: ex.global_ptr(st, g)
        for n, (oid, f) in enumerate(self.stale):
            o = ex.wobj(st, oid); sz = o.cells[f][0] if f in o.cells else 8
            o.cells[f] = (sz, var('stale#%d' % n))
        self.pre = cells_of(st); self.preobj = {i: o.kind for i, o in st.mem.items()}; self.prelive = {i: o.live for i, o in st.mem.items()}
        self.prename = {i: '%s %s' % (o.name or '', o.site) for i, o in st.mem.items()}
    def finish(self, ex, st):
        self.post = cells_of(st); self.postlive = {i: o.live for i, o in st.mem.items()}
    def changed(self):
        r = []
        for (i, f), c in self.post.items():
            if i not in self.preobj or 'vp_query' in self.prename[i]: continue      # created by the query
            a = self.pre.get((i, f))
            if a is None or not same_cell(a, c): r.append((i, f))
        return r
def has_stale(x):
    if isinstance(x, Ptr): return any(has_stale(g) for g, o, f in x.t)
    if isinstance(x, (list, tuple)): return any(has_stale(y) for y in x)
    if isinstance(x, dict): return any(has_stale(y) for y in x.values())
    if isinstance(x, (Poly, Bool)): return any(a.kind == 'var' and str(a.args[0]).startswith('stale#') for a in all_atoms(x))
    return False
def task_pure(mod, space, fw, pair, drv):
    info = probe(mod, space, fw)
    if pair >= len(info): return
    inp = query(info[pair])
    fn_ = '%s::%s' % (SPACES[space][0], 'get_controls' if drv == 'ctl' else 'get_distance')
    def go(fam, stale):
        R = PureRun.__new__(PureRun); R.lens = None; R.stale = stale; inf = None; R.post = None
        try: R.__init__(mod, space, pair, fam, inp, fw, drv=drv, outer=pair)
        except Infeasible as e: inf = e
        if R.lens is None: raise Unsupported('family selection not reached: %s' % inf)
        return R, inf
    fam = 0; tot = None
    while tot is None or fam < tot:
        t0 = time.time()
        R, inf = go(fam, ()); tot = len(R.lens)
        nm = '[%s,%s%s,pair %d,family %d]' % (drv, space, '' if fw else ',backwards', pair, fam); fam += 1
        if inf is not None: continue     # not available here: C20
        if R.post is None: raise Unsupported('query boundaries not observed')
        W = R.changed()
        bad = [(i, f) for i, f in W if R.preobj[i] != 'heap']
        gone = [R.prename[i] for i in R.preobj if R.postlive.get(i) is not R.prelive[i] and R.postlive.get(i) != R.prelive[i]]
        yield Ob('frame: arguments, the object and global data unchanged' + nm, fn_, 'failed' if bad or gone else 'proved', 'vcgen', time.time() - t0,
                 '; '.join('%s+%d' % (R.prename[i], f) for i, f in bad[:4]) + (' released %s' % gone[:3] if gone else ''))
        if not W: continue
        t0 = time.time()
        S, inf = go(fam - 1, tuple(W))
        # scratch cells of helper objects: nothing computed depends on what an earlier query left there
        dep = has_stale([list(S.lens), S.outer, S.events]) or any(has_stale(d) for d in S.ex.bdefs.values()) or any(has_stale(list(d)) for d in S.ex.defs.values()) \
            or any(has_stale(list(pc) + [g]) for k, pc, g, w in S.ex.obls if k in MEMK) or has_stale(S.st.pc) or has_stale([v for n, v, pc in S.ex.outs])
        yield Ob('scratch is written before it is read' + nm, fn_, 'failed' if dep or inf else 'proved', 'vcgen', time.time() - t0,
                 'scratch cells %s' % ', '.join('%s+%d' % (R.prename[i][-60:], f) for i, f in W[:6]))
def tasks_pure(mod):
    R = []
    for sp in SPACES:
        for fw in ((True, False) if SPACES[sp][3] else (True,)):
            for p in range(npairs(sp)):
                for drv in ('ctl', 'dist'): R.append(('%s %s pair %d %s purity' % (sp, fw, p, drv), task_pure, (mod, sp, fw, p, drv)))
    return R
