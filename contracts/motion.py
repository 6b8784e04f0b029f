"""C05: one motion step through integrate / integrate_with_covariance / interpolate of each state-space family, and the primitive
end-point functions, is the exact solution of x'=d cos th, y'=d sin th, th'=d k, k'=sigma (u = unsigned arc length).
The specification is the differential equation itself: value at length 0 and derivative in the length."""
from vcg.ctx import *
from vcg.flow import *
from vcg.calc import *
from contracts.words import pz, side_ok
import time

EPS = P(Fr(1, 10**4))
FN = {'dubins': 'Dubins_State_Space', 'rs': 'Reeds_Shepp_State_Space', 'hc': 'HC_CC_State_Space'}

def zero(p, hyps=()):
    ok, sd = pz(p)
    if not ok: return False, str(sd)[:300]
    bad = side_ok(sd, list(hyps))
    if bad: return False, 'side condition %s' % str(bad[0])[:100]
    return True, ''

def ode_obls(tag, fn, out, L, d, th0, k0, sg, x0, y0, hyps):
    """out: dict x,y,th,k (missing = not returned); k0 initial curvature, sg sharpness"""
    Lp = P(L)
    thL = th0 + d * k0 * Lp + (d * sg * Lp * Lp).scale(Fr(1, 2))
    def ob(name, p, ang=False):
        t0 = time.time()
        ok, det = (ang_zero(p), str(p)[:200]) if ang else zero(p, hyps)
        return Ob('%s[%s]' % (name, tag), fn, 'proved' if ok else 'failed', 'alg', time.time() - t0, det)
    if 'th' in out: yield ob('heading', out['th'] - thL, True)
    if 'k' in out: yield ob('curvature', out['k'] - (k0 + sg * Lp))
    yield ob('x(0)', at_value(out['x'], L, ZERO) - x0)
    yield ob('y(0)', at_value(out['y'], L, ZERO) - y0)
    yield ob('dx/dL', diff(out['x'], L) - d * cos(thL))
    yield ob('dy/dL', diff(out['y'], L) - d * sin(thL))

def setup(smode, kmode):
    """(sigma, kappa, assumptions, effective sigma, effective kappa)"""
    hy = []
    def mk(mode, n):
        if mode == '+' or mode == '-':
            v = var(n + 'P', pos=True); hy.append(lt(EPS, v)); return (v if mode == '+' else -v), (v if mode == '+' else -v)
        if mode == 'tiny': v = var(n); hy.append(Not(lt(EPS, absv(v)))); return v, ZERO
        if mode == '0': return ZERO, ZERO
        v = var(n); return v, v
    s, se = mk(smode, 'sigma'); k, ke = mk(kmode, 'kap')
    return s, k, hy, se, ke

def byname(mod, part): return [n for n in mod.fns if part in n]
def hnd(mod):
    h = {FRESNEL: h_fresnel}
    for n in byname(mod, '3EKF7predict') + byname(mod, '3EKF6update'): h[n] = lambda ex, st, a: None   # covariance: C09, C11
    return h

def task_step(mod, space, dsg, smode, kmode):
    s, k, hy, se, ke = setup(smode, kmode)
    disc = var('disc', pos=True); L = atom_of(disc)
    ex = Executor(mod, hnd(mod)); st = State()
    for h in hy: st.assume(h)
    x, y, th = var('x'), var('y'), var('th')
    ex.inputs = dict(disc=disc, ds=disc.scale(dsg), kc=k, sg=s, k0=var('k0'), d0=var('d0'), x=x, y=y, th=th)
    ex.call(st, 'vp_step_' + space, [])
    o = outs(ex)
    fn = FN[space]
    tag = '%s,dir%+d,sigma%s,kappa%s' % (space, dsg, smode, kmode)
    ns = [int(P(n).const()) for n in o['n']]
    yield Ob('one-sample-per-step[%s]' % tag, fn + '::integrate', 'proved' if ns == [2, 2] else 'failed', 'vcgen', detail=str(ns))
    if ns != [2, 2]: return
    for i, ent in enumerate(('integrate', 'integrate_with_covariance', 'interpolate')):
        a, b = 2 * i, 2 * i + 1
        q = {c: Subst(bmap=st.known).poly(P(o[c][b])) for c in ('x', 'y', 'th', 'k', 'd')}
        f = fn + '::' + ent
        yield Ob('direction[%s,%s]' % (tag, ent), f, 'proved' if q['d'] == P(dsg) else 'failed', 'alg', detail=str(q['d']))
        kk = q.pop('k')
        ok = (kk == k + s * disc) or (smode in ('tiny', '0') and (kk == k))
        yield Ob('curvature[%s,%s]' % (tag, ent), f, 'proved' if ok else 'failed', 'alg', detail=str(kk)[:200])
        del q['d']
        yield from ode_obls('%s,%s' % (tag, ent), f, q, L, P(dsg), th, ke, se, x, y, hy)

def task_prim(mod, prim, dsg, smode, kmode):
    s, k, hy, se, ke = setup(smode, kmode)
    hy = [h for h in hy]
    disc = var('L', pos=True); L = atom_of(disc)
    ex = Executor(mod, {FRESNEL: h_fresnel}); st = State()
    x, y, th = var('x'), var('y'), var('th')
    ex.inputs = dict(L=disc, dir=P(dsg), sg=s, k0=k, x=x, y=y, th=th)
    ex.call(st, 'vp_prim_' + prim, [])
    o = {n: P(v[-1]) for n, v in outs(ex).items()}
    fn = {'clothoid': 'end_of_clothoid', 'arc': 'end_of_circular_arc', 'line': 'end_of_straight_line'}[prim]
    yield from ode_obls('%s,dir%+d,sigma%s,kappa%s' % (prim, dsg, smode, kmode), fn, o, L, P(dsg), th, ke, se, x, y, hy)

def task_ode(mod, space, dsg, smode, kmode):
    """the step function itself, from an arbitrary state (used as contract by C10-C12): the motion starts with the curvature of the
    state (Dubins, Reeds-Shepp: equal to that of the control) and depends on the control only through direction, curvature, sharpness"""
    s, k, hy, se, ke = setup(smode, kmode)
    L_ = var('h', pos=True); L = atom_of(L_)
    ex = Executor(mod, hnd(mod)); st = State()
    for h in hy: st.assume(h)
    x, y, th = var('x'), var('y'), var('th')
    ex.inputs = dict(ds=var('dsm', pos=True).scale(dsg), kc=k if space != 'hc' else var('kother'), sg=s, k0=k, d0=var('d0'), x=x, y=y, th=th, h=L_, disc=var('disc', pos=True))
    ex.call(st, 'vp_ode_' + space, [])
    q = {c: Subst(bmap=st.known).poly(P(v[-1])) for c, v in outs(ex).items()}
    f = FN[space] + '::integrate_ODE'; tag = 'ode,%s,dir%+d,sigma%s,kappa%s' % (space, dsg, smode, kmode)
    yield Ob('direction[%s]' % tag, f, 'proved' if q['d'] == P(dsg) else 'failed', 'alg', detail=str(q['d']))
    kk = q.pop('k'); del q['d']
    ok = (kk == k + s * L_) or (smode in ('tiny', '0') and (kk == k))
    yield Ob('curvature[%s]' % tag, f, 'proved' if ok else 'failed', 'alg', detail=str(kk)[:200])
    yield from ode_obls(tag, f, q, L, P(dsg), th, ke, se, x, y, hy)

def tasks(mod, prop):
    T_ = []
    for d in (1, -1):
        for sp in ('dubins', 'rs'):
            for km in ('+', '-', 'tiny'): T_.append(('ode %s %d %s' % (sp, d, km), task_ode, (mod, sp, d, '0', km)))
        for sm in ('+', '-'): T_.append(('ode hc %d %s' % (d, sm), task_ode, (mod, 'hc', d, sm, 'any')))
        for km in ('+', '-', 'tiny'): T_.append(('ode hc %d %s' % (d, km), task_ode, (mod, 'hc', d, '0', km)))
    for d in (1, -1):
        for sp in ('dubins', 'rs'):
            for km in ('+', '-', 'tiny'): T_.append(('step %s %d %s' % (sp, d, km), task_step, (mod, sp, d, '0', km)))
        for sm in ('+', '-'): T_.append(('step hc %d %s' % (d, sm), task_step, (mod, 'hc', d, sm, 'any')))
        for sm in ('0', 'tiny'):
            for km in ('+', '-', 'tiny'): T_.append(('step hc %d %s %s' % (d, sm, km), task_step, (mod, 'hc', d, sm, km)))
        for sm in ('+', '-'): T_.append(('prim', task_prim, (mod, 'clothoid', d, sm, 'any')))
        for km in ('+', '-'): T_.append(('prim', task_prim, (mod, 'arc', d, '0', km)))
        T_.append(('prim', task_prim, (mod, 'line', d, '0', '0')))
    return T_
