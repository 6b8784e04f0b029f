"""C07: contracts of the angle, frame and selection utilities."""
from vcg.ctx import *
from vcg.calc import *
from vcg.loops import *
from vcg.exec import mkptr, cstr, LoopStop
from vcg.prove import zv, valid
from contracts.words import pz
import time
DEBUG = 0

def ob(name, fn, ok, be, t0, det=''): return Ob(name, fn, 'proved' if ok else 'failed', be, time.time() - t0, det)

def run(mod, drv, inp):
    ex = Executor(mod); ex.inputs = inp
    ex.call(State(), drv, [])
    return {k: P(v[-1]) for k, v in outs(ex).items()}, ex

def each(r, hy, f):
    """f(leaf, hyps) must hold on every case"""
    bad = []
    for (x,), h in cases([r], hy):
        h = simp_hyps(h)
        if h is None: continue
        if not f(x, h): bad.append('%s under %s' % (str(x)[:120], str(h)[:200]))
    return not bad, '; '.join(bad[:3])

def angles(mod):
    a = var('a'); tp = PI.scale(2)
    for drv, fn, rng in (('vp_twopify', 'twopify', lambda x: And(le(ZERO, x), lt(x, tp))), ('vp_pify', 'pify', lambda x: And(le(-PI, x), le(x, PI)))):
        o, ex = run(mod, drv, dict(a=a))
        for k, pc, g, w in ex.obls: yield ob('%s definedness' % fn, fn, valid(list(pc), g), 'z3', time.time(), str(g))
        t0 = time.time(); ok, d = each(o['r'], [], lambda x, h: ang_zero(x - a)); yield ob(fn + ' congruent modulo 2*pi', fn, ok, 'alg', t0, d)
        t0 = time.time(); ok, d = each(o['r'], [], lambda x, h: z3_valid(h, rng(x), 10000) is True); yield ob(fn + ' range', fn, ok, 'z3', t0, d)
    o, ex = run(mod, 'vp_sgn', dict(a=a))
    t0 = time.time(); yield ob('sgn negative', 'sgn', z3_valid([lt(a, ZERO)], eq(o['r'], P(-1)), 5000) is True, 'z3', t0)
    yield ob('sgn non-negative', 'sgn', z3_valid([le(ZERO, a)], eq(o['r'], ONE), 5000) is True, 'z3', t0)

def geometry(mod):
    x, y, t, px, py = [var(n) for n in ('x', 'y', 't', 'px', 'py')]
    o, ex = run(mod, 'vp_polar', dict(x=x, y=y)); t0 = time.time()
    yield ob('polar x', 'polar', pz(o['r'] * cos(o['t']) - x)[0], 'alg', t0, str(o))
    yield ob('polar y', 'polar', pz(o['r'] * sin(o['t']) - y)[0], 'alg', t0, str(o))
    yield ob('polar radius >= 0', 'polar', z3_valid([], le(ZERO, o['r']), 5000) is True, 'z3', t0)
    yield ob('polar angle range', 'polar', z3_valid([], And(le(-PI, o['t']), le(o['t'], PI)), 5000) is True, 'z3', t0)
    x1, y1, x2, y2 = [var(n) for n in ('x1', 'y1', 'x2', 'y2')]
    o, ex = run(mod, 'vp_dist', dict(x1=x1, y1=y1, x2=x2, y2=y2)); t0 = time.time()
    for k, pc, g, w in ex.obls: yield ob('point_distance definedness', 'point_distance', valid(list(pc), g), 'z3', time.time(), str(g))
    yield ob('distance squared', 'point_distance', pz(o['r'] ** 2 - (x1 - x2) ** 2 - (y1 - y2) ** 2)[0], 'alg', t0, str(o))
    yield ob('distance >= 0', 'point_distance', z3_valid([], le(ZERO, o['r']), 5000) is True, 'z3', t0)
    o, ex = run(mod, 'vp_frames', dict(x=x, y=y, t=t, px=px, py=py)); t0 = time.time()
    for nm, e in (('global x', o['gx'] - (x + px * cos(t) - py * sin(t))), ('global y', o['gy'] - (y + px * sin(t) + py * cos(t))),
                  ('local after global x', o['lgx'] - px), ('local after global y', o['lgy'] - py), ('global after local x', o['glx'] - px), ('global after local y', o['gly'] - py),
                  ('local isometry', (o['lx'] ** 2 + o['ly'] ** 2) - (px - x) ** 2 - (py - y) ** 2)):
        yield ob('frame change: ' + nm, 'global_frame_change/local_frame_change', pz(e)[0], 'alg', t0, str(e)[:200])

def argmin(mod):
    n = var('n', integer=True, pos=True); K = var('K', integer=True)
    a = lambda i: T.fn('a', P(i))
    def cands(ph):
        I = {r: P(v) for r, v in ph.items() if isinstance(v, int) or isinstance(v, Poly) and ityp(r)}
        M = {r: P(v) for r, v in ph.items() if r not in I and isinstance(v, Poly)}
        C = []
        for p, v in I.items():
            C += [('0<=' + p, le(ZERO, v)), (p + '<=n', le(v, n)), (p + '<n', lt(v, n)), ('1<=' + p, le(ONE, v))]
            for q, w in I.items():
                if p != q:
                    C.append((p + '<' + q, lt(v, w)))
                rng = And(le(ZERO, K), lt(K, v))
                C += [('K<%s: a[%s]<=a[K]' % (p, q), Implies(rng, le(a(w), a(K)))), ('K<%s: a[%s]<a[K]' % (p, q), Implies(rng, lt(a(w), a(K))))]
            rng = And(le(ZERO, K), lt(K, v))
            for m, w in M.items():
                C += [('%s=a[%s]' % (m, p), eq(w, a(v))), ('K<%s: %s<=a[K]' % (p, m), Implies(rng, le(w, a(K)))), ('K<%s: %s<a[K]' % (p, m), Implies(rng, lt(w, a(K))))]
        return C
    isint = {}
    def ityp(r): return isint.get(r, False)
    f = [x for nme, x in mod.fns.items() if '15array_index_min' in nme]
    for fn_ in f:
        mod.get(fn_.name) if hasattr(fn_, 'name') else None
    for nme in list(mod.fns):
        if '15array_index_min' in nme:
            g = mod.get(nme)
            for b, ph in g.phis.items():
                for i in ph: isint[i[1]] = mod.res(i[2]).k == 'i'
    H = Houdini(cands, lambda h, g: z3_valid(h, g, 5000) is True)
    H.debug = DEBUG
    for rnd in range(12):
        H.changed = False
        res = []
        def mk(dec):
            ex = Executor(mod, decisions=dec)
            ex.handlers['__vcg_array'] = lambda e, s, x: mkptr(e.alloc(s, 'uarr', n, 'a'))
            ex.handlers['__vcg_int'] = lambda e, s, x: n
            st = State(); st.assume(le(ONE, n))
            H.start(ex)
            try: ex.call(st, 'vp_argmin', [])
            except LoopStop: return ex, None
            except Infeasible: return ex, None
            return ex, (st, P(outs(ex)['r'][-1]))
        for ex, r in explore(mk, 60): res.append((ex, r))
        if not H.changed: break
    FN = 'array_index_min'
    for (f, b), dead in H.dropped.items():
        yield Ob('loop invariant base+step (%s): all retained candidate facts inductive' % b, FN, 'proved', 'z3')
    if DEBUG: print(H.dropped, rnd)
    n_exit = 0
    for ex, r in res:
        for k, pc, g, w in ex.obls:
            t0 = time.time(); yield ob('array_index_min %s' % k, FN, z3_valid(list(pc), g, 5000) is True, 'z3', t0, str(g)[:200])
        if r is None: continue
        st, v = r
        n_exit += 1
        h = list(st.pc)
        t0 = time.time(); yield ob('argmin in range', FN, z3_valid(h, And(le(ZERO, v), lt(v, n)), 8000) is True, 'z3', t0, str(v))
        t0 = time.time(); yield ob('argmin is a smallest entry', FN, z3_valid(h + [le(ZERO, K), lt(K, n)], le(a(v), a(K)), 8000) is True, 'z3', t0, str(v))
        t0 = time.time(); yield ob('argmin is the first smallest', FN, z3_valid(h + [le(ZERO, K), lt(K, v)], lt(a(v), a(K)), 8000) is True, 'z3', t0, str(v))
    if not n_exit: yield Ob('argmin terminates normally', FN, 'failed', 'vcgen')

def tasks(mod, prop): return [(f.__name__, f, (mod,)) for f in (angles, geometry, argmin)]
