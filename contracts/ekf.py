"""C08: the motion Jacobians are the derivatives of the exact one-step motion.   C09: prediction and update are the filter equations."""
from contracts.motion import *
from contracts.utils import ob

def spec_flow(x, y, th, k, sg, d, L):
    """closed form (sigma of known sign or syntactically zero)"""
    if not sg.d:
        if not k.d: return x + d * L * cos(th), y + d * L * sin(th), th
        t2 = th + d * k * L
        return x + (sin(t2) - sin(th)) / k, y + (cos(th) - cos(t2)) / k, t2
    s = ONE if is_pos(sg) else P(-1); a = s * sg
    k1 = th - (d * k * k / sg).scale(Fr(1, 2)); r = sqrt(PI) * inv(sqrt(a))
    c = inv(sqrt(PI)) * inv(sqrt(a))
    k2, k3 = c * (a * L + s * k), c * s * k
    dC, dS = FC(k2) - FC(k3), FS(k2) - FS(k3)
    return (x + r * (d * cos(k1) * dC - s * sin(k1) * dS), y + r * (d * sin(k1) * dC + s * cos(k1) * dS),
            th + d * k * L + (d * sg * L * L).scale(Fr(1, 2)))

def jac_task(mod, dsg, smode, kmode):
    s, k, hy, se, ke = setup(smode, kmode)
    disc = var('L', pos=True); La = atom_of(disc); d = P(dsg)
    ex = Executor(mod, {FRESNEL: h_fresnel}); st = State()
    for h in hy: st.assume(h)
    x, y, th = var('x'), var('y'), var('th')
    ex.inputs = dict(L=disc, ds=var('absds', pos=True).scale(dsg), kc=var('kc'), sg=s, k0=k, d0=var('d0'), x=x, y=y, th=th)
    ex.call(st, 'vp_jacobi', [])
    o = {n: [st.simp().poly(P(z)) for z in v] for n, v in outs(ex).items()}
    F = [[o['F'][3 * i + j] for j in range(3)] for i in range(3)]; G = [[o['G'][2 * i + j] for j in range(2)] for i in range(3)]
    FN_ = 'EKF::get_motion_jacobi'
    tag = 'dir%+d,sigma%s,kappa%s' % (dsg, smode, kmode)
    kv = k if kmode != '0' else ZERO
    f = spec_flow(x, y, th, ke, se, d, disc)
    # lemma: the closed form solves the motion equations (specification check)
    yield from ode_obls('spec closed form,' + tag, 'specification', dict(x=f[0], y=f[1], th=f[2]), La, d, th, ke, se, x, y, hy)
    zs = (x, y, th)
    for i in range(3):
        for j in range(3):
            t0 = time.time(); e = F[i][j] - diff(f[i], atom_of(zs[j])); ok, det = zero(e, hy)
            yield ob('dF%d/dx%d[%s]' % (i, j, tag), FN_, ok, 'alg', t0, det)
        t0 = time.time(); g = d * diff(f[i], La)
        if i == 2 and not ke.d and not se.d: g = k      # heading rate is the curvature even when it is negligible
        ok, det = zero(G[i][0] - g, hy)
        yield ob('dF%d/ds[%s]' % (i, tag), FN_, ok, 'alg', t0, det)
        t0 = time.time()
        if ke.d:
            ka = [a for a in ke.atoms()][0]; sgn = 1 if ke == P(ka) else -1
            g = diff(f[i], ka).scale(sgn)
        else: g = d * disc if i == 2 else ZERO
        ok, det = zero(G[i][1] - g, hy)
        yield ob('dF%d/dkappa[%s]' % (i, tag), FN_, ok, 'alg', t0, det)
    for kk, pc, g, w in ex.obls:
        t0 = time.time(); yield ob('definedness %s[%s]' % (kk, tag), FN_, prove.valid(list(pc), g, 5000), 'z3', t0, str(g)[:200])

# ---------------------------------------------------------------- filter
def mm(A, B): return [[sum((A[i][k] * B[k][j] for k in range(len(B))), ZERO) for j in range(len(B[0]))] for i in range(len(A))]
def tr(A): return [list(r) for r in zip(*A)]
def add(A, B): return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]
def sub(A, B): return [[a - b for a, b in zip(r, s)] for r, s in zip(A, B)]
def m3(l): return [[l[3 * i + j] for j in range(3)] for i in range(3)]
def inv3(M):
    c = lambda i, j: M[(i + 1) % 3][(j + 1) % 3] * M[(i + 2) % 3][(j + 2) % 3] - M[(i + 1) % 3][(j + 2) % 3] * M[(i + 2) % 3][(j + 1) % 3]
    det = sum((M[0][j] * c(0, j) for j in range(3)), ZERO)
    return [[c(j, i) / det for j in range(3)] for i in range(3)], det

def sym(n, symm):
    def f(i):
        r, c = divmod(i, 4)
        if symm and r < 3 and c < 3 and c < r: r, c = c, r
        return var('%s%d%d' % (n, r, c))
    return f

def filt_env(symm=False):
    S, La, Co = sym('S', symm), sym('La', symm), sym('Co', False)
    mx = lambda f: [[f(4 * i + j) for j in range(3)] for i in range(3)]
    return {'S': S, 'La': La, 'Co': Co}, mx(S), mx(La), mx(Co)

def filt_run(mod, drv, env, dsg, F=None, G=None):
    def jac(ex, st, a):
        # get_motion_jacobi(this, state, control, step, F_x, F_u): contract = arbitrary matrices F, G (C08 gives their values)
        from vcg.ir import DBL
        for i in range(3):
            for j in range(3): ex.store(st, a[4].add(8 * (3 * i + j)), F[i][j], DBL)
            for j in range(2): ex.store(st, a[5].add(8 * (2 * i + j)), G[i][j], DBL)
    h = {FRESNEL: h_fresnel}
    if F is not None:
        ns = byname(mod, '3EKF17get_motion_jacobi')
        if not ns: raise Unsupported('get_motion_jacobi not found')
        for n in ns: h[n] = jac
    ex = Executor(mod, h); st = State()
    ex.handlers['__vcg_ix'] = lambda e, s, a: env[cstr_(e, s, a[0])](a[1])
    ex.inputs = dict(L=var('L', pos=True), ds=var('absds', pos=True).scale(dsg))
    ex.call(st, drv, [])
    o = {n: [P(z) for z in v] for n, v in outs(ex).items()}
    return ex, [m3(o[n][:9]) for n in ('S', 'L', 'C')], [m3(o[n][9:18]) for n in ('S', 'L', 'C')]
from vcg.exec import cstr as cstr_

def cmpm(tag, fn, A, B, hy=()):
    for i in range(3):
        for j in range(3):
            t0 = time.time(); e = A[i][j] - B[i][j]
            ok, det = (True, '') if not e.d else zero(e, hy)
            yield ob('%s(%d,%d)' % (tag, i, j), fn, ok, 'alg', t0, det)

def pred_task(mod, dsg):
    env, S, La, Co = filt_env(True)
    F = [[var('F%d%d' % (i, j)) for j in range(3)] for i in range(3)]; G = [[var('G%d%d' % (i, j)) for j in range(2)] for i in range(3)]
    ex, R, B0 = filt_run(mod, 'vp_predict', env, dsg, F, G)
    L = var('L', pos=True); k0 = var('k0'); th = var('th'); v = var
    q0 = v('a1') * L * L + v('a2') * k0 * k0; q1 = v('a3') * L * L + v('a4') * k0 * k0
    Q = [[q0, ZERO], [ZERO, q1]]
    K = [[v('k1'), ZERO, ZERO], [ZERO, v('k2'), v('k3').scale(dsg)]]
    Rt = [[cos(th), sin(th), ZERO], [-sin(th), cos(th), ZERO], [ZERO, ZERO, ONE]]
    Sp = add(mm(mm(F, S), tr(F)), mm(mm(G, Q), tr(G)))
    Fk = sub(F, mm(mm(G, K), Rt)); Lp = mm(mm(Fk, La), tr(Fk))
    t = 'dir%+d' % dsg
    yield from cmpm('Sigma_pred[%s]' % t, 'EKF::predict', R[0], Sp)
    yield from cmpm('Lambda_pred[%s]' % t, 'EKF::predict', R[1], Lp)
    yield from cmpm('covariance_pred[%s]' % t, 'EKF::predict', R[2], add(Sp, Lp))
    for n, A, B_ in (('Sigma', B0[0], S), ('Lambda', B0[1], La), ('covariance', B0[2], Co)): yield from cmpm('input %s unchanged[%s]' % (n, t), 'EKF::predict', A, B_)
    # symmetry: equality above plus symmetric inputs
    env, S, La, Co = filt_env(True)
    ex, R, _ = filt_run(mod, 'vp_predict', env, dsg, F, G)
    for n, M in zip(('Sigma', 'Lambda', 'covariance'), R):
        for i, j in ((0, 1), (0, 2), (1, 2)):
            t0 = time.time(); yield ob('predicted %s symmetric(%d,%d)[%s]' % (n, i, j, t), 'EKF::predict', *zero(M[i][j] - M[j][i])[:1], 'alg', t0)

def upd_task(mod, part):
    env, S, La, Co = filt_env(True)
    ex, R, B0 = filt_run(mod, 'vp_update', env, 1)
    v = var
    Rm = [[v('sx') ** 2, ZERO, ZERO], [ZERO, v('sy') ** 2, ZERO], [ZERO, ZERO, v('st') ** 2]]
    I3 = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    W, det = inv3(add(S, Rm))
    pre = [ne(det, ZERO)]
    Lg = mm(S, W); M = sub(I3, Lg)
    if part == 'Sigma':
        Sc = add(mm(mm(M, S), tr(M)), mm(mm(Lg, Rm), tr(Lg)))
        yield from cmpm('Sigma_corr', 'EKF::update', R[0], Sc, pre)
    elif part == 'Lambda': yield from cmpm('Lambda_corr', 'EKF::update', R[1], add(La, mm(Lg, tr(S))), pre)
    elif part == 'cov':
        yield from cmpm('covariance_corr', 'EKF::update', R[2], add(R[0], R[1]), pre)
        for n, A, B_ in (('Sigma', B0[0], S), ('Lambda', B0[1], La), ('covariance', B0[2], Co)): yield from cmpm('input %s unchanged' % n, 'EKF::update', A, B_)
        for k, pc, g, w in ex.obls:
            t0 = time.time()
            if g == ne(det, ZERO) or pz_(g, det): yield ob('definedness %s (from precondition: innovation covariance regular)' % k, 'EKF::update', True, 'alg', t0); continue
            yield ob('definedness %s' % k, 'EKF::update', prove.valid(list(pc) + pre, g, 5000), 'z3', t0, str(g)[:300])
    else:
        for n, Mx in zip(('Sigma', 'Lambda', 'covariance'), R):
            for i, j in ((0, 1), (0, 2), (1, 2)):
                t0 = time.time(); yield ob('updated %s symmetric(%d,%d)' % (n, i, j), 'EKF::update', zero(Mx[i][j] - Mx[j][i], pre)[0], 'alg', t0)
def pz_(g, det):
    return g.op == 'ne' and (g.args[0] == det or g.args[0] == -det)

DRIVERS = ['ekf']
def tasks(mod, prop):
    if prop == 'C08':
        T_ = []
        for d in (1, -1):
            for sm in ('+', '-'): T_.append(('jac', jac_task, (mod, d, sm, 'any')))
            for sm in ('0', 'tiny'):
                for km in ('+', '-', 'tiny'): T_.append(('jac', jac_task, (mod, d, sm, km)))
        return T_
    return [('predict %d' % d, pred_task, (mod, d)) for d in (1, -1)] + [('update ' + p, upd_task, (mod, p)) for p in ('Sigma', 'Lambda', 'cov', 'symmetric')]
