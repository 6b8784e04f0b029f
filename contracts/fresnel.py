"""C06: contract of fresnel: |S_f - S(s)|, |C_f - C(s)| <= 1e-8 for every real s, and oddness.
With x = pi/2 s^2:  sqrt(2 pi) C = int_0^x cos t / sqrt t dt.  The polynomials are obtained by executing the extracted code.
 power-series branch  C_f = sqrt(x/2pi) A(x): A is compared with the exact series (alternating tail bound), exactly over the rationals;
 asymptotic branch    C_f = 1/2 - (E cos x/2x - F sin x)/sqrt(2 pi x): for x >= X1 with the enveloping asymptotic series of E, F;
                      below X1 by bounding the residual of the differential equation c' = -cos/sqrt(x) and integrating back from X1."""
from vcg.ctx import *
from contracts.utils import ob
import time
TOL = Fr(1, 10**8)
FN_ = 'fresnel'

def padd(a, b, s=1):
    n = max(len(a), len(b)); return [(a[i] if i < len(a) else 0) + s * (b[i] if i < len(b) else 0) for i in range(n)]
def pmul(a, b):
    r = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return r
def pder(a): return [i * c for i, c in enumerate(a)][1:] or [Fr(0)]
def shift(p, c):
    p = list(p); n = len(p)
    for i in range(n):
        for j in range(n - 2, i - 1, -1): p[j] += c * p[j + 1]
    return p
def bound(p, lo, hi, n=40):
    """rigorous upper bound of |p| on [lo,hi]"""
    best = Fr(0)
    for i in range(n):
        a = lo + (hi - lo) * Fr(i, n); b = lo + (hi - lo) * Fr(i + 1, n); c = (a + b) / 2; r = (b - a) / 2
        q = shift(p, c); v = Fr(0); rk = Fr(1)
        for k in q: v += abs(k) * rk; rk *= r
        best = max(best, v)
    return best

def coeffs(p, xid, sgn=1):
    """univariate Poly in atom xid (exponents multiplied by sgn, must be >= 0 integers) -> list"""
    d = {}
    for m, c in p.d.items():
        e = 0
        for a, k in m:
            if a != xid: raise Unsupported('not a polynomial of the argument: %s' % ATOMS[a])
            e = k
        e = e * sgn
        if e != int(e) or e < 0: raise Unsupported('exponent %s' % e)
        d[int(e)] = c
    return [d.get(i, Fr(0)) for i in range(max(d) + 1 if d else 1)]

def series(kind, N):
    """A-series: sqrt(2pi) C / sqrt x = sum (-1)^k x^(2k) / ((2k)! (2k+1/2)) ; S: x^(2k+1)/((2k+1)! (2k+3/2))"""
    import math
    o = 0 if kind == 'C' else 1
    p = [Fr(0)] * (2 * N + 2)
    for k in range(N): p[2 * k + o] = Fr((-1) ** k, math.factorial(2 * k + o)) / (2 * k + o + Fr(1, 2))
    tail = lambda X: Fr(X) ** (2 * N + o) / math.factorial(2 * N + o) / (2 * N + o + Fr(1, 2))
    return p, tail

def region(h, x):
    lo, hi = Fr(0), None
    for l in h:
        if l.op in ('lt', 'le'):
            p = l.args[0]
            if any(a is not list(x.atoms())[0] for a in p.atoms()): continue
            (xm, _), = x.d.items()
            k = p.d.get(xm, 0); c = p.d.get((), Fr(0))
            if set(p.d) - {xm, ()} or not k: continue
            if k > 0: hi = -c / k if hi is None else min(hi, -c / k)
            else: lo = max(lo, -c / k)
    return lo, hi

def asym(y0, odd):
    """asymptotic series of F (odd=0): (2k-1/2 gamma)/sqrt(pi) and E (odd=1): 2 Gamma(2k+3/2)/sqrt(pi); best truncation at y0; remainder <= next term"""
    cs = []; g = Fr(1)   # Gamma(1/2)/sqrt(pi) = 1
    k2 = 0
    gam = [Fr(1)]
    for i in range(60): gam.append(gam[-1] * (i + Fr(1, 2)))     # Gamma(i+1/2)/sqrt(pi)
    term = lambda k: gam[2 * k + odd] * (2 if odd else 1)
    K = min(range(1, 28), key=lambda k: term(k) * y0 ** k)
    return [(-1) ** k * term(k) for k in range(K)], term(K) * y0 ** K

def branch(kind, val, lo, hi, x):
    """bound of the error of this branch on [lo,hi]; returns (bound, how)"""
    xid = list(x.atoms())[0].id
    r2pi = sqrt(PI.scale(2))
    trig = [a for a in val.atoms() if a.kind in ('sin', 'cos')]
    if not trig:
        A = coeffs(val * r2pi * inv(sqrt(x)), xid)
        if hi is None: raise Unsupported('series branch on an unbounded range')
        N = 10
        ser, tail = series(kind, N)
        while tail(hi) > Fr(1, 10**12): N += 4; ser, tail = series(kind, N)
        b = bound(padd(A, ser, -1), lo, hi) + tail(hi)
        # sqrt(x/(2 pi)) <= sqrt(hi/6)
        q = Fr(int((hi / 6 * 10**12) ** Fr(1)) + 1, 10**12)
        import math
        sq = Fr(math.isqrt(int(q * 10**12)) + 1, 10**6)
        return b * sq, 'series, degree %d' % (len(A) - 1)
    Z = (Fr(1, 2) * ONE - val) * r2pi * sqrt(x)
    Cx, Sx = cos(x), sin(x)
    def coef(at):
        (m, _), = at.d.items(); i = m[0][0]; d = {}
        for mm, c in Z.d.items():
            dd = dict(mm)
            if i in dd:
                if dd.pop(i) != 1: raise Unsupported('power of trig')
                d[tuple(sorted(dd.items()))] = c
        return Poly(d)
    pc, ps = coef(Cx), coef(Sx)
    if not prove_zero(Z - pc * Cx - ps * Sx)[0]: raise Unsupported('unexpected structure of the asymptotic branch')
    if kind == 'C': E, F = pc * x * 2, -ps
    else: E, F = ps * x * 2, pc
    E = coeffs(E, xid, -1); F = coeffs(F, xid, -1)
    if any(E[1::2]) or any(F[1::2]): raise Unsupported('odd powers of 1/x')
    E, F = E[::2], F[::2]           # polynomials in y = 1/x^2
    X1 = max(Fr(20), lo)
    y1 = 1 / X1**2
    tF, rF = asym(y1, 0); tE, rE = asym(y1, 1)
    dF = bound(padd(F, tF, -1), Fr(0), y1) + rF; dE = bound(padd(E, tE, -1), Fr(0), y1) + rE
    c0 = Fr(2, 5)                     # 1/sqrt(2 pi) < 0.4
    far = c0 * (dE / (2 * X1) + dF) / 4     # / sqrt(x), sqrt(20) > 4
    if lo >= X1: return far, 'asymptotic'
    y0 = 1 / lo**2 if lo > 0 else None
    if y0 is None: raise Unsupported('asymptotic branch at 0')
    Y = [Fr(0), Fr(1)]
    r1 = padd(padd(padd([Fr(1)], F, -1), [c * Fr(3, 4) for c in pmul(Y, E)], -1), pmul(pmul(Y, Y), pder(E)), -1)
    r2 = padd([(c) / 2 for c in padd(F, E, -1)], [2 * c for c in pmul(Y, pder(F))])
    b1, b2 = bound(r1, y1, y0), bound(r2, y1, y0)
    near = c0 * (X1 - lo) * (b1 + b2 / lo) / max(Fr(1), Fr(int(float(lo) ** .5))) + far
    return near, 'asymptotic + residual, degrees %d, %d' % (len(E) - 1, len(F) - 1)

def task(mod, kind):
    x = var('xF', pos=True)
    s = sqrt(x * 2 * inv(PI))
    res = {}
    for sg in (1, -1):
        ex = Executor(mod); ex.inputs = dict(s=s.scale(sg)); st = State()
        ex.call(st, 'vp_fresnel', [])
        res[sg] = P(outs(ex)[kind][-1]); exs = ex
    t0 = time.time()
    for k, pc, g, w in exs.obls: yield ob('definedness %s' % k, FN_, valid(list(pc), g), 'z3', t0, str(g)[:200])
    e = res[1] + res[-1]
    bad = [h for (v,), h in cases([e], []) if v.d and not prove_zero(v)[0] and not infeasible(list(h), 3000)]
    yield ob('odd[%s]' % kind, FN_, not bad, 'alg', t0, str(bad)[:200])
    ex = Executor(mod); ex.inputs = dict(s=ZERO); ex.call(State(), 'vp_fresnel', [])
    z = P(outs(ex)[kind][-1])
    yield ob('zero at zero[%s]' % kind, FN_, not z.d or prove_zero(z)[0], 'alg', t0, str(z))
    regs = []
    for (v,), h in cases([res[1]], []):
        h2 = simp_hyps(h)
        if h2 is None: continue
        lo, hi = region(h2, x); t0 = time.time()
        regs.append((lo, hi))
        b, how = branch(kind, v, lo, hi, x)
        yield ob('accuracy[%s, x in [%s,%s]]' % (kind, lo, hi), FN_, b <= TOL, 'exact rational bound', t0, 'error bound %.3g, allowed 1e-8 (%s)' % (float(b), how))
    t0 = time.time(); pts = sorted(regs, key=lambda r: r[0]); cov = Fr(0); ok = True
    for lo, hi in pts:
        if cov is None: break
        if lo > cov: ok = False
        cov = None if hi is None else max(cov, hi)
    yield ob('all arguments covered[%s]' % kind, FN_, ok and cov is None, 'vcgen', t0, str(pts))

def tasks(mod, prop): return [('fresnel ' + k, task, (mod, k)) for k in 'SC']
