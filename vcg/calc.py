"""Fresnel integrals as odd uninterpreted functions with FS' = sin(pi/2 u^2), FC' = cos(pi/2 u^2); symbolic differentiation."""
from .terms import *
from . import terms as T

def _odd(name):
    def f(x):
        x = P(x)
        if not x.d: return ZERO
        if T.leadsign(x) < 0: return -P(mkatom('fn:' + name, -x))
        return P(mkatom('fn:' + name, x))
    T.REBUILD['fn:' + name] = lambda a: f(P(a[0]))
    return f
FS = _odd('FS'); FC = _odd('FC')

def h_fresnel(ex, st, a):
    """contract of steering::fresnel (proved up to 1e-6 by C06)"""
    from .ir import DBL
    s = P(a[0])
    ex.store(st, a[1], FS(s), DBL); ex.store(st, a[2], FC(s), DBL)
FRESNEL = '_ZN8steering7fresnelEdRdS0_'

def diff(p, v):
    """d p / d v ; v an atom"""
    memo = {}
    def da(at):
        if at is v or at.id == v.id: return ONE
        if at.kind == 'var': return ZERO
        r = memo.get(at.id)
        if r is not None: return r
        A = at.args
        if at.kind in ('ite', 'floor', 'ceil', 'trunc', 'round', 'abs'):
            if any(isinstance(x, Poly) and any(q.id == v.id for q in all_atoms(x)) for x in A) or at.kind == 'ite' and any(q.id == v.id for q in all_atoms(A[0])):
                if at.kind == 'floor' or at.kind == 'trunc' or at.kind == 'ceil' or at.kind == 'round': r = ZERO   # locally constant
                else: raise Unsupported('derivative of ' + at.kind)
            else: r = ZERO
        elif at.kind == 'sin': r = T.cos(A[0]) * dp(A[0])
        elif at.kind == 'cos': r = -T.sin(A[0]) * dp(A[0])
        elif at.kind == 'fn:FS': r = T.sin(PI.scale(Fr(1, 2)) * A[0] * A[0]) * dp(A[0])
        elif at.kind == 'fn:FC': r = T.cos(PI.scale(Fr(1, 2)) * A[0] * A[0]) * dp(A[0])
        elif at.kind == 'sqrt': r = dp(A[0]) * inv(P(at)).scale(Fr(1, 2))
        elif at.kind == 'inv': r = -dp(A[0]) * P(at) * P(at)
        elif not any(isinstance(x, Poly) and any(q.id == v.id for q in all_atoms(x)) for x in A): r = ZERO
        else: raise Unsupported('derivative of ' + at.kind)
        memo[at.id] = r
        return r
    def dp(q):
        res = ZERO
        for m, c in q.d.items():
            for a, e in m:
                d = da(ATOMS[a])
                if not d.d: continue
                rest = tuple((b, x) for b, x in m if b != a)
                e1 = e - 1
                t = Poly({rest: c}) * d
                t = t.scale(T.Fr(e)) if True else t
                if e1 != 0: t = t * Poly({((a, e1),): T.Fr(1)})
                res = res + t
        return res
    return dp(P(p))
Fr = T.Fr
def atom_of(p):
    (m, c), = p.d.items(); (a, e), = m
    return ATOMS[a]
def at_value(p, v, x):
    return Subst(amap={v: P(x)}).poly(p)
