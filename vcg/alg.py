"""Algebraic back end: decides identities (term == 0) by trigonometric expansion over base angles and normal forms in a
tower of quadratic extensions (sin^2+cos^2=1, sqrt(e)^2=e).  A zero normal form is a proof; a non-zero one is 'unknown'."""
from fractions import Fraction as Fr
import math
from .terms import *
from . import terms as T

class Alg:
    def __init__(self, mode='rule', limit=40000):
        self.mode = mode            # 'rule': h*cos(atan2)->x ; 'sub': cos(atan2)->x/h (needs h != 0)
        self.side = []              # side conditions used (polys assumed non-zero)
        self.limit = limit
        self.bases = {}             # mono -> L (lcm of denominators)
        self.sqmap = {}             # canonical radicand -> sqrt poly
        self.cs = {}                # mono -> (C poly, S poly)
        self.rules = []             # (h_atom_id, C_id, S_id, x, y)
        self.powcache = {}
        self.memo = {}
        self.amemo = {}
        self.hrel = {}              # mode 'hvar': variable atom id -> radicand (kept opaque instead of expanded)

    # ---- collect base angles everywhere in p
    def collect(self, p):
        for at in all_atoms(p):
            if at.kind in ('sin', 'cos'):
                for m, c in at.args[0].d.items():
                    self.bases[m] = lcm(self.bases.get(m, 1), c.denominator)

    def base(self, m):
        r = self.cs.get(m)
        if r is not None: return r
        L = self.bases[m]
        C = S = None
        if len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind in ('acos', 'asin', 'atan'):
                u = self.norm(at.args[0])
                if at.kind == 'acos':
                    if L == 1: C, S = u, self.sqrt(1 - u * u)
                    elif L == 2: C, S = self.sqrt((1 + u).scale(Fr(1, 2))), self.sqrt((1 - u).scale(Fr(1, 2)))
                elif at.kind == 'asin':
                    if L == 1: C, S = self.sqrt(1 - u * u), u
                elif at.kind == 'atan':
                    if L == 1:
                        h = self.sqrt(1 + u * u); C = inv(h); S = u * C
            elif at.kind == 'atan2' and L == 1:
                y = self.norm(at.args[0]); x = self.norm(at.args[1])
                h = self.sqrt(x * x + y * y)
                hatom = None
                if len(h.d) == 1:
                    (hm, hc), = h.d.items()
                    if len(hm) == 1 and hm[0][1] == 1 and ATOMS[hm[0][0]].kind == 'sqrt': hatom = (hm[0][0], hc)
                pos = is_pos(h)
                if self.mode == 'rule' and hatom is not None and not pos:
                    g = Poly({m: Fr(1)})
                    C = P(mkatom('cos', g)); S = P(mkatom('sin', g))
                    cid = mkatom('cos', g).id; sid = mkatom('sin', g).id
                    self.rules.append((hatom[0], cid, sid, x.scale(1 / hatom[1]), y.scale(1 / hatom[1])))
                else:
                    if not pos: self.side.append(x * x + y * y)
                    if not h.d: raise Unsupported('degenerate atan2')
                    hi = inv(h)
                    C = x * hi; S = y * hi
        if C is None:
            g = Poly({m: Fr(1, L)})
            if m == ((PI_ATOM.id, 1),):
                C = T.cos(g); S = T.sin(g)
            else:
                C = P(mkatom('cos', g)); S = P(mkatom('sin', g))
        self.cs[m] = (C, S)
        return C, S

    def cspow(self, m, k):
        """(cos, sin) of k * base(m), k integer >= 0"""
        key = (m, k)
        r = self.powcache.get(key)
        if r is not None: return r
        if k == 0: r = (ONE, ZERO)
        else:
            C, S = self.base(m)
            if k == 1: r = (C, S)
            else:
                c, s = self.cspow(m, k - 1)
                r = (self.red(c * C - s * S), self.red(s * C + c * S))
        self.powcache[key] = r
        return r

    def cossin(self, ang):
        c, s = ONE, ZERO
        for m, k in ang.d.items():
            if m == ():
                cc, ss = P(mkatom('cos', P(abs(k)))), P(mkatom('sin', P(abs(k))))
            else:
                kk = k * self.bases[m]
                cc, ss = self.cspow(m, abs(int(kk)))
            if k < 0: ss = -ss
            c, s = self.red(c * cc - s * ss), self.red(s * cc + c * ss)
        return c, s

    def sqrt(self, p):
        r = self.sqrt_(p)
        if self.mode == 'hvar':
            mp = {}
            for at in r.atoms():
                if at.kind == 'sqrt' and len(at.args[0].d) > 1:
                    v = T.var('h!%d' % at.id, pos=True)
                    (vm, _), = v.d.items()
                    self.hrel[vm[0][0]] = at.args[0]
                    if at.args[0] not in self.side: self.side.append(at.args[0])
                    mp[at.id] = v
            if mp: r = subst_atoms(r, mp)
        return r
    def sqrt_(self, p):
        p = self.red(p)
        # clear denominators canonically: sqrt(n * inv(q)) = sqrt(n*q)/|q|
        for at in p.atoms():
            if at.kind == 'inv':
                n, q = self.ratio(p)
                r = self.red(n * q)
                return T_sqrt(r) * inv(absv(q))
        return T_sqrt(p)

    def ratio(self, p):
        """p = n/q with polynomial n, q free of inv atoms and (negative exponents only of positive atoms)"""
        q = ONE
        for _ in range(40):
            ivs = {}
            neg = {}
            for m in p.d:
                for a, e in m:
                    at = ATOMS[a]
                    if at.kind == 'inv': ivs[a] = max(ivs.get(a, 0), e)
                    elif e < 0 and not at.pos: neg[a] = min(neg.get(a, 0), e)
            if not ivs and not neg: return p, q
            if neg:
                f = Poly({tuple(sorted((a, -e) for a, e in neg.items())): Fr(1)})
                p = self.red(p * f); q = self.red(q * f)
                continue
            a = min(ivs, key=lambda i: (len(ATOMS[i].args[0].d), i)); K = int(ivs[a])
            den = self.red(ATOMS[a].args[0])
            pows = [ONE]
            for i in range(K): pows.append(self.red(pows[-1] * den))
            groups = {}
            for m, c in p.d.items():
                k = 0; mm = []
                for b, e in m:
                    if b == a: k = int(e)
                    else: mm.append((b, e))
                groups.setdefault(k, {})[tuple(mm)] = c
            np_ = ZERO
            for k, d in groups.items():
                np_ = np_ + self.mul(Poly(d), pows[K - k])
            p = self.red(np_); q = self.red(q * pows[K])
        raise Unsupported('ratio')

    def mul(self, a, b):
        if len(a.d) * len(b.d) > self.limit * 20: raise Unsupported('algebra blow-up')
        return a * b

    def red(self, p):
        """sin(g)^2 -> 1-cos(g)^2 ; atan2 rules"""
        for _ in range(60):
            ch = False
            hit = None
            for m in p.d:
                for a, e in m:
                    if e >= 2 and ATOMS[a].kind == 'sin':
                        hit = a; break
                if hit is not None: break
            if hit is not None:
                at = ATOMS[hit]
                c2 = P(mkatom('cos', at.args[0])) ** 2
                keep = {}; res = ZERO
                for m, c in p.d.items():
                    e = 0
                    for b, f in m:
                        if b == hit: e = f
                    if e >= 2:
                        k = int(e // 2)
                        mm = tuple((b, f if b != hit else e - 2 * k) for b, f in m if b != hit or e - 2 * k)
                        res = res + Poly({mm: c}) * (1 - c2) ** k
                    else: keep[m] = c
                p = Poly(keep) + res
                ch = True
            for (h, cid, sid, x, y) in self.rules:
                for tid, val in ((cid, x), (sid, y)):
                    if any(dict(m).get(h, 0) >= 1 and dict(m).get(tid, 0) >= 1 for m in p.d):
                        keep = {}; res = ZERO
                        for m, c in p.d.items():
                            d = dict(m)
                            if d.get(h, 0) >= 1 and d.get(tid, 0) >= 1:
                                d[h] -= 1; d[tid] -= 1
                                res = res + Poly({tuple(sorted((b, f) for b, f in d.items() if f)): c}) * val
                            else: keep[m] = c
                        p = Poly(keep) + res
                        ch = True
            if not ch: break
            if len(p.d) > self.limit: raise Unsupported('algebra blow-up')
        return p

    def norm(self, p):
        """rewrite p over base atoms"""
        r = self.memo.get(p)
        if r is not None: return r
        mp = {}
        for at in p.atoms():
            x = self.natom(at)
            if x is not None: mp[at.id] = x
        r = self.red(subst_atoms(p, mp)) if mp else self.red(p)
        self.memo[p] = r
        return r

    def natom(self, at):
        if at.id in self.amemo: return self.amemo[at.id]
        r = None
        if at.kind in ('sin', 'cos'):
            c, s = self.cossin(at.args[0])
            r = c if at.kind == 'cos' else s
            if r == P(at): r = None
        elif at.kind == 'sqrt':
            q = self.norm(at.args[0])
            r = self.sqrt(q)
            if r == P(at): r = None
        elif at.kind == 'inv':
            q = self.norm(at.args[0])
            if not q.d: raise Unsupported('inverse of zero')
            r = inv(q)
            if r == P(at): r = None
        elif at.kind == 'abs':
            q = self.norm(at.args[0])
            r = absv(q)
            if r == P(at): r = None
        self.amemo[at.id] = r
        return r

    def is_zero(self, p):
        if not p.d: return True
        self.collect(p)
        # angles nested in atan2/acos args too (collect covers all atoms)
        q = self.norm(p)
        if not q.d: return True
        n, d = self.ratio(q)
        n = self.red(self.norm(n))
        if not n.d: return True
        if self.mode == 'sub' or True:
            # sqrt atoms with proportional radicands / products: unify by factoring already canonical
            n = self.cleanup(n)
        self.residue = n
        return not n.d

    def cleanup(self, n):
        """multiply out remaining negative powers, reduce again"""
        f = {}
        for m in n.d:
            for a, e in m:
                if e < 0: f[a] = min(f.get(a, 0), e)
        if f:
            n = self.red(n * Poly({tuple(sorted((a, -e) for a, e in f.items())): Fr(1)}))
        return n

def T_sqrt(p):
    """sqrt without recursive trig canonicalisation"""
    old = T.trig_norm_poly
    T.trig_norm_poly = lambda q: q
    try: return T.sqrt(p)
    finally: T.trig_norm_poly = old

def lcm(a, b): return a * b // math.gcd(a, b)

def trig_canon(p):
    """canonical trig form of a polynomial (only c^2+s^2=1 and angle addition; inverse-trig angles kept as generators)"""
    al = Alg('rule')
    al.collect(p)
    if len(p.d) > 400: return p
    mp = {}
    for at in p.atoms():
        if at.kind in ('sin', 'cos'):
            x = al.natom(at)
            if x is not None: mp[at.id] = x
    return al.red(subst_atoms(p, mp)) if mp else al.red(p)

def prove_zero(p, allow_side=True):
    """returns (True, sideconditions) or (False, residue)"""
    if not p.d: return True, []
    last = None
    for mode in ('rule', 'sub'):
        al = Alg(mode)
        try:
            if al.is_zero(p): return True, al.side
            last = getattr(al, 'residue', None)
        except Unsupported as e:
            last = str(e)
        if not allow_side: break
    return False, last
