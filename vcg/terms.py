"""Terms of the verifier: reals/ints are polynomials over hash-consed atoms (exponents may be negative, and halves for
positive atoms); booleans are hash-consed formulas over sign atoms.  Construction simplifies to a canonical form."""
import math, struct
from fractions import Fraction as Fr

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('kind', 'args', 'id', 'pos', 'integer', 'name', '__weakref__')
    def __repr__(self): return pa(self)

_atoms = {}
ATOMS = []

def mkatom(kind, *args, pos=False, integer=False):
    key = (kind,) + args
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind = kind; a.args = args; a.id = len(ATOMS); a.pos = pos; a.integer = integer
        a.name = args[0] if kind == 'var' else None
        ATOMS.append(a)
        _atoms[key] = a
    return a

def pa(a):
    if a.kind == 'var': return a.args[0]
    return '%s(%s)' % (a.kind, ', '.join(str(x) for x in a.args))

# ---------------------------------------------------------------- polynomials
MAXTERMS = 60000

class Poly:
    __slots__ = ('d', '_h')
    def __init__(self, d):
        self.d = d
        self._h = None
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.d == o.d)
    def __ne__(self, o): return not self == o
    def isconst(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def const(self): return self.d.get((), Fr(0))
    def __add__(self, o):
        o = P(o)
        if not self.d: return o
        if not o.d: return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None: r[m] = c
            else:
                v += c
                if v: r[m] = v
                else: del r[m]
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def scale(self, k):
        k = Fr(k)
        if k == 1: return self
        if not k: return ZERO
        return Poly({m: c * k for m, c in self.d.items()})
    def __mul__(self, o):
        o = P(o)
        if o.isconst(): return self.scale(o.const())
        if self.isconst(): return o.scale(self.const())
        if len(self.d) * len(o.d) > MAXTERMS: raise Unsupported('polynomial blow-up')
        r = {}
        extra = []
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, ex = mono_mul(m1, m2)
                if ex is not None:
                    extra.append((ex, m, c1 * c2)); continue
                v = r.get(m)
                if v is None: r[m] = c1 * c2
                else:
                    v += c1 * c2
                    if v: r[m] = v
                    else: del r[m]
        res = Poly(r)
        for ex, m, c in extra:
            res = res + Poly({m: c}) * ex
        return res
    __rmul__ = __mul__
    def __truediv__(self, o): return self * inv(P(o))
    def __rtruediv__(self, o): return P(o) * inv(self)
    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0: return inv(self ** (-n))
        r = ONE
        b = self
        while n:
            if n & 1: r = r * b
            n >>= 1
            if n: b = b * b
        return r
    def __lt__(self, o): return lt(self, P(o))
    def __le__(self, o): return le(self, P(o))
    def __gt__(self, o): return lt(P(o), self)
    def __ge__(self, o): return le(P(o), self)
    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m: s.add(ATOMS[a])
        return s
    def __repr__(self):
        if not self.d: return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda t: str(t[0]))[:40]:
            s = '*'.join(pa(ATOMS[a]) + ('' if e == 1 else '^%s' % e) for a, e in m)
            out.append(str(c) if not s else (s if c == 1 else '-' + s if c == -1 else '%s*%s' % (c, s)))
        r = ' + '.join(out)
        if len(self.d) > 40: r += ' + ...(%d terms)' % len(self.d)
        return r

def mono_mul(m1, m2):
    """product of monomials; second result is a polynomial factor arising from reductions (or None)"""
    if not m1: return m2, None
    if not m2: return m1, None
    r = []
    extra = None
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]; b, f = m2[j]
        if a < b: r.append(m1[i]); i += 1
        elif b < a: r.append(m2[j]); j += 1
        else:
            g = e + f
            i += 1; j += 1
            if g:
                at = ATOMS[a]
                if at.kind == 'sqrt' and abs(g) >= 2:
                    k = int(g / 2) if g > 0 else -int(-g / 2)
                    x = at.args[0] ** k
                    extra = x if extra is None else extra * x
                    g -= 2 * k
                elif at.kind == 'abs' and abs(g) >= 2:
                    k = int(g / 2) if g > 0 else -int(-g / 2)
                    x = at.args[0] ** (2 * k)
                    extra = x if extra is None else extra * x
                    g -= 2 * k
                elif at.kind == 'inv' and g < 0:
                    x = at.args[0] ** int(-g)
                    extra = x if extra is None else extra * x
                    g = 0
                elif at.kind == 'sgn' and (g >= 2 or g < 0):
                    g = g % 2
                if g:
                    if isinstance(g, Fr) and g.denominator == 1: g = int(g)
                    r.append((a, g))
    r.extend(m1[i:]); r.extend(m2[j:])
    return tuple(r), extra

ZERO = Poly({})
ONE = Poly({(): Fr(1)})

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int) or isinstance(x, Fr):
        return Poly({(): Fr(x)}) if x else ZERO
    if isinstance(x, Atom): return Poly({((x.id, 1),): Fr(1)})
    if isinstance(x, float): return P(lit(x))
    if isinstance(x, Bool):
        return ite(x, ONE, ZERO)
    raise Unsupported('not a term: %r' % (x,))

def var(name, pos=False, integer=False):
    return P(mkatom('var', name, pos=pos, integer=integer))

def half(e):
    h = Fr(e) / 2
    return int(h) if h.denominator == 1 else h

PI = var('pi', pos=True)
PI_ATOM = next(iter(PI.atoms()))

# recognised double literals
_LIT = {}
def _reglit(v, p):
    _LIT[struct.pack('<d', v)] = p
    _LIT[struct.pack('<d', -v)] = -p
for den in (1, 2, 3, 4, 6, 8, 12, 16):
    for num in range(1, 33):
        f = Fr(num, den)
        if f.denominator == den:
            _reglit(num * math.pi / den, PI.scale(f))
_SQRTPI = Poly({((PI_ATOM.id, Fr(1, 2)),): Fr(1)})
_SQRTPI_INV = Poly({((PI_ATOM.id, Fr(-1, 2)),): Fr(1)})
_reglit(float('1.7724538509055160273'), _SQRTPI)
_reglit(math.sqrt(math.pi), _SQRTPI)
_reglit(float('0.56418958354775628695'), _SQRTPI_INV)
_reglit(float('0.31830988618379067154'), Poly({((PI_ATOM.id, -1),): Fr(1)}))
_reglit(float('0.63661977236758134308'), Poly({((PI_ATOM.id, -1),): Fr(2)}))

def lit(v):
    """a double literal as an exact term: documented pi-constants, otherwise the shortest decimal"""
    p = _LIT.get(struct.pack('<d', v))
    if p is not None: return p
    if v == float('0.39894228040143267794'):
        return sqrt(PI.scale(2)) * (inv(PI.scale(2)))
    if v == float('1.41421356237309504880'):
        return sqrt(P(2))
    if v == float('0.70710678118654752440'):
        return sqrt(P(2)).scale(Fr(1, 2))
    if v != v or v in (float('inf'), float('-inf')):
        return P(mkatom('var', 'BIG' if v > 0 else 'NEGBIG', pos=v > 0)) if v == v else P(mkatom('var', 'NAN'))
    if v == 1.7976931348623157e+308:
        return BIG
    return Poly({(): Fr(repr(v))}) if v else ZERO
BIG = P(mkatom('var', 'DBL_MAX', pos=True))

def content(p):
    """(c, mono) common factor: rational content and gcd-monomial"""
    it = iter(p.d.items())
    m, c = next(it)
    g = dict(m)
    num = abs(c.numerator); den = c.denominator
    for m2, c2 in it:
        num = math.gcd(num, abs(c2.numerator)); den = den * c2.denominator // math.gcd(den, c2.denominator)
        d2 = dict(m2)
        for a in list(g):
            f = d2.get(a, 0)
            g[a] = min(g[a], f)
        for a, f in d2.items():
            if a not in g and f < 0: g[a] = f
    # atoms absent from the first monomial but negative elsewhere handled; absent elsewhere -> min with 0
    gm = tuple(sorted((a, e) for a, e in g.items() if e))
    return Fr(num, den), gm

def minv(m): return tuple((a, -e) for a, e in m)

def leadsign(p):
    m = min(p.d)
    return 1 if p.d[m] > 0 else -1

def inv(p):
    if not p.d: raise Unsupported('division by zero')
    if len(p.d) == 1:
        (m, c), = p.d.items()
        # negative power of inv atoms: multiply back
        r = ONE
        mm = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'inv': r = r * at.args[0] ** int(e)
            elif at.kind == 'sgn': r = r * P(at)
            else: mm.append((a, -e))
        return Poly({tuple(mm): 1 / c}) * r
    c, m = content(p)
    q = Poly({}) if False else (p * Poly({minv(m): 1 / c}) if m else p.scale(1 / c))
    s = leadsign(q)
    if s < 0: q = -q
    if len(q.d) == 1: return inv(p)
    return P(mkatom('inv', q)) * Poly({minv(m): s / c})

def is_pos(p):
    """syntactic strict positivity"""
    if not p.d: return False
    for m, c in p.d.items():
        if c <= 0: return False
        for a, e in m:
            if not (ATOMS[a].pos): return False
    return True

def is_nonneg(p):
    for m, c in p.d.items():
        if c < 0: return False
        for a, e in m:
            at = ATOMS[a]
            if at.pos or (isinstance(e, int) and e % 2 == 0): continue
            if at.kind in ('sqrt', 'abs', 'acos'): continue
            return False
    return True

def isqrt_frac(c):
    a = math.isqrt(c.numerator); b = math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator: return Fr(a, b)
    return None

def _squarefree(n):
    r = 1; k = 2
    while k * k <= n and k < 1000:
        while n % (k * k) == 0: n //= k * k; r *= k
        k += 1
    return r, n

def sqrt(p):
    p = P(p)
    if not p.d: return ZERO
    p = trig_norm_poly(p)
    if not p.d: return ZERO
    c, m = content(p)
    q = p * Poly({minv(m): 1 / c}) if m else p.scale(1 / c)
    if len(q.d) == 1 and () in q.d:
        c = c * q.d[()]; q = ONE
    # pull out squares
    out = ONE
    rest = []
    for a, e in m:
        at = ATOMS[a]
        if at.pos:
            out = out * Poly({((a, half(e)),): Fr(1)})
        elif isinstance(e, int) and abs(e) >= 2:
            k = int(e / 2)
            x = Poly({((a, k),): Fr(1)})
            out = out * (x if k % 2 == 0 or at.kind in ('sqrt', 'abs') else absv(Poly({((a, 1),): Fr(1)})) ** k)
            if e - 2 * k: rest.append((a, e - 2 * k))
        else: rest.append((a, e))
    if c < 0: rad = q * Poly({tuple(rest): Fr(c)}); return out * P(mkatom('sqrt', rad))
    rn, num = _squarefree(c.numerator); rd, den = _squarefree(c.denominator)
    # sqrt(num/den) = sqrt(num*den)/den
    k = Fr(rn, rd) / den
    sc = num * den
    r2, sc = _squarefree(sc)
    k *= r2
    rad = q * Poly({tuple(rest): Fr(1)})
    if rad == ONE:
        if sc == 1: return out.scale(k)
        return out.scale(k) * P(mkatom('sqrt', P(sc), pos=True))
    # perfect squares of two-term/other polynomials
    if sc == 1:
        s = poly_sqrt(rad)
        if s is not None: return out.scale(k) * absv(s)
    rad = rad.scale(sc)
    return out.scale(k) * P(mkatom('sqrt', rad, pos=is_pos(rad)))

def poly_sqrt(p):
    """polynomial square root if p is a perfect square (greedy), else None"""
    if len(p.d) < 3 or len(p.d) > 60: return None
    for m in p.d:
        for a, e in m:
            if not isinstance(e, int) or e < 0: return None
    def deg(m): return sum(e for a, e in m)
    ats = sorted({a for m in p.d for a, e in m})
    def key(m):
        d = dict(m); return tuple(d.get(a, 0) for a in ats)
    lead = max(p.d, key=key)
    c = isqrt_frac(p.d[lead]) if p.d[lead] > 0 else None
    if c is None or any(e % 2 for a, e in lead): return None
    root = Poly({tuple((a, e // 2) for a, e in lead): c})
    lm = next(iter(root.d)); lc = c
    for _ in range(len(p.d) + 2):
        rem = p - root * root
        if not rem.d: return root
        t = max(rem.d, key=key)
        dd = dict(t)
        ok = True
        for a, e in lm:
            dd[a] = dd.get(a, 0) - e
            if dd[a] < 0: ok = False
        if not ok: return None
        nm = tuple(sorted((a, e) for a, e in dd.items() if e))
        if nm in root.d: return None
        root = root + Poly({nm: rem.d[t] / (2 * lc)})
    return None

def absv(p):
    p = P(p)
    if p.isconst(): return P(abs(p.const()))
    if is_nonneg(p): return p
    if is_nonneg(-p): return -p
    c, m = content(p)
    if len(p.d) == 1:
        out = Poly({(): c})
        rest = []
        for a, e in m:
            at = ATOMS[a]
            if at.pos or (isinstance(e, int) and e % 2 == 0) or at.kind in ('sqrt', 'abs'):
                out = out * Poly({((a, e),): Fr(1)})
            elif at.kind == 'sgn': pass
            elif at.kind == 'ite':
                x = ite(at.args[0], absv(at.args[1]), absv(at.args[2]))
                out = out * x ** e
            else: rest.append((a, e))
        if not rest: return out
        r = Poly({tuple((a, abs(e)) for a, e in rest): Fr(1)})
        sgnpow = ONE
        # |x|^e for odd e; keep one abs atom per atom
        for a, e in rest:
            x = P(mkatom('abs', P(ATOMS[a])))
            sgnpow = sgnpow * (x ** e if e > 0 else Poly({((mkatom('abs', P(ATOMS[a])).id, e),): Fr(1)}))
        return out * sgnpow
    q = p
    if leadsign(q) < 0: q = -q
    # positive common factor pulled out
    pm = tuple((a, e) for a, e in m if ATOMS[a].pos)
    q = q * Poly({minv(pm): 1 / c})
    return P(mkatom('abs', q)) * Poly({pm: c})

# ------------------------------------------------- angles and periodicity
def integer_valued(a):
    return a.integer or a.kind in ('floor', 'ceil', 'trunc', 'round')

def int_poly(p):
    """syntactically integer valued"""
    for m, c in p.d.items():
        if c.denominator != 1: return False
        for a, e in m:
            if not (isinstance(e, int) and e > 0): return False
            at = ATOMS[a]
            if integer_valued(at): continue
            if at.kind == 'ite' and int_poly(at.args[1]) and int_poly(at.args[2]): continue
            return False
    return True

def ang_reduce(p):
    """reduce an angle modulo 2*pi: drop integer multiples of 2*pi, resolve ites whose branches agree mod 2*pi.
    returns reduced polynomial"""
    p = P(p)
    res = {}
    changed = False
    pid = PI_ATOM.id
    intpart = ZERO
    add = ZERO
    for m, c in p.d.items():
        # pi * integer atoms * even coefficient
        rest = None
        if len(m) >= 1:
            for i, (a, e) in enumerate(m):
                if a == pid and e == 1:
                    rest = m[:i] + m[i + 1:]
                    break
        if rest is not None and rest:
            if c.denominator == 1 and c.numerator % 2 == 0 and int_poly(Poly({rest: Fr(1)})):
                changed = True
                continue
        elif rest is not None:
            k = c % 2
            if k > 1: k -= 2
            if k != c: changed = True
            if k: res[m] = k
            continue
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            at = ATOMS[m[0][0]]
            if at.kind == 'ite':
                x = ang_reduce(at.args[1]); y = ang_reduce(at.args[2])
                dlt = ang_reduce(x - y)
                if not dlt.d:
                    add = add + x.scale(c); changed = True
                    continue
        res[m] = c
    if not changed: return p
    return ang_reduce(Poly(res) + add)

def _mulrange(p): return p

def sin(p): return trig('sin', p)
def cos(p): return trig('cos', p)

def trig(fn, p):
    p = ang_reduce(p)
    pm = ((PI_ATOM.id, 1),)
    c = p.d.get(pm)
    if c is not None:
        r = Poly({m: v for m, v in p.d.items() if m != pm})
        if c == 1: return -trig(fn, r)
        if c == -1: return -trig(fn, r)
        if c == Fr(1, 2): return trig('cos', r) if fn == 'sin' else -trig('sin', r)
        if c == Fr(-1, 2): return -trig('cos', r) if fn == 'sin' else trig('sin', r)
        if not r.d:
            return special(fn, c)
    if not p.d: return ZERO if fn == 'sin' else ONE
    s = leadsign(p)
    if s < 0:
        return -P(mkatom('sin', -p)) if fn == 'sin' else P(mkatom('cos', -p))
    # direct inverses
    if len(p.d) == 1:
        (m, k), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            at = ATOMS[m[0][0]]
            if at.kind == 'acos': return at.args[0] if fn == 'cos' else sqrt(1 - at.args[0] * at.args[0])
            if at.kind == 'asin': return at.args[0] if fn == 'sin' else sqrt(1 - at.args[0] * at.args[0])
            if at.kind == 'atan':
                h = sqrt(1 + at.args[0] * at.args[0])
                return inv(h) if fn == 'cos' else at.args[0] * inv(h)
    return P(mkatom(fn, p))

def special(fn, c):
    v = (math.sin if fn == 'sin' else math.cos)(float(c) * math.pi)
    for val, t in ((0.5, P(Fr(1, 2))), (-0.5, P(Fr(-1, 2)))):
        if abs(v - val) < 1e-12: return t
    for x in (2, 3):
        if abs(v - math.sqrt(x) / 2) < 1e-12: return sqrt(P(x)).scale(Fr(1, 2))
        if abs(v + math.sqrt(x) / 2) < 1e-12: return sqrt(P(x)).scale(Fr(-1, 2))
    return P(mkatom(fn, PI.scale(c)))

_tn_cache = {}
def trig_norm_poly(p):
    """replace sin(a)^2 -> 1-cos(a)^2 and expand products to a canonical trig form (used before sqrt)"""
    if not any(ATOMS[a].kind in ('sin', 'cos') for m in p.d for a, e in m): return p
    r = _tn_cache.get(p)
    if r is None:
        from . import alg
        try:
            r = alg.trig_canon(p)
        except Unsupported:
            r = p
        _tn_cache[p] = r
    return r

def atan2(y, x):
    y = P(y); x = P(x)
    if not y.d:
        if is_pos(x) or not x.d: return ZERO
        if is_pos(-x): return PI
    if not x.d:
        if is_pos(y): return PI.scale(Fr(1, 2))
        if is_pos(-y): return PI.scale(Fr(-1, 2))
    if is_pos(-y): return -atan2(-y, x)        # exact: y < 0
    # common positive factor
    if y.d and x.d:
        cy, my = content(y); cx, mx = content(x)
        dy, dx = dict(my), dict(mx)
        com = []
        for a in set(dy) | set(dx):
            if ATOMS[a].pos:
                e = min(dy.get(a, 0), dx.get(a, 0))
                if e: com.append((a, -e))
        if com:
            f = Poly({tuple(sorted(com)): Fr(1)})
            y = y * f; x = x * f
        g = Fr(math.gcd(cy.numerator, cx.numerator), cy.denominator * cx.denominator // math.gcd(cy.denominator, cx.denominator))
        y = y.scale(1 / g); x = x.scale(1 / g)
        # polar form: y = k sin(a), x = k cos(a), k>0
        a = polar_angle(y, x)
        if a is not None: return a
    return P(mkatom('atan2', y, x))

PRINCIPAL = set()      # angles declared to lie in (-pi, pi] by the specification
def polar_angle(y, x):
    if len(y.d) == 1 and len(x.d) == 1:
        (my, cy), = y.d.items(); (mx, cx), = x.d.items()
        sy = [(a, e) for a, e in my if ATOMS[a].kind == 'sin']
        sx = [(a, e) for a, e in mx if ATOMS[a].kind == 'cos']
        if len(sy) == 1 and len(sx) == 1 and sy[0][1] == 1 and sx[0][1] == 1 and ATOMS[sy[0][0]].args[0] == ATOMS[sx[0][0]].args[0]:
            ry = tuple(t for t in my if t != sy[0]); rx = tuple(t for t in mx if t != sx[0])
            if ry == rx and abs(cy) == abs(cx) and all(ATOMS[a].pos for a, e in ry):
                ang = ATOMS[sy[0][0]].args[0]
                if cy < 0 and cx < 0: ang = ang + PI
                elif cy < 0: ang = -ang
                elif cx < 0: ang = PI - ang
                if ang in PRINCIPAL: return ang
                # principal value in (-pi, pi]
                k = P(mkatom('ceil', ang * inv(PI.scale(2)) - Fr(1, 2), integer=True))
                return ang - PI.scale(2) * k
    return None

def asin(x): 
    x = P(x)
    if x.isconst():
        c = x.const()
        if c == 0: return ZERO
        if c == 1: return PI.scale(Fr(1, 2))
        if c == -1: return PI.scale(Fr(-1, 2))
        if abs(c) == Fr(1, 2): return PI.scale(c / 3)
    if leadsign(x) < 0: return -P(mkatom('asin', -x))
    return P(mkatom('asin', x))
def acos(x):
    x = P(x)
    if x.isconst():
        c = x.const()
        if c == 0: return PI.scale(Fr(1, 2))
        if c == 1: return ZERO
        if c == -1: return PI
    return P(mkatom('acos', x))
def atan(x):
    x = P(x)
    if x.isconst():
        c = x.const()
        if c == 0: return ZERO
        if abs(c) == 1: return PI.scale(c / 4)
    if leadsign(x) < 0: return -P(mkatom('atan', -x))
    return P(mkatom('atan', x, pos=is_pos(x)))
def tan(x): return sin(x) / cos(x)
def hypot(x, y): return sqrt(P(x) * x + P(y) * y)

def floorlike(kind, p):
    p = P(p)
    # extract integer part
    ip = {}; rest = {}
    for m, c in p.d.items():
        if int_poly(Poly({m: c})): ip[m] = c
        else: rest[m] = c
    r = Poly(rest)
    if not r.d: return Poly(ip)
    if kind == 'trunc' and ip:
        return P(mkatom('trunc', p, integer=True)) if not r.isconst() or not Poly(ip).isconst() else P(math.trunc(p.const()))
    if r.isconst():
        c = r.const()
        v = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda z: math.floor(z + Fr(1, 2))}[kind](c)
        return Poly(ip) + v
    return Poly(ip) + P(mkatom(kind, r, integer=True))
def floor(p): return floorlike('floor', p)
def ceil(p): return floorlike('ceil', p)
def trunc(p): return floorlike('trunc', p)
def rnd(p): return floorlike('round', p)
def fmod(a, b):
    a = P(a); b = P(b)
    return a - b * trunc(a / b)
def power(x, y):
    x = P(x); y = P(y)
    if y.isconst():
        c = y.const()
        if c.denominator == 1: return x ** int(c)
        if c == Fr(1, 2): return sqrt(x)
        if c.denominator == 2: return sqrt(x) ** int(c.numerator)
    return P(mkatom('pow', x, y))
def fn(name, *args, **kw): return P(mkatom('fn:' + name, *args, **kw))

# ---------------------------------------------------------------- booleans
class Bool:
    __slots__ = ('op', 'args', 'id', '_neg')
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __and__(self, o): return And(self, o)
    def __or__(self, o): return Or(self, o)
    def __invert__(self): return Not(self)
    def __repr__(self):
        if self.op == 'true' or self.op == 'false': return self.op
        if self.op == 'lt': return '(%s < 0)' % self.args[0]
        if self.op == 'le': return '(%s <= 0)' % self.args[0]
        if self.op == 'eq': return '(%s == 0)' % self.args[0]
        if self.op == 'ne': return '(%s != 0)' % self.args[0]
        if self.op == 'bvar': return self.args[0]
        if self.op == 'nbvar': return '!' + self.args[0]
        return '(' + (' & ' if self.op == 'and' else ' | ').join(map(str, self.args)) + ')'
    def __bool__(self):
        raise TypeError('symbolic Bool used as Python bool: %r' % (self,))

_bools = {}
BOOLS = []
def mkbool(op, *args):
    key = (op,) + args
    b = _bools.get(key)
    if b is None:
        b = Bool()
        b.op = op; b.args = args; b.id = len(BOOLS); b._neg = None
        BOOLS.append(b)
        _bools[key] = b
    return b
TRUE = mkbool('true'); FALSE = mkbool('false')
def B(x):
    if isinstance(x, Bool): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, int): return TRUE if x else FALSE
    if isinstance(x, Poly): return Not(eq(x, ZERO))
    raise Unsupported('not a bool %r' % (x,))
def bvar(name): return mkbool('bvar', name)

def norm_sign(p):
    """scale by a positive factor"""
    c, m = content(p)
    pm = tuple((a, e) for a, e in m if ATOMS[a].pos)
    if pm: return p * Poly({minv(pm): 1 / c})
    return p.scale(1 / c)

BIG_ATOM = mkatom('var', 'DBL_MAX', pos=True).id
_big = {BIG_ATOM: True}
def mentions_big(at):
    r = _big.get(at.id)
    if r is None:
        r = False
        for x in at.args:
            if isinstance(x, Poly) and any(mentions_big(y) for y in x.atoms()): r = True; break
        _big[at.id] = r
    return r
def cmp0(op, p):
    if p.isconst():
        c = p.const()
        return B({'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op])
    # DBL_MAX comparisons: finite terms are below DBL_MAX
    bl = [at for at in p.atoms() if mentions_big(at)]
    if bl:
        its = [at for at in bl if at.kind == 'ite']
        if its:
            at = its[0]
            return bite(at.args[0], cmp0(op, subst_atoms(p, {at.id: at.args[1]})), cmp0(op, subst_atoms(p, {at.id: at.args[2]})))
        bid = BIG_ATOM
        k = p.d.get(((bid, 1),))
        if k is not None and len(bl) == 1 and all(m == ((bid, 1),) or all(a != bid for a, e in m) for m in p.d):
            return B({'lt': k < 0, 'le': k < 0, 'eq': False, 'ne': True}[op])
    if is_pos(p):
        return B(op in ('ne',))
    if is_pos(-p):
        return B(op in ('lt', 'le', 'ne'))
    if op == 'lt' and is_nonneg(p): return FALSE
    if op == 'le' and is_nonneg(-p): return TRUE
    # single ite atom: push comparison inside when branches are constants
    if len(p.d) <= 2:
        ites = [(m, c) for m, c in p.d.items() if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'ite']
        if len(ites) == 1 and all(m == () or (m, c) == ites[0] for m, c in p.d.items()):
            at = ATOMS[ites[0][0][0][0]]
            k = ites[0][1]; c0 = p.const()
            a = cmp0(op, at.args[1].scale(k) + c0); b = cmp0(op, at.args[2].scale(k) + c0)
            if a in (TRUE, FALSE) or b in (TRUE, FALSE):
                return bite(at.args[0], a, b)
    p = norm_sign(p)
    if op in ('eq', 'ne') and leadsign(p) < 0: p = -p
    return mkbool(op, p)

def lt(a, b): return cmp0('lt', P(a) - P(b))
def le(a, b): return cmp0('le', P(a) - P(b))
def eq(a, b):
    if isinstance(a, Bool) or isinstance(b, Bool): return Not(Xor(B(a), B(b)))
    return cmp0('eq', P(a) - P(b))
def ne(a, b): return Not(eq(a, b))

def Not(b):
    b = B(b)
    if b._neg is not None: return b._neg
    if b is TRUE: r = FALSE
    elif b is FALSE: r = TRUE
    elif b.op == 'lt': r = mkbool('le', -b.args[0])
    elif b.op == 'le': r = mkbool('lt', -b.args[0])
    elif b.op == 'eq': r = mkbool('ne', b.args[0])
    elif b.op == 'ne': r = mkbool('eq', b.args[0])
    elif b.op == 'bvar': r = mkbool('nbvar', b.args[0])
    elif b.op == 'nbvar': r = mkbool('bvar', b.args[0])
    elif b.op == 'and': r = Or(*[Not(x) for x in b.args])
    else: r = And(*[Not(x) for x in b.args])
    b._neg = r
    if r._neg is None: r._neg = b
    return r

def _flat(op, args):
    out = []
    seen = set()
    for x in args:
        x = B(x)
        for y in (x.args if x.op == op else (x,)):
            if y.id not in seen:
                seen.add(y.id); out.append(y)
    return out, seen

def And(*args):
    out, seen = _flat('and', args)
    if FALSE.id in seen: return FALSE
    out = [x for x in out if x is not TRUE]
    for x in out:
        if x.op not in ('and', 'or') and Not(x).id in seen: return FALSE
    # absorption: x & (x|y) = x ; x & (!x|y) = x & y
    changed = False
    res = []
    for x in out:
        if x.op == 'or':
            if any(y.id in seen and y is not x for y in x.args): changed = True; continue
            na = [y for y in x.args if Not(y).id not in seen]
            if len(na) != len(x.args):
                changed = True; res.append(Or(*na)); continue
        res.append(x)
    if changed: return And(*res)
    if not res: return TRUE
    if len(res) == 1: return res[0]
    res.sort(key=lambda b: b.id)
    return mkbool('and', *res)

def Or(*args):
    out, seen = _flat('or', args)
    if TRUE.id in seen: return TRUE
    out = [x for x in out if x is not FALSE]
    for x in out:
        if x.op not in ('and', 'or') and Not(x).id in seen: return TRUE
    changed = False
    res = []
    for x in out:
        if x.op == 'and':
            if any(y.id in seen and y is not x for y in x.args): changed = True; continue
            na = [y for y in x.args if Not(y).id not in seen]
            if len(na) != len(x.args):
                changed = True; res.append(And(*na)); continue
        res.append(x)
    if changed: return Or(*res)
    # (c & X) | (!c & X) = X
    if len(res) == 2 and res[0].op == 'and' and res[1].op == 'and':
        s0 = set(res[0].args); s1 = set(res[1].args)
        d0 = s0 - s1; d1 = s1 - s0
        if len(d0) == 1 and len(d1) == 1 and Not(next(iter(d0))) is next(iter(d1)):
            return And(*(s0 & s1))
    if not res: return FALSE
    if len(res) == 1: return res[0]
    res.sort(key=lambda b: b.id)
    return mkbool('or', *res)
def Xor(a, b): return Or(And(a, Not(b)), And(Not(a), b))
def Implies(a, b): return Or(Not(a), b)
def bite(c, a, b):
    a = B(a); b = B(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return Or(And(c, a), And(Not(c), b))

def ite(c, a, b):
    c = B(c)
    if c is TRUE: return a if isinstance(a, Bool) else P(a)
    if c is FALSE: return b if isinstance(b, Bool) else P(b)
    if isinstance(a, Bool) or isinstance(b, Bool):
        if isinstance(a, (Bool, bool)) and isinstance(b, (Bool, bool)): return bite(c, a, b)
    a = P(a); b = P(b)
    if a == b: return a
    # canonical polarity
    n = Not(c)
    if n.id < c.id: c, a, b = n, b, a
    # nested same condition
    a1 = _under(a, c, True); b1 = _under(b, c, False)
    if a1 == b1: return a1
    # pull out -1 / common structure:  ite(c, x, -x)
    if a1 == -b1 and not b1.isconst():
        return ite(c, ONE, -ONE) * a1
    at = mkatom('ite', c, a1, b1)
    return P(at)

def _under(p, c, val):
    """resolve top-level ite atoms on c"""
    hit = None
    for m in p.d:
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'ite' and at.args[0] is c:
                hit = at; break
        if hit: break
    if not hit: return p
    return subst_atoms(p, {hit.id: hit.args[1] if val else hit.args[2]})

def subst_atoms(p, mp):
    """replace atoms (top level of monomials) by polynomials"""
    res = ZERO
    keep = {}
    for m, c in p.d.items():
        if any(a in mp for a, e in m):
            t = Poly({tuple((a, e) for a, e in m if a not in mp): c})
            for a, e in m:
                if a in mp:
                    x = mp[a]
                    if isinstance(e, int): t = t * x ** e
                    else: t = t * sqrt(x) ** int(e * 2)
            res = res + t
        else: keep[m] = c
    return res + Poly(keep)

# ---------------------------------------------------------------- rebuild under substitution / assumptions
REBUILD = {
    'sqrt': lambda a: sqrt(a[0]), 'abs': lambda a: absv(a[0]), 'inv': lambda a: inv(a[0]),
    'sin': lambda a: sin(a[0]), 'cos': lambda a: cos(a[0]), 'asin': lambda a: asin(a[0]), 'acos': lambda a: acos(a[0]),
    'atan': lambda a: atan(a[0]), 'atan2': lambda a: atan2(a[0], a[1]), 'floor': lambda a: floor(a[0]), 'ceil': lambda a: ceil(a[0]),
    'trunc': lambda a: trunc(a[0]), 'round': lambda a: rnd(a[0]), 'pow': lambda a: power(a[0], a[1]), 'ite': lambda a: ite(a[0], a[1], a[2]),
}

class Subst:
    """substitution of variables (atoms) and truth values of boolean atoms, with memo"""
    def __init__(self, amap=None, bmap=None, rebuild=None):
        self.amap = {k.id if isinstance(k, Atom) else k: v for k, v in (amap or {}).items()}
        self.bmap = dict(bmap or {})      # Bool -> bool
        self.pm = {}; self.bm = {}; self.am = {}
        self.extra = rebuild or {}
    def poly(self, p):
        r = self.pm.get(p)
        if r is not None: return r
        mp = {}
        for m in p.d:
            for a, e in m:
                if a not in mp:
                    x = self.atom(ATOMS[a])
                    mp[a] = x
        ch = {a: x for a, x in mp.items() if x is not None}
        r = subst_atoms(p, ch) if ch else p
        self.pm[p] = r
        return r
    def atom(self, at):
        """None if unchanged"""
        if at.id in self.amap: return self.amap[at.id]
        if at.kind == 'var': return None
        if at.id in self.am: return self.am[at.id]
        args = []
        ch = False
        for x in at.args:
            if isinstance(x, Poly): y = self.poly(x)
            elif isinstance(x, Bool): y = self.bool(x)
            else: y = x
            if y is not x and not (isinstance(y, Poly) and y == x): ch = True
            args.append(y)
        r = None
        if ch:
            if at.kind in REBUILD: r = REBUILD[at.kind](args)
            elif at.kind in self.extra: r = self.extra[at.kind](args)
            else: r = P(mkatom(at.kind, *args, pos=at.pos, integer=at.integer))
        elif at.kind in self.extra:
            r = self.extra[at.kind](args)
        self.am[at.id] = r
        return r
    def bool(self, b):
        r = self.bm.get(b)
        if r is not None: return r
        if b in self.bmap: r = B(self.bmap[b])
        elif Not(b) in self.bmap: r = B(not self.bmap[Not(b)])
        elif b.op in ('true', 'false', 'bvar', 'nbvar'): r = b
        elif b.op in ('lt', 'le', 'eq', 'ne'):
            p = self.poly(b.args[0])
            r = cmp0(b.op, p) if p is not b.args[0] else b
            if r is not b:
                if r in self.bmap: r = B(self.bmap[r])
                elif Not(r) in self.bmap: r = B(not self.bmap[Not(r)])
            else: r = self.rel(b)
        elif b.op == 'and': r = And(*[self.bool(x) for x in b.args])
        else: r = Or(*[self.bool(x) for x in b.args])
        self.bm[b] = r
        return r
    def rel(self, b):
        p = b.args[0]
        if b.op == 'le':
            l = mkbool('lt', p)
            if self.bmap.get(l): return TRUE
        return b
    def val(self, v):
        if isinstance(v, Poly): return self.poly(v)
        if isinstance(v, Bool): return self.bool(v)
        return v

def literals(b):
    """conjunct literals of b"""
    if b.op == 'and':
        for x in b.args: yield from literals(x)
    else: yield b

def assume_map(bs):
    m = {}
    for b in bs:
        for l in literals(b):
            m[l] = True
            if l.op == 'lt':
                m[mkbool('le', l.args[0])] = True
                q = l.args[0]; 
                m[mkbool('eq', q if leadsign(q) > 0 else -q)] = False
            elif l.op == 'eq':
                m[mkbool('le', l.args[0])] = True; m[mkbool('le', -l.args[0])] = True
                m[mkbool('lt', l.args[0])] = False; m[mkbool('lt', -l.args[0])] = False
    return m

# ---------------------------------------------------------------- traversal
def all_atoms(*ts):
    seen = set(); out = []; bseen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if isinstance(t, Poly):
            for m in t.d:
                for a, e in m:
                    if a not in seen:
                        seen.add(a); at = ATOMS[a]; out.append(at)
                        st.extend(x for x in at.args if isinstance(x, (Poly, Bool)))
        elif isinstance(t, Bool):
            if t.id in bseen: continue
            bseen.add(t.id)
            st.extend(x for x in t.args if isinstance(x, (Poly, Bool)))
    return out

# ---------------------------------------------------------------- numeric evaluation
class NumErr(Exception): pass
class Num:
    """float evaluation under an assignment name->float, boolvar name->bool; functions: dict kind->callable"""
    def __init__(self, env, benv=None, fns=None):
        self.env = env; self.benv = benv or {}; self.fns = fns or {}
        self.am = {}; self.bm = {}
    def poly(self, p):
        s = 0.0
        for m, c in p.d.items():
            t = float(c)
            for a, e in m:
                v = self.atom(ATOMS[a])
                if e == 1: t *= v
                else:
                    if v == 0 and e < 0: raise NumErr('div0')
                    try: t *= v ** (int(e) if not isinstance(e, Fr) else float(e))
                    except OverflowError: raise NumErr('ovf')
                    if isinstance(t, complex): raise NumErr('complex')
            s += t
        return s
    def atom(self, a):
        v = self.am.get(a.id)
        if v is None:
            v = self._atom(a)
            self.am[a.id] = v
        return v
    def _atom(self, a):
        k = a.kind
        if k == 'var':
            if a.args[0] == 'pi': return math.pi
            if a.args[0] == 'DBL_MAX': return 1e300
            if a.args[0] in self.env: return self.env[a.args[0]]
            raise NumErr('unbound ' + a.args[0])
        if k == 'ite':
            return self.poly(a.args[1]) if self.bool(a.args[0]) else self.poly(a.args[2])
        if k in self.fns:
            return self.fns[k](*[self.poly(x) if isinstance(x, Poly) else self.bool(x) if isinstance(x, Bool) else x for x in a.args])
        x = [self.poly(t) for t in a.args]
        try:
            if k == 'sqrt':
                if x[0] < 0:
                    if x[0] > -1e-9: return 0.0
                    raise NumErr('sqrt')
                return math.sqrt(x[0])
            if k == 'abs': return abs(x[0])
            if k == 'inv':
                return 1 / x[0]
            if k == 'sin': return math.sin(x[0])
            if k == 'cos': return math.cos(x[0])
            if k in ('asin', 'acos'):
                t = x[0]
                if abs(t) > 1:
                    if abs(t) < 1 + 1e-9: t = max(-1.0, min(1.0, t))
                    else: raise NumErr(k)
                return math.asin(t) if k == 'asin' else math.acos(t)
            if k == 'atan': return math.atan(x[0])
            if k == 'atan2': return math.atan2(x[0], x[1])
            if k == 'floor': return float(math.floor(x[0]))
            if k == 'ceil': return float(math.ceil(x[0]))
            if k == 'trunc': return float(math.trunc(x[0]))
            if k == 'round': return float(math.floor(x[0] + 0.5))
            if k == 'pow': return math.pow(*x)
        except (ValueError, ZeroDivisionError, OverflowError):
            raise NumErr(k)
        raise NumErr('fn ' + k)
    def bool(self, b):
        v = self.bm.get(b)
        if v is None:
            v = self._bool(b); self.bm[b] = v
        return v
    def _bool(self, b):
        o = b.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'bvar':
            if b.args[0] in self.benv: return self.benv[b.args[0]]
            raise NumErr('unbound ' + b.args[0])
        if o == 'nbvar': return not self.bool(Not(b))
        if o == 'and': return all(self.bool(x) for x in b.args)
        if o == 'or': return any(self.bool(x) for x in b.args)
        v = self.poly(b.args[0])
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0, 'ne': v != 0}[o]
