"""Obligation discharge: case splitting on ite conditions, the algebraic normaliser (identities), z3 (inequalities and
feasibility), and a numeric falsifier that only ever produces counterexamples."""
import time, random, math, os, sys
from fractions import Fraction as Fr
try:
    import z3
except ImportError:
    sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from . import terms as T
from .terms import *
from . import alg

STATS = {'z3_time': 0.0, 'alg_time': 0.0, 'z3_calls': 0, 'alg_calls': 0}

class Z:
    """term -> z3 translation with definitional axioms for the atoms that occur"""
    def __init__(self):
        self.am = {}; self.bm = {}; self.ax = []; self.trig = {}; self.fn = {}
        self.pi = z3.Real('pi')
        self.ax.append(z3.And(self.pi > z3.Q(314159265, 100000000), self.pi < z3.Q(314159266, 100000000)))
    def poly(self, p):
        ts = []
        for m, c in p.d.items():
            t = None
            den = None
            for a, e in m:
                v = self.atom(ATOMS[a])
                if isinstance(e, Fr):
                    v = self.atom(mkatom('sqrt', P(ATOMS[a]), pos=True)); e = int(e * 2)
                for _ in range(abs(int(e))):
                    if e > 0: t = v if t is None else t * v
                    else: den = v if den is None else den * v
            cv = z3.Q(c.numerator, c.denominator)
            r = cv if t is None else (t if c == 1 else cv * t)
            if den is not None: r = r / den
            ts.append(r)
        if not ts: return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def atom(self, a):
        v = self.am.get(a.id)
        if v is not None: return v
        k = a.kind
        if a is PI_ATOM: v = self.pi
        elif k == 'var':
            v = z3.Real(a.args[0])
            if a.args[0] == 'DBL_MAX': self.ax.append(v > z3.RealVal('1e300'))
            elif a.pos: self.ax.append(v > 0)
        elif k == 'ite':
            v = z3.If(self.bool(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
        else:
            v = z3.Real('%s!%d' % (k, a.id))
            self.am[a.id] = v
            if k == 'sqrt':
                x = self.poly(a.args[0])
                self.ax += [v >= 0, z3.Implies(x >= 0, v * v == x)]
                if a.pos: self.ax.append(v > 0)
            elif k == 'abs':
                x = self.poly(a.args[0])
                self.ax.append(v == z3.If(x >= 0, x, -x))
            elif k == 'inv':
                x = self.poly(a.args[0])
                self.ax.append(z3.Implies(x != 0, v * x == 1))
            elif k in ('sin', 'cos'):
                self.ax += [v >= -1, v <= 1]
                self.trig.setdefault(a.args[0], {})[k] = v
                d = self.trig[a.args[0]]
                if len(d) == 2: self.ax.append(d['sin'] * d['sin'] + d['cos'] * d['cos'] == 1)
            elif k == 'floor' or k == 'ceil' or k == 'trunc' or k == 'round':
                n = z3.Int('%si!%d' % (k, a.id)); v = z3.ToReal(n); self.am[a.id] = v
                x = self.poly(a.args[0])
                if k == 'floor': self.ax += [v <= x, x < v + 1]
                elif k == 'ceil': self.ax += [v >= x, x > v - 1]
                elif k == 'round': self.ax += [v <= x + z3.Q(1, 2), x < v + z3.Q(1, 2)]
                else: self.ax.append(z3.If(x >= 0, z3.And(v <= x, x < v + 1), z3.And(v >= x, x > v - 1)))
            elif k.startswith('fn:'):
                xs = [self.poly(x) for x in a.args]
                for ys, w in self.fn.setdefault((k, len(xs)), []): self.ax.append(z3.Implies(z3.And(*[x == y for x, y in zip(xs, ys)]), v == w))
                self.fn[(k, len(xs))].append((xs, v))
            elif k == 'acos': self.ax += [v >= 0, v <= self.pi]
            elif k in ('asin', 'atan'): self.ax += [2 * v >= -self.pi, 2 * v <= self.pi]
            elif k == 'atan2': self.ax += [v > -self.pi, v <= self.pi]
            if a.pos: self.ax.append(v > 0)
        self.am[a.id] = v
        return v
    def bool(self, b):
        v = self.bm.get(b)
        if v is not None: return v
        o = b.op
        if o == 'true': v = z3.BoolVal(True)
        elif o == 'false': v = z3.BoolVal(False)
        elif o == 'bvar': v = z3.Bool(b.args[0])
        elif o == 'nbvar': v = z3.Not(z3.Bool(b.args[0]))
        elif o == 'and': v = z3.And(*[self.bool(x) for x in b.args])
        elif o == 'or': v = z3.Or(*[self.bool(x) for x in b.args])
        else:
            x = self.poly(b.args[0])
            v = {'lt': x <= -1 if T.int_poly(b.args[0]) and any(ATOMS[q].kind == 'var' for m in b.args[0].d for q, _ in m) else x < 0, 'le': x <= 0, 'eq': x == 0, 'ne': x != 0}[o]
        self.bm[b] = v
        return v

def bsize(b):
    return len(all_atoms(b))

def z3_valid(hyps, goal, timeout=10000, axioms=(), want_model=False):
    """True if hyps |= goal proved by z3; None unknown; False if z3 found a model of the abstraction"""
    t0 = time.time()
    z = Z()
    s = z3.Solver()
    s.set('timeout', int(timeout))
    g = z.bool(Not(goal))
    hs = [z.bool(h) for h in hyps] + [z.bool(h) for h in axioms]
    for h in hs: s.add(h)
    s.add(g)
    for a in z.ax: s.add(a)
    r = s.check()
    STATS['z3_time'] += time.time() - t0; STATS['z3_calls'] += 1
    if r == z3.unsat: return True
    if r == z3.sat: return (False, s.model()) if want_model else False
    return None

def infeasible(hyps, timeout=5000, axioms=()):
    return z3_valid(hyps, FALSE, timeout, axioms) is True

# ---------------------------------------------------------------- case splitting
def outer_ite(ts):
    """an ite atom not nested in another ite (search in values, then inside function arguments)"""
    st = list(ts)
    seen = set()
    while st:
        t = st.pop(0)
        if isinstance(t, Poly):
            for m in t.d:
                for a, e in m:
                    if a in seen: continue
                    seen.add(a)
                    at = ATOMS[a]
                    if at.kind == 'ite': return at
                    st.extend(x for x in at.args if isinstance(x, Poly))
        elif isinstance(t, Bool) and t.op in ('lt', 'le', 'eq', 'ne'):
            st.append(t.args[0])
        elif isinstance(t, Bool):
            st.extend(x for x in t.args if isinstance(x, (Bool, Poly)))
    return None

def split_cond(c):
    """choose a literal to branch on for a composite condition"""
    while c.op in ('and', 'or'): c = c.args[0]
    return c

def cases(ts, hyps, depth=0, prune=None, maxdepth=60):
    """enumerate (simplified ts, hyps) with no ite atoms left in ts"""
    at = outer_ite(ts)
    if at is None:
        yield ts, hyps
        return
    if depth > maxdepth: raise Unsupported('case split depth')
    c = split_cond(at.args[0])
    for val in (True, False):
        b = c if val else Not(c)
        nh = hyps + [b]
        s = Subst(bmap=assume_map([b]))
        nts = [s.val(t) for t in ts]
        # drop the condition if unresolved (should not happen)
        if prune is not None and prune(nh): continue
        yield from cases(nts, nh, depth + 1, prune, maxdepth)

def simp_hyps(hyps):
    """mutually simplify hypotheses (literals first); returns None if contradictory"""
    lits = []
    for h in hyps: lits.extend(literals(h))
    changed = True
    n = 0
    while changed and n < 5:
        changed = False; n += 1
        known = assume_map([l for l in lits if l.op not in ('or',)])
        out = []
        for l in lits:
            if l.op == 'or' or any(a.kind == 'ite' for a in all_atoms(l)):
                k = dict(known)
                for key in (l, Not(l)): k.pop(key, None)
                if l.op in ('lt',): k.pop(mkbool('le', l.args[0]), None)
                s = Subst(bmap=k)
                r = s.bool(l)
            else: r = l
            if r is not l: changed = True
            if r is TRUE: continue
            if r is FALSE: return None
            out.extend(literals(r))
        lits = list(dict.fromkeys(out))
        ls = set(lits)
        for l in lits:
            if Not(l) in ls: return None
    return lits

# ---------------------------------------------------------------- identities
def prove_zero(p):
    t0 = time.time()
    r = alg.prove_zero(p)
    STATS['alg_time'] += time.time() - t0; STATS['alg_calls'] += 1
    return r

def normal(p, mode='sub'):
    """normal form numerator/denominator for use in z3 inequalities"""
    al = alg.Alg(mode)
    al.collect(p)
    q = al.norm(p)
    n, d = al.ratio(q)
    return al.red(n), al.red(d), al.side

def ang_zero(p):
    """p congruent 0 modulo 2 pi (syntactic)"""
    return not ang_reduce(p).d

# ---------------------------------------------------------------- numeric falsification
def sample_env(names, rng, ranges=None):
    env = {}
    for n in names:
        if ranges and n in ranges:
            r = ranges[n]
            env[n] = r(rng) if callable(r) else rng.uniform(*r)
        else: env[n] = rng.uniform(-5, 5)
    return env

def falsify(hyps, goal_fn, inputs, rng, n=400, ranges=None, fns=None, bools=()):
    """search an assignment satisfying hyps with goal_fn(Num) false. returns env or None"""
    for _ in range(n):
        env = sample_env(inputs, rng, ranges)
        benv = {b: rng.random() < 0.5 for b in bools}
        N = Num(env, benv, fns)
        try:
            if not all(N.bool(h) for h in hyps): continue
            if not goal_fn(N): return env, benv
        except NumErr:
            continue
    return None

# ---------------------------------------------------------------- sign decisions during execution
_SIGN = {}
def sign_facts(p):
    """True if p >= 0 is a theorem (trig-reduced polynomial; z3, completing the square); no hypotheses beyond pos flags"""
    k = _SIGN.get(p)
    if k is not None: return k
    r = _sign_facts(p)
    _SIGN[p] = r
    return r
def _sign_facts(p):
    if any(at.kind in ('ite', 'floor', 'ceil', 'round', 'acos', 'asin', 'atan2', 'var') and at.args and at.args[0] == 'DBL_MAX' or at.kind in ('ite', 'floor', 'ceil', 'round') for at in all_atoms(p)): return False
    if len(p.d) > 40: return False
    al = alg.Alg('rule')
    try:
        al.collect(p); q = al.red(al.norm(p))
    except Unsupported: return False
    if not q.d: return True
    if q.isconst(): return q.const() >= 0
    ats = list(q.atoms())
    for a in ats:
        if a.kind in ('sin', 'cos'): continue
        co = {}
        ok = True
        for m, c in q.d.items():
            e = 0; mm = []
            for b, f in m:
                if b == a.id: e = f
                else: mm.append((b, f))
            if e not in (0, 1, 2): ok = False; break
            co.setdefault(e, {})[tuple(mm)] = c
        if not ok or 2 not in co: continue
        A = Poly(co[2]); Bq = Poly(co.get(1, {})); C = Poly(co.get(0, {}))
        if not A.isconst() and not is_pos(A): continue
        if A.isconst() and A.const() <= 0: continue
        disc = al.red(Bq * Bq - (A * C).scale(4))
        if not disc.d: return True
        if z3_valid([], le(disc, ZERO), 800) is True: return True
    return z3_valid([], le(ZERO, q), 500) is True

def sign_decider(ex, st, c):
    """resolve a branch condition that is a theorem (or whose negation is)"""
    if c.op in ('lt', 'le'):
        p = c.args[0]
        if not any(a.kind in ('sin', 'cos') for a in p.atoms()): return None
        # p<0 false if p>=0 ; p<=0 true if -p>=0
        if c.op == 'lt' and sign_facts(p): return False
        if sign_facts(-p) and c.op == 'le': return True
        if c.op == 'le':
            # p <= 0 false if p >= k > 0
            k = p.d.get((), 0)
            if k > 0 and sign_facts(p - P(k)): return False
        if c.op == 'lt':
            k = p.d.get((), 0)
            if k < 0 and sign_facts(-(p - P(k))): return True
    return None

def lin_valid(hyps, goal, timeout=8000, axioms=()):
    """hyps |= goal over linear arithmetic, every non-linear monomial an independent unknown (sound abstraction)"""
    t0 = time.time()
    am = {}; bm = {}
    s = z3.Solver(); s.set('timeout', int(timeout))
    def mono(m):
        v = am.get(m)
        if v is None:
            v = am[m] = z3.Real('m%d' % len(am))
            if all(ATOMS[a].pos for a, e in m): s.add(v > 0)
            elif len(m) == 1 and m[0][1] == 2: s.add(v >= 0)
            if len(m) == 1 and m[0][1] == 1:
                at = ATOMS[m[0][0]]
                if at.kind == 'ite':
                    c, x, y = at.args
                    s.add(v == z3.If(bl(c), poly(x), poly(y)))
                elif at.kind == 'abs':
                    x = poly(at.args[0]); s.add(v == z3.If(x >= 0, x, -x))
                elif at.kind in ('sqrt', 'acos'): s.add(v >= 0)
                elif at.kind in ('sin', 'cos'): s.add(v >= -1, v <= 1)
                elif at is PI_ATOM: s.add(v > z3.Q(314159265, 100000000), v < z3.Q(314159266, 100000000))
            # bounds for k*pi*floor(x): fractional parts
            if len(m) == 2:
                ats = [ATOMS[a] for a, e in m]
                if all(e == 1 for a, e in m) and PI_ATOM in ats:
                    o = ats[0] if ats[1] is PI_ATOM else ats[1]
                    if o.kind == 'floor':
                        y = poly(o.args[0] * PI); pi = mono(((PI_ATOM.id, 1),))
                        s.add(v <= y, y < v + pi)
                    elif o.kind == 'ceil':
                        y = poly(o.args[0] * PI); pi = mono(((PI_ATOM.id, 1),))
                        s.add(v >= y, y > v - pi)
                at = [a for a in ats if a.kind == 'acos']
        return v
    def poly(p):
        ts = []
        for m, c in p.d.items():
            cv = z3.Q(c.numerator, c.denominator)
            ts.append(cv if m == () else cv * mono(m))
        return z3.Sum(ts) if ts else z3.RealVal(0)
    def bl(b):
        v = bm.get(b)
        if v is not None: return v
        o = b.op
        if o == 'true': v = z3.BoolVal(True)
        elif o == 'false': v = z3.BoolVal(False)
        elif o == 'bvar': v = z3.Bool(b.args[0])
        elif o == 'nbvar': v = z3.Not(z3.Bool(b.args[0]))
        elif o == 'and': v = z3.And(*[bl(x) for x in b.args])
        elif o == 'or': v = z3.Or(*[bl(x) for x in b.args])
        else:
            x = poly(b.args[0])
            v = {'lt': x <= -1 if T.int_poly(b.args[0]) and any(ATOMS[q].kind == 'var' for m in b.args[0].d for q, _ in m) else x < 0, 'le': x <= 0, 'eq': x == 0, 'ne': x != 0}[o]
        bm[b] = v
        return v
    s.add(z3.Not(bl(goal)))
    for h in list(hyps) + list(axioms): s.add(bl(h))
    # acos <= pi
    for m in list(am):
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in ('acos', 'atan2', 'asin'):
            pi = mono(((PI_ATOM.id, 1),)); k = ATOMS[m[0][0]].kind
            s.add(am[m] <= pi)
            if k == 'atan2': s.add(am[m] >= -pi)
            if k == 'asin': s.add(2 * am[m] <= pi, 2 * am[m] >= -pi)
    r = s.check()
    STATS['z3_time'] += time.time() - t0; STATS['z3_calls'] += 1
    return r == z3.unsat

def relevant(hyps, goal):
    """literals over the atoms of the goal only"""
    ga = set(a.id for a in all_atoms(goal))
    return [h for h in hyps if all(a.id in ga for a in all_atoms(h))]

def zv(hyps, goal, timeout=8000):
    """z3 on the relevant hypotheses, then on all"""
    r = relevant(hyps, goal)
    if z3_valid(r, goal, timeout) is True: return True
    if len(r) == len(hyps): return False
    return z3_valid(hyps, goal, timeout) is True

def valid(hyps, goal, timeout=8000):
    """linear abstraction first, then the full translation"""
    if goal is TRUE: return True
    if lin_valid(hyps, goal, min(timeout, 4000)): return True
    return zv(hyps, goal, timeout)
