"""C10-C12: integrate, integrate_with_covariance, interpolate for control lists of any length and any number of steps.
 integrate_ODE is used through its contract (C05): the exact motion from the given state, which composes over arc length;
 EKF::predict / EKF::update through theirs (C09): functions of belief, state, control and step.  std::vector::push_back of the
 result is recorded as a ghost trace of samples.
 Both loops are cut at inferred inductive invariants:
  - loop over the controls: after the control with index i the carried state is an arbitrary pose Q (the end of that control, which
    is checked), accumulated lengths are the prefix sums S(i); the body is verified for the first and for a generic index;
  - stepping loop: values after k iterations follow the linear pattern of the first iterations (checked for a generic k)."""
from vcg.ctx import *
from vcg.exec import *
from vcg.exec import cstr
from vcg.ir import PTR, DBL
from vcg.prove import lin_valid, zv
from vcg.calc import atom_of
from vcg.loops import loops
from contracts.motion import byname
import time

COMP = ('x', 'y', 'th', 'k', 'd')
EPS = P(Fr(1, 10**4))
BI = [0, 1, 2, 4, 5, 6, 8, 9, 10]
BOFF = [40 + 128 * m + 8 * i for m in range(3) for i in BI]      # the 27 entries of Sigma, Lambda, covariance

class Closed(Exception): pass
class Retry(Exception): pass


def single(p):
    """the fn atom a poly consists of"""
    if not isinstance(p, Poly) or len(p.d) != 1: return None
    (m, c), = p.d.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1: return None
    a = ATOMS[m[0][0]]
    return a if a.kind.startswith('fn:') else None

def mkflow(q, c, s): return [fn('F' + n, *q, *c, P(s)) for n in COMP]
def unflow(q):
    """q = flow(base, control, s)? -> (base, control, s)"""
    at = [single(v) for v in q]
    if any(a is None for a in at): return None
    if [a.kind for a in at] != ['fn:F' + n for n in COMP]: return None
    g = at[0].args
    if any(a.args != g for a in at): return None
    return tuple(g[:5]), tuple(g[5:8]), g[8]

def handle(cells):
    """the 27 entries are exactly the components of one belief handle"""
    a = single(cells[0])
    if a is not None and a.kind == 'fn:Bc':
        h = a.args[0]
        if all(cells[i] == fn('Bc', h, P(i)) for i in range(27)): return h
    return fn('bel', *cells)
def belief(h): return [fn('Bc', h, P(i)) for i in range(27)]
def predict_h(b, q, c, step): return fn('PRED', handle(b), *q, *c, P(step))
def update_h(b): return fn('UPD', handle(b))

def lin(a, b, k):
    """value at index k of the linear pattern with a at index 1 and b at index 2 (None: no pattern)"""
    if a is b: return a
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a if a.same(b) else None
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        pa_, pb = P(a), P(b)
        if pa_ == pb: return a
        x, y = single(pa_), single(pb)
        if x is not None and y is not None and x.kind == y.kind and len(x.args) == len(y.args):
            r = [lin(p, q, k) for p, q in zip(x.args, y.args)]
            if any(v is None for v in r): return None
            return fn(x.kind[3:], *r)
        d = pb - pa_
        if any(t.kind.startswith('fn:F') or t.kind.startswith('fn:B') for t in d.atoms()): return None
        return pa_ + (k - ONE) * d
    return None

def valid_(h, g):
    g = B(g)
    if g is TRUE: return True
    if g is FALSE: return infeasible(h, 3000)
    return zv(h, g, 3000) or lin_valid(h, g, 3000)

class Sampler:
    """symbolic run of one entry point; decisions explored by re-execution"""
    def __init__(self, mod, driver, space, thorough=False):
        self.mod = mod; self.driver = driver; self.space = space
        self.roles = {}          # outer loop key -> {cell: role}
        self.junk = {}           # loop key -> set of cells without a pattern
        self.calls = {}; self.dropped = set()
        self.disc = var('disc', pos=True)
        self.N = var('N', integer=True); self.i = var('idx', integer=True)
        ode = byname(mod, '13integrate_ODE')
        self.ode = set(ode)
        self.results = []

    # ---- transitive callers of the motion step
    def steps(self, name):
        if name in self.ode: return True
        if name in self.calls: return self.calls[name]
        self.calls[name] = False
        f = self.mod.get(name)
        if f is not None and name not in self.ex0.handlers:
            self.calls[name] = any(self.steps(n) for b in f.body for n in self.callees(f, b))
        return self.calls[name]
    def callees(self, f, b): return [ins[3][1] for ins, _ in f.body[b] if ins[0] == 'call' and ins[3][0] == 'g']
    def kind(self, f, h):
        body = loops(f)[h]
        inner = [g for g in loops(f) if g != h and g in body]
        here = any(self.steps(n) for b in body for n in self.callees(f, b))
        nested = any(self.steps(n) for g in inner for b in loops(f)[g] for n in self.callees(f, b))
        # a call to a helper that itself loops over the steps
        viahelper = any(self.steps(n) and n not in self.ode for b in body for n in self.callees(f, b))
        if here and not nested and not viahelper: return 'inner'
        for b in body:
            for ins, _ in f.body[b]:
                if ins[0] == 'icmp' and (ins[4][0] == 'c' or ins[5][0] == 'c') and b == h: return 'const'
        return 'outer'

    # ---- control list
    def control(self, ex, st, f):
        c = 0; g = {}
        for m, k in f.d.items():
            if m == (): c = int(k)
            elif k % 24: raise Unsupported('address into the control list')
            else: g[m] = k
        r = c % 24
        if r % 8: raise Unsupported('misaligned access')
        i = (f - P(r)).scale(Fr(1, 24))
        return self.elem(ex, i)[r // 8]
    def elem(self, ex, i):
        key = str(i)
        if key not in ex.elems:
            s = ex.decide(3)
            u = fn('u', i, pos=True)
            ds = ZERO if s == 2 else (u * self.disc).scale((1, -1)[s])
            ex.elems[key] = (ds, fn('kc', i), fn('sg', i), ZERO if s == 2 else u, -1 if s == 1 else 1)
        return ex.elems[key]
    def S(self, i):
        if P(i).isconst() and P(i).const() == 0: return ZERO
        return fn('S', P(i)) * self.disc

    # ---- contracts of the callees
    def h_ode(self, ex, st, a):
        ret, this, sp, cp, h = a
        q = [P(ex.load(st, sp.add(8 * i), DBL)) for i in range(5)]
        c = tuple(P(ex.load(st, cp.add(8 * i), DBL)) for i in range(3))
        u = unflow(q)
        if u is not None and u[1] == c: r = mkflow(u[0], c, u[2] + P(h))
        else: r = mkflow(tuple(q), c, P(h))
        for i in range(5): ex.store(st, ret.add(8 * i), r[i], DBL)
        ex.odes.append((tuple(q), c, P(h)))
    def ekf(self, ex, st, p):
        (g, o, f), = p.t
        if o != ex.space: raise Unsupported('filter of another object')
    def h_pred(self, ex, st, a):
        this, b, cp, h, r = a
        self.ekf(ex, st, this)
        q = [P(ex.load(st, b.add(8 * i), DBL)) for i in range(5)]
        c = tuple(P(ex.load(st, cp.add(8 * i), DBL)) for i in range(3))
        H = predict_h([P(ex.load(st, b.add(o), DBL)) for o in BOFF], q, c, P(h))
        for o, v in zip(BOFF, belief(H)): ex.store(st, r.add(o), v, DBL)
    def h_upd(self, ex, st, a):
        this, b, r = a
        self.ekf(ex, st, this)
        H = update_h([P(ex.load(st, b.add(o), DBL)) for o in BOFF])
        for o, v in zip(BOFF, belief(H)): ex.store(st, r.add(o), v, DBL)
    def h_push(self, cov):
        def h(ex, st, a):
            q = [P(ex.load(st, a[1].add(8 * i), DBL)) for i in range(5)]
            b = [P(ex.load(st, a[1].add(o), DBL)) for o in BOFF] if cov else None
            st.ghost['tr'] = st.ghost['tr'] + (('e', q, b),)
            return None
        return h

    # ---- executor
    def make(self, dec):
        ex = Executor(self.mod, policy=lambda e, f, c: 'split', decisions=dec)
        self.ex0 = ex
        H = ex.handlers
        for n in self.ode: H[n] = self.h_ode
        for n in byname(self.mod, '3EKF7predict'): H[n] = self.h_pred
        for n in byname(self.mod, '3EKF6update'): H[n] = self.h_upd
        for n in byname(self.mod, 'vectorIN8steering5StateESaIS1_EE') + byname(self.mod, 'vectorIN8steering21State_With_CovarianceESaIS1_EE'):
            if '9push_back' in n: H[n] = self.h_push('21State_With' in n)
            elif '12emplace_back' in n or '6insert' in n or '4back' in n or '4size' in n or 'E6resize' in n or 'E5emptyEv' in n: H[n] = self.bad
        H['__vcg_controls'] = lambda e, s, a: mkptr(e.ctl)
        H['__vcg_space'] = self.h_space
        H['__vcg_ix'] = lambda e, s, a: fn('B0' + cstr(e, s, a[0]), P(a[1]))
        ex.uarrs['@controls'] = self.control
        ex.elems = {}; ex.odes = []; ex.loopst = {}; ex.seg = None; ex.notes = []; ex.ghostN = 0; ex.space = None
        ex.decider = self.decider; ex.loophook = self.hook
        ex.inputs = dict(disc=self.disc, x=var('x'), y=var('y'), th=var('th'), k0=var('k0'), d0=var('d0'), t=var('t'))
        st = State(); st.ghost['tr'] = ()
        ar = ex.alloc(st, 'uarr', self.N.scale(3), '@controls')
        ex.ctl = ex.alloc(st, 'heap', 16, 'controls')
        ex.store(st, mkptr(ex.ctl), mkptr(ar), PTR); ex.store(st, mkptr(ex.ctl, 8), mkptr(ar, self.N.scale(24)), PTR)
        ex.ctlarr = ar
        st.assume(le(ONE, self.N))
        ex.first = True
        ex.final = None
        try:
            ex.call(st, self.driver, [])
            ex.final = 'return'
        except Closed as e: ex.final = 'closed'
        except Infeasible: ex.final = 'infeasible'
        ex.st = st
        return ex, st
    def bad(self, ex, st, a): raise Unsupported('sample container operation outside the contract')
    def h_space(self, ex, st, a):
        (g, o, f), = a[0].t; ex.space = o
    def decider(self, ex, st, c):
        key = (st.pc, c)
        if key not in self.dc:
            h = list(st.pc) + self.facts(ex)
            self.dc[key] = False if valid_(h, Not(c)) else True if valid_(h, c) else None
        return self.dc[key]
    dc = {}
    def facts(self, ex):
        """prefix sums and lengths"""
        f = [le(ONE, self.N)]
        f.append(le(ZERO, fn('S', self.N)))
        for k, e in ex.elems.items():
            if k == '0': f += [le(e[3], fn('S', self.N)), eq(fn('S', ONE), e[3])]
            elif k == str(self.i): f += [le(ZERO, fn('S', self.i)), eq(fn('S', self.i + ONE), fn('S', self.i) + e[3]), le(fn('S', self.i + ONE), fn('S', self.N))]
        f += [le(ZERO, fn('S', self.i)), le(fn('S', self.i), fn('S', self.N))]
        return f

    # ---- loops
    def snap(self, ex, st, f, regs, h):
        d = {}
        for i in f.phis[h]: d[('r', i[1])] = regs[i[1]]
        for o, ob in st.mem.items():
            if ob.kind in ('global', 'uarr') or o == ex.ctl: continue
            for off, c in ob.cells.items(): d[(ob.name or ob.id, off, o)] = c[1]
        return d
    def put(self, ex, st, regs, k, v):
        if k[0] == 'r': regs[k[1]] = v
        else:
            ob = ex.wobj(st, k[2]); ob.cells[k[1]] = (ob.cells[k[1]][0], v)
    def isint(self, v): return isinstance(v, int) or (isinstance(v, Poly) and v.isconst() and v.const().denominator == 1)
    def hook(self, ex, st, f, regs, b):
        ls = loops(f)
        if b not in ls: return None
        kd = self.kind(f, b)
        if kd == 'const': return None
        key = (f.name, b)
        L = ex.loopst.get(key)
        if L is None or (L['depth'] != len(ex.stack)) or L.get('done'):
            L = ex.loopst[key] = dict(depth=len(ex.stack), n=0, kind=kd)
        getattr(self, 'at_' + kd)(ex, st, f, regs, b, key, L)
        return None
    # stepping loop
    def at_inner(self, ex, st, f, regs, b, key, L):
        n = L['n']; L['n'] += 1
        s = self.snap(ex, st, f, regs, b)
        if n < 2:
            L.setdefault('snap', []).append(s); L.setdefault('tr', []).append(len(st.ghost['tr'])); L.setdefault('pc', []).append(st.pc); return
        if n == 2:
            sv = st.fork()
            L['save'] = (sv, dict(regs), s, ex.dpos); return
        if n == 3:
            # a third iteration ran: generalise the state before it to an arbitrary number of iterations
            sv, rg, s, dp = L['save']
            pre = (key, tuple(ex.decisions[:dp]))
            if pre in self.general and self.general[pre] != tuple(ex.decisions[dp:ex.dpos]): raise Infeasible('covered by the generic iteration')
            self.general[pre] = tuple(ex.decisions[dp:ex.dpos])
            st.mem = dict(sv.mem); st.pc = sv.pc; st.known = sv.known; st.sub = None; st.ghost = dict(sv.ghost); st.stamp = object()
            regs.clear(); regs.update(rg)
            a0, a1 = L['snap']; a2 = s
            k = L['k'] = var('k%d' % len(ex.loopst), integer=True)
            pat = L['pat'] = {}
            junk = self.junk.setdefault(key, set())
            tr = st.ghost['tr']
            last = tr[-1] if tr else None
            for c, v in a2.items():
                if c not in a1 or v is UNDEF or a1[c] is UNDEF: continue
                jk = c[:2]
                if last is not None and last[2] is not None and any(v == w for w in last[2]) and a1[c] != v:
                    pat[c] = ('bel', [j for j, w in enumerate(last[2]) if w == v][0]); continue
                if jk in junk: pat[c] = ('junk',); continue
                g = lin(a1[c], v, k)
                if g is None: pat[c] = ('junk',)
                elif g is v and v is a1[c]: continue
                else: pat[c] = ('lin', a1[c], v)
            t0, t1 = L['tr']
            e0, e1 = tr[t0:t1], tr[t1:]
            L['ev'] = (e0, e1)
            # invariant candidates: literals of the last iteration, shifted
            l0 = [x for p in st.pc if p not in L['pc'][0] for x in self.lits(p)][:20]
            cands = []
            pc1 = [x for p in st.pc if p not in L['pc'][1] for x in self.lits(p)]
            pc0 = [x for p in L['pc'][1] if p not in L['pc'][0] for x in self.lits(p)]
            for x in pc1:
                for y in pc0:
                    # y holds at index 0, x at index 1; after k iterations the literal of index k-1 holds
                    if x.op == y.op and x.op in ('lt', 'le') and all(t is atom_of(self.disc) for t in (x.args[0] - y.args[0]).atoms()):
                        cd = (x.op, y.args[0], x.args[0])
                        if cd not in self.dropped: cands.append(cd)
            L['cands'] = cands
            # establish at k = 2 is by construction (index 1 literal); events
            hb = [fn('Bc', var('HB'), P(j)) for j in range(27)]
            L['hb'] = hb
            for c, r in pat.items():
                if r[0] == 'lin': self.put(ex, st, regs, c, lin(r[1], r[2], k))
                elif r[0] == 'bel': self.put(ex, st, regs, c, hb[r[1]])
                else:
                    v = s[c]
                    if isinstance(v, Poly): self.put(ex, st, regs, c, ex.fresh('junk'))
                    elif isinstance(v, int): self.put(ex, st, regs, c, ex.fresh('junk', integer=True))
                    elif isinstance(v, Bool): self.put(ex, st, regs, c, bvar('junk%d' % len(ex.loopst)))
                    else: raise Unsupported('loop-carried pointer')
            st.assume(le(P(2), k))
            for op, y, x in cands:
                # index k-1: y + (k-1)(x-y)
                p = y + (k - ONE) * (x - y)
                st.assume(lt(p, ZERO) if op == 'lt' else le(p, ZERO))
            if e0 and e1: st.ghost['tr'] = tr + (('sum', e0, e1, k, hb),)
            elif e0 or e1: raise Unsupported('irregular samples')
            L['gtr'] = len(st.ghost['tr']); L['gpc'] = st.pc
            return
        k = L['k']
        if n == 4:
            tr = st.ghost['tr']; new = tr[L['gtr']:]
            e0, e1 = L['ev']
            bad = []
            for c, r in L['pat'].items():
                if c not in s: bad.append(c); continue
                v = s[c]
                if r[0] == 'lin':
                    w = lin(r[1], r[2], k + ONE)
                    if not self.same(v, w): bad.append(c)
                elif r[0] == 'bel':
                    if not new or new[-1][2] is None or new[-1][2][r[1]] != v: bad.append(c)
            # cells that changed although they were constant before
            a2 = L['pat']
            base = L['snap'][1]
            for c, v in s.items():
                if c not in a2 and c in base and not self.same(v, base[c]): bad.append(c)
            oke = len(new) == len(e1) and all(self.same_ev(a, b, c, k) for a, b, c in zip(e0, e1, new))
            if not bad and oke:
                h = list(st.pc) + self.facts(ex); drop = False
                for cd in L['cands']:
                    op, y, x = cd
                    p = y + k * (x - y)
                    if not valid_(h, lt(p, ZERO) if op == 'lt' else le(p, ZERO)): self.dropped.add(cd); drop = True
                if drop: raise Retry()
                self.close(ex, st, 'step'); raise Closed()
            L['bad'] = [c[:2] for c in bad if L['pat'].get(c, ('',))[0] == 'lin']
            return
        if n >= 7:
            j = self.junk.setdefault(key, set())
            add = [c for c in L['bad'] if c not in j]
            if add: j.update(add); raise Retry()
            raise Unsupported('no inductive pattern for the stepping loop in %s' % f.name)
    def same_ev(self, a, b, c, k):
        if a[0] != 'e' or b[0] != 'e' or c[0] != 'e': return False
        # index of a: 0, of b: 1, of c: k
        return all(self.same(lin(x, y, k + ONE), z) for x, y, z in zip(a[1], b[1], c[1]))
    def same(self, a, b):
        if a is b: return True
        if isinstance(a, Ptr) or isinstance(b, Ptr): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.same(b)
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)): return P(a) == P(b)
        return False
    def lits(self, p):
        if p.op == 'and': return [x for q in p.args for x in self.lits(q)]
        return [p]
    # loop over the controls
    def at_outer(self, ex, st, f, regs, b, key, L):
        n = L['n']; L['n'] += 1
        for k2 in list(ex.loopst):
            if ex.loopst[k2]['kind'] == 'inner': del ex.loopst[k2]
        s = self.snap(ex, st, f, regs, b)
        steps = any(self.steps(x) for bb in loops(f)[b] for x in self.callees(f, bb))
        if n == 0:
            ps = [v for c, v in s.items() if c[0] == 'r' and isinstance(v, Ptr)]
            if ps and not any(p.t[0][1] == ex.ctlarr for p in ps): L['skip'] = True      # not a loop over the controls
        if L.get('skip'): return
        if n == 0:
            L['snap'] = s
            known = key in self.roles
            mode = ex.decide(3) if known else 0      # 0 first control, 1 generic control, 2 after the last control
            L['mode'] = mode
            if steps: ex.seg = dict(mode=mode, i=ZERO, q=(var('x'), var('y'), var('th')), key=key)
            if mode == 0:
                if steps: ex.seg['bel'] = [P(fn('B0' + m, P(j))) for m in ('S', 'La', 'Co') for j in BI]
                L['gtr'] = len(st.ghost['tr'])
                return
            i = self.i if mode == 1 else self.N
            st.assume(le(ONE, i))
            if mode == 1: st.assume(le(i + ONE, self.N))
            self.havoc(ex, st, regs, key, L, s, i)
            if steps:
                st.ghost['tr'] = ()
            L['gtr'] = 0
            L['i'] = i
            return
        if n == 1 and L['mode'] != 2:
            i1 = ONE if L['mode'] == 0 else self.i + ONE
            if L['mode'] == 0:
                if key not in self.roles:
                    if not self.elem(ex, ZERO)[3].d: raise Infeasible('roles are inferred from another path first')
                    self.infer(ex, st, key, L, s, f, b)
                ok = self.match(ex, st, key, L, s, i1)
            else: ok = self.match(ex, st, key, L, s, i1)
            if ok is True:
                self.close(ex, st, 'control', s, key); raise Closed()
            L['bad'] = ok
            return
        if n >= 4:
            ro = self.roles[key]
            add = [c for c in L.get('bad', []) if c in ro and ro[c][0] != 'junk']
            if add:
                for c in add: ro[c] = ('junk',)
                raise Retry()
            raise Unsupported('no inductive invariant for the loop over the controls in %s' % f.name)
    def infer(self, ex, st, key, L, s, f, b):
        w8 = {('r', i[1]) for i in f.phis[b] if ex.mod.res(i[2]).k == 'i' and ex.mod.res(i[2]).a <= 8}
        w8 |= {(ob.name or ob.id, off) for ob in st.mem.values() for off, c in ob.cells.items() if c[0] == 1}
        ro = self.roles[key] = {}
        e = self.elem(ex, ZERO)
        tr = st.ghost['tr']; last = tr[-1] if tr else None
        seg = ex.seg
        for c, v in s.items():
            a = L['snap'].get(c, UNDEF)
            if a is v or (isinstance(v, (int, Poly)) and isinstance(a, (int, Poly)) and P(a) == P(v)): continue
            if v is UNDEF: continue
            k = c[:2]
            if isinstance(v, Ptr):
                if isinstance(a, Ptr) and len(v.t) == 1 and v.t[0][1] == ex.ctlarr and a.t[0][1] == ex.ctlarr: ro[k] = ('ptr', a.t[0][2], P(v.t[0][2]) - P(a.t[0][2]))
                elif isinstance(a, Ptr) and a.same(v): continue
                else: raise Unsupported('loop-carried pointer')
                continue
            if isinstance(v, Bool): 
                if v is TRUE or v is FALSE: continue
                ro[k] = ('junk',); continue
            if k in w8: continue       # flags keep their value, or the path leaves the loop
            if isinstance(v, int) and isinstance(a, int): ro[k] = ('int', a, v - a); continue
            u = single(P(v))
            if u is not None and u.kind in ['fn:F' + n for n in COMP]: ro[k] = ('q', [('fn:F' + n) for n in COMP].index(u.kind)); continue
            if last is not None and last[2] is not None and any(P(v) == w for w in last[2]): ro[k] = ('bel', [j for j, w in enumerate(last[2]) if P(v) == w][0]); continue
            if isinstance(a, (int, Poly)) and P(a) == ZERO and P(v) == e[3] * self.disc: ro[k] = ('sum',); continue
            ro[k] = ('junk',)
    QV = None
    def havoc(self, ex, st, regs, key, L, s, i):
        ro = self.roles[key]
        Q = [var('Q' + n) for n in COMP]
        hb = [fn('Bc', var('HB0'), P(j)) for j in range(27)]
        if ex.seg is not None and ex.seg['key'] == key:
            ex.seg.update(i=i, q=tuple(Q[:3]), qk=Q[3], qd=Q[4], bel=hb)
        for c, v in s.items():
            r = ro.get(c[:2])
            if r is None: continue
            if r[0] == 'ptr': nv = mkptr(ex.ctlarr, P(r[1]) + i * r[2])
            elif r[0] == 'int': nv = P(r[1]) + i.scale(r[2])
            elif r[0] == 'q': nv = Q[r[1]]
            elif r[0] == 'bel': nv = hb[r[1]]
            elif r[0] == 'sum': nv = self.S(i)
            elif isinstance(v, (Poly,)) or v is UNDEF: nv = ex.fresh('junk')
            elif isinstance(v, int): nv = ex.fresh('junk', integer=True)
            elif isinstance(v, Bool): nv = bvar('junkb%s' % (c[1],))
            else: raise Unsupported('loop-carried pointer')
            self.put(ex, st, regs, c, nv)
        for k, r in ro.items():      # cells first written inside the loop
            if r[0] in ('q', 'bel') and not any(c[:2] == k for c in s): ex.notes.append('carried cell appears in the loop')
        if 'inter' in self.driver: # candidate: the prefix travelled so far does not exceed the target
            # only for the loop in which match() re-establishes it
            if self.cand_ok and ex.seg is not None and ex.seg['key'] == key: st.assume(self.cand(i))
    cand_ok = True
    def target(self):
        t = var('t'); tot = self.S(self.N)
        return t * tot, tot
    def cand(self, i):
        a, tot = self.target()
        return Or(lt(ONE, var('t')), le(self.S(i), a))
    def match(self, ex, st, key, L, s, i1):
        """True, or the list of cells that do not have their role"""
        ro = self.roles[key]; bad = []; belbad = []
        h = list(st.pc) + self.facts(ex)
        seg = ex.seg if ex.seg is not None and ex.seg['key'] == key else None
        last = st.ghost['tr'][-1] if st.ghost['tr'] else None
        ends = self.ends(ex, seg) if seg else None
        i = i1 - ONE
        e = self.elem(ex, i)
        for c, v in s.items():
            k = c[:2]; r = ro.get(k)
            if r is None:
                a = L['snap'].get(c)
                if a is None: 
                    if isinstance(v, Poly) and not (v.isconst()): ro[k] = ('junk',); 
                    continue
                if not (a is v or self.same(a, v)): bad.append(k)
                continue
            if r[0] == 'junk': continue
            if r[0] == 'ptr': ok = self.same(v, mkptr(ex.ctlarr, P(r[1]) + i1 * r[2])) or (isinstance(v, Ptr) and v.t[0][1] == ex.ctlarr and P(v.t[0][2]) == P(r[1]) + i1 * r[2])
            elif r[0] == 'int': ok = self.same(v, P(r[1]) + i1.scale(r[2]))
            elif r[0] == 'q': ok = any(self.semeq(h, P(v), x[r[1]]) for x in ends) if seg else False
            elif r[0] == 'bel':
                w = seg['bel'][r[1]] if last is None else last[2][r[1]] if last[0] == 'e' else last[4][r[1]]
                ok = P(v) == w
                if not ok: belbad.append(k); continue
            elif r[0] == 'sum': ok = P(v) == self.S(i) + e[3] * self.disc
            if not ok: bad.append(k)
        if bad: return bad
        if belbad:
            for k in belbad: ro[k] = ('junk',)
            raise Retry()
        if 'inter' in self.driver and seg and self.cand_ok:
            g = le(self.S(i) + e[3] * self.disc, self.target()[0])
            if not valid_(h, Or(lt(ONE, var('t')), g)): self.cand_ok = False; raise Retry()
        return True
    def semeq(self, h, a, b):
        if a == b: return True
        x, y = single(a), single(b)
        if x is None or y is None or x.kind != y.kind or x.args[:-1] != y.args[:-1]: return False
        k = (tuple(h), x.args[-1], y.args[-1])
        if k not in self.dc: self.dc[k] = valid_(h, eq(x.args[-1], y.args[-1]))
        return self.dc[k]
    def ends(self, ex, seg):
        """possible descriptions of the end of the control of this segment"""
        e = self.elem(ex, seg['i'])
        c = e[:3]; d = P(e[4])
        starts = [(e[1], d)]
        if seg['mode'] == 1: starts.append((seg['qk'], seg['qd']))
        if not e[3].d: return [list(seg['q']) + [k, dd] for k, dd in starts]
        return [mkflow(tuple(seg['q']) + (k, dd), c, e[3] * self.disc) for k, dd in starts]

    # ---- specification at the end of a path
    def close(self, ex, st, what, s=None, key=None): ex.closed = (what, s, key)

    def run(self):
        for attempt in range(12):
            try:
                res = []; self.general = {}
                nr = len(self.roles)
                for ex, st in explore(self.make, 6000):
                    if ex.final != 'infeasible': res.append((ex, st))
                if len(self.roles) == nr: return res
            except Retry: continue
        raise Unsupported('no inductive invariant found')

def events(S, ex, st, seg, cov, final):
    """check the samples of one segment; returns (ok, detail)"""
    e = S.elem(ex, seg['i']); c = tuple(e[:3]); d = P(e[4]); disc = S.disc
    h = list(st.pc) + S.facts(ex)
    tr = list(st.ghost['tr'])
    q3 = tuple(seg['q']); bel = seg['bel']
    # start sample
    pos = None
    if seg['mode'] == 0 or S.space != 'hc': need = TRUE
    else: need = lt(EPS, absv(e[1] - seg['qk']))
    base = tuple(seg['q']) + ((seg['qk'], seg['qd']) if seg['mode'] == 1 else (None, None))
    prev = base; s = ZERO
    def isstart(ev): return ev[0] == 'e' and tuple(ev[1][:3]) == q3
    if tr and isstart(tr[0]):
        if not valid_(h, need): return False, 'additional sample at the start of a control'
        ev = tr.pop(0)
        if ev[1][3] != e[1] or ev[1][4] != d: return False, 'sample at the start of a control carries curvature %s, direction %s' % (ev[1][3], ev[1][4])
        if cov and ev[2] != bel: return False, 'belief at the start of a control is not the belief reached so far'
        base = prev = tuple(ev[1])
    else:
        if not valid_(h, Not(need)): return False, 'start of the control is not sampled'
    L = e[3] * disc
    pend = False      # previous step was shorter than the discretization
    for ev in tr:
        if ev[0] == 'sum':
            _, e0, e1, k, hb = ev
            if len(e0) != 1 or len(e1) != 1: return False, 'irregular number of samples per step'
            u0, u1 = unflow(e0[0][1]), unflow(e1[0][1])
            if u0 is None or u1 is None or u0[:2] != u1[:2] or u1[2] - u0[2] != disc: return False, 'steps inside a control are not the discretization'
            s = u0[2] + (k - ONE) * disc; prev = tuple(mkflow(u0[0], u0[1], s)); bel = hb
            continue
        u = unflow(ev[1])
        if u is None: return False, 'sample is not on the motion of the control: %s' % str(ev[1])[:200]
        if u[1] != c: return False, 'sample follows another control'
        if u[0] != base: return False, 'sample does not start from the start of the control: %s' % str(u[0])[:200]
        if pend: return False, 'sample after the shortened step'
        gap = u[2] - s
        if gap == disc: pass
        elif valid_(h, And(lt(ZERO, gap), le(gap, disc), eq(u[2], L))): pend = True
        else: return False, 'step of length %s' % gap
        if cov:
            H = update_h(belief(predict_h(bel, prev, c, gap)))
            if ev[2] != belief(H): return False, 'belief is not the update of the prediction of its predecessor'
        s = u[2]; prev = tuple(ev[1]); bel = ev[2]
    if final:
        if not valid_(h, eq(s, L)): return False, 'last sample of the control at %s instead of %s' % (s, L)
    return True, ''

def carried(S, ex, st, seg, cov):
    """the state carried to the next control is the last sample"""
    what, s, key = ex.closed
    ro = S.roles[key]; tr = st.ghost['tr']
    last = tr[-1] if tr else None
    for c, v in s.items():
        r = ro.get(c[:2])
        if r is None: continue
        if r[0] == 'bel':
            w = seg['bel'][r[1]] if last is None else last[2][r[1]] if last[0] == 'e' else last[4][r[1]]
            if P(v) != w: return False, 'carried belief differs from the last sample'
        if r[0] == 'q' and last is not None and last[0] == 'e' and tr:
            if P(v) != last[1][r[1]]: return False, 'carried state differs from the last sample'
    return True, ''

FN = {'dubins': 'Dubins_State_Space', 'rs': 'Reeds_Shepp_State_Space', 'hc': 'HC_CC_State_Space'}
def task_samples(mod, space, cov):
    S = Sampler(mod, 'vp_%s_%s' % ('cov' if cov else 'plain', space), space)
    fnm = FN[space] + ('::integrate_with_covariance' if cov else '::integrate')
    res = S.run()
    n = 0; modes = set()
    for ex, st in res:
        n += 1; t0 = time.time()
        seg = ex.seg
        if seg is None:
            if ex.final == 'closed': continue
            yield Ob('controls visited[path%d]' % n, fnm, 'failed', 'vcgen', detail='returns without visiting the controls'); continue
        if seg['mode'] == 2:
            ok = not st.ghost['tr'] and ex.final == 'return'
            yield Ob('nothing after the last control[path%d]' % n, fnm, 'proved' if ok else 'failed', 'alg', time.time() - t0, 'samples after the last control'); modes.add(2); continue
        if ex.final == 'closed':
            what = ex.closed[0]
            ok, det = events(S, ex, st, seg, cov, what == 'control')
            if ok and what == 'control': ok, det = carried(S, ex, st, seg, cov); modes.add(seg['mode'])
        else:
            # returned out of the loop early: only allowed if no control is left
            i1 = ONE if seg['mode'] == 0 else S.i + ONE
            ok = valid_(list(st.pc) + S.facts(ex), eq(i1, S.N)); det = 'returns before the last control'
            if ok: ok, det = events(S, ex, st, seg, cov, True)
        yield Ob('samples[%s,%s control,path%d]' % (space, 'first' if seg['mode'] == 0 else 'later', n), fnm, 'proved' if ok else 'failed', 'vcgen+z3', time.time() - t0, det)
        for o in defined(S, ex, st, fnm, n): yield o
    yield Ob('first, later and last control covered[%s]' % space, fnm, 'proved' if modes == {0, 1, 2} else 'failed', 'vcgen', detail=str(modes))

def defined(S, ex, st, fnm, n):
    for kind, pc, goal, where in ex.obls:
        if where.split(':')[0].endswith('C2Eddd'): continue      # constructor: C13-C16
        ok = valid_(list(pc) + S.facts(ex), goal)
        if not ok: yield Ob('definedness %s[path%d]' % (kind, n), fnm, 'failed', 'z3', detail='%s: %s' % (where, str(goal)[:200]))

def task_inter(mod, space):
    S = Sampler(mod, 'vp_inter_' + space, space)
    fnm = FN[space] + '::interpolate'
    t = var('t')
    res = S.run(); n = 0; ret = 0
    a, tot = S.target()
    for ex, st in res:
        n += 1; t0 = time.time()
        for o in defined(S, ex, st, fnm, n): yield o
        if ex.final == 'closed': continue
        ret += 1
        h = list(st.pc) + S.facts(ex)
        o = outs(ex); r = [P(o[c][-1]) for c in COMP]
        seg = ex.seg
        x0 = [var('x'), var('y'), var('th')]
        cases_ = []
        c0 = S.elem(ex, ZERO)
        if r == x0 + [c0[1], P(c0[4])]: cases_.append(('start', ZERO))
        if seg is not None:
            Q = list(seg['q'])
            if seg['mode'] == 2:
                if r == Q + [seg['qk'], seg['qd']]: cases_.append(('end', tot))
            else:
                e = S.elem(ex, seg['i']); c = tuple(e[:3])
                opts = [(e[1], P(e[4]))] + ([(seg['qk'], seg['qd'])] if seg['mode'] == 1 and S.space == 'hc' else [])
                for kk, dd in opts:
                    eps_ok = kk == e[1] or valid_(h, le(absv(kk - e[1]), EPS))
                    if not eps_ok: continue
                    if r == Q + [kk, dd]: cases_.append(('junction', S.S(seg['i'])))
                    u = unflow(r)
                    if u is not None and u[0] == tuple(Q) + (kk, dd) and u[1] == c and valid_(h, And(le(ZERO, u[2]), le(u[2], e[3] * S.disc))):
                        cases_.append(('inside', S.S(seg['i']) + u[2]))
        good = False
        for nm, s in cases_:
            goal = Or(And(le(t, ZERO), eq(s, ZERO)), And(lt(ZERO, t), le(t, ONE), eq(s, a)), And(lt(ONE, t), eq(s, tot)))
            if nm == 'start' and not S.S(ZERO).d: goal = Or(goal, And(lt(ZERO, t), le(t, ONE), eq(ZERO, a)))
            h2 = h + [Or(Not(eq(tot, ZERO)), eq(a, ZERO)), Or(Not(eq(t, ONE)), eq(a, tot)), Implies(And(le(t, ONE), lt(ZERO, t)), And(le(a, tot), le(ZERO, a)))]
            if valid_(h2, goal): good = True
        yield Ob('interpolated state[%s,path%d]' % (space, n), fnm, 'proved' if good else 'failed', 'vcgen+z3', time.time() - t0,
                 'returned %s under %s' % (str(r)[:200], str(st.pc[-4:])[:300]))
    yield Ob('returns[%s]' % space, fnm, 'proved' if ret >= 4 else 'failed', 'vcgen', detail='%d returning paths' % ret)

def task_path(mod, space, cov):
    """get_path = integrate(state1, get_controls(state1, state2))"""
    drv = 'vp_%s_%s' % ('pathc' if cov else 'path', space)
    fnm = FN[space] + ('::get_path_with_covariance' if cov else '::get_path')
    ex = Executor(mod); H = ex.handlers; st = State()
    objs = []; log = []
    def h_space(e, s, a): objs.append(a[0].t[0][1])
    def h_gc(e, s, a):
        ret, this, p, q = a
        v = [P(e.load(s, x.add(8 * i), DBL)) for x in (p, q) for i in range(5)]
        r = e.alloc(s, 'region', None, 'region'); e.store(s, mkptr(r), fn('CTL', *v), DBL)
        e.store(s, ret, mkptr(r), PTR); e.store(s, ret.add(8), mkptr(r, 24), PTR)
        log.append(('controls', v))
    def h_int(e, s, a):
        ret, this, p, c = a
        b = e.load(s, c, PTR); en = e.load(s, c.add(8), PTR)
        v = [P(e.load(s, p.add(8 * i), DBL)) for i in range(5)] + ([P(e.load(s, p.add(o), DBL)) for o in BOFF] if cov else [])
        log.append(('integrate', v, P(e.load(s, b, DBL)), P(e.pdiff(s, en, b)) if True else 0))
        r = e.alloc(s, 'region', None, 'region')
        e.store(s, ret, mkptr(r), PTR); e.store(s, ret.add(8), mkptr(r), PTR)
    cls = FN[space]
    H['__vcg_space'] = h_space
    H['__vcg_ix'] = lambda e, s, a: fn('B0' + cstr(e, s, a[0]), P(a[1]))
    for n in byname(mod, '12get_controlsERKNS_5State'):
        if n.startswith('_ZNK8steering'): H[n] = h_gc
    for n in byname(mod, cls + ('25integrate_with_covariance' if cov else '9integrateERK')): H[n] = h_int
    t0 = time.time()
    ex.call(st, drv, [])
    x1 = [var('x'), var('y'), var('th'), var('k0'), var('d0')]; x2 = [var('x2'), var('y2'), var('th2'), var('k2'), var('d2')]
    want = x1 + ([fn('B0' + m, P(j)) for m in ('S', 'La', 'Co') for j in BI] if cov else [])
    cs = [l for l in log if l[0] == 'controls']; it = [l for l in log if l[0] == 'integrate']
    ok = len(it) >= 1 and it[-1][1] == want and it[-1][2] == fn('CTL', *(x1 + x2)) and it[-1][3] == P(24)
    yield Ob('path is the integration of the controls[%s]' % space, fnm, 'proved' if ok else 'failed', 'vcgen', time.time() - t0, str(log)[:300])

def tasks(mod, prop):
    T_ = []
    for sp in ('dubins', 'rs', 'hc'):
        if prop == 'C10':
            T_.append(('samples ' + sp, task_samples, (mod, sp, False))); T_.append(('path ' + sp, task_path, (mod, sp, False)))
        if prop == 'C11':
            T_.append(('samples ' + sp, task_samples, (mod, sp, True))); T_.append(('path ' + sp, task_path, (mod, sp, True))); T_.append(('path ' + sp, task_path, (mod, sp, False)))
        if prop == 'C12': T_.append(('interpolate ' + sp, task_inter, (mod, sp)))
    return T_
