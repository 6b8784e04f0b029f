"""Symbolic executor over the extracted IR.  Generates the verification conditions.
 - branches on symbolic conditions are merged at the immediate post-dominator (or split, per policy)
 - calls are inlined unless a contract handler is registered for the callee
 - obligations: definedness of operations, valid memory accesses, single release, explicit asserts"""
import sys
from . import terms as T
from .terms import *
from .ir import Ty, PTR, DBL

sys.setrecursionlimit(100000)

class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'live', 'zero', 'name', 'stamp', 'site')
    def clone(self, stamp):
        o = Obj()
        o.id = self.id; o.kind = self.kind; o.size = self.size; o.cells = dict(self.cells); o.live = self.live
        o.zero = list(self.zero); o.name = self.name; o.stamp = stamp; o.site = self.site
        return o

class Ptr:
    """guarded set of (guard, objid|None|('f',name), offset)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'Ptr%r' % (self.t,)
    def add(self, n):
        if isinstance(n, Poly) or any(isinstance(f, Poly) for g, o, f in self.t):
            return Ptr([(g, o, P(f) + P(n)) for g, o, f in self.t])
        if isinstance(n, int):
            return Ptr([(g, o, f + n) for g, o, f in self.t])
        raise Unsupported('symbolic pointer offset')
    def same(self, o):
        return len(self.t) == len(o.t) and all(a[0] is b[0] and a[1] == b[1] and a[2] == b[2] for a, b in zip(self.t, o.t))

NULL = Ptr([(TRUE, None, 0)])
def mkptr(o, f=0): return Ptr([(TRUE, o, f)])

class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class Undef: pass
UNDEF = Undef()

class State:
    __slots__ = ('mem', 'pc', 'known', 'sub', 'stamp', 'ghost')
    def __init__(self):
        self.mem = {}; self.pc = (); self.known = {}; self.sub = None; self.stamp = object(); self.ghost = {}
    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.pc = self.pc; s.known = self.known; s.sub = self.sub
        s.ghost = dict(self.ghost)
        self.stamp = object(); s.stamp = object()
        return s
    def assume(self, b):
        if b is TRUE: return
        self.pc = self.pc + (b,)
        k = dict(self.known)
        k.update(assume_map([b]))
        self.known = k
        self.sub = None
    def simp(self):
        if self.sub is None: self.sub = Subst(bmap=self.known)
        return self.sub

class Infeasible(Exception): pass
class LoopStop(Exception): pass

class Executor:
    def __init__(self, mod, handlers=None, policy=None, decisions=None):
        self.mod = mod
        self.handlers = dict(BUILTINS)
        self.handlers.update(handlers or {})
        self.policy = policy or (lambda ex, fn, cond: 'merge')
        self.decisions = list(decisions or [])
        self.dpos = 0
        self.nopts = []
        self.nobj = 0
        self.nfresh = 0
        self.strict = False   # uninitialised values are not merged away
        self.obls = []        # (kind, pc tuple, goal Bool, where)
        self.outs = []
        self.fnused = {}
        self.stack = []
        self.gobj = {}
        self.steps = 0
        self.maxsteps = 3000000
        self.heap_sites = []
        self.loophook = None
        self.defined = True
        self.quiet = 0
        self.strict = 0
        self.depth_loop = {}
        self.trace_calls = None
        self.decider = None
        self.kinds = {}
        self.uarrs = {}          # name -> element function of a symbolic array
        self.naming = False; self.namemap = {}; self.defs = {}; self.bnames = {}; self.bdefs = {}
        self.cutblocks = set()   # (function, block): branches there are split, not merged (exits of cut loops)

    # ------------------------------------------------ utilities
    def fresh(self, pre, **kw):
        self.nfresh += 1
        return var('%s#%d' % (pre, self.nfresh), **kw)
    def where(self):
        f = self.stack[-1] if self.stack else None
        return '%s:%s' % (f[0].name, f[1]) if f else '?'
    def oblige(self, st, kind, goal):
        goal = B(goal)
        if goal is TRUE: return
        if st.known and goal in st.known and st.known[goal]: return
        self.obls.append((kind, st.pc, goal, self.where()))
    def decide(self, n, label=None):
        """nondeterministic n-way decision explored by re-execution"""
        if self.dpos < len(self.decisions): k = self.decisions[self.dpos]
        else: k = 0; self.decisions.append(0)
        while len(self.nopts) <= self.dpos: self.nopts.append(n)
        self.nopts[self.dpos] = n
        self.dpos += 1
        return k
    def simp(self, st, b):
        if b is TRUE or b is FALSE: return b
        if not st.known: return b
        v = st.known.get(b)
        if v is not None: return B(v)
        v = st.known.get(Not(b))
        if v is not None: return B(not v)
        return st.simp().bool(b)

    # ------------------------------------------------ memory
    def alloc(self, st, kind, size, name='', live=TRUE):
        self.nobj += 1
        o = Obj()
        o.id = self.nobj; o.kind = kind; o.size = size; o.cells = {}; o.live = live; o.zero = []; o.name = name; o.stamp = st.stamp
        o.site = self.where(); self.kinds[o.id] = kind
        st.mem[o.id] = o
        return o.id
    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.stamp is not st.stamp:
            o = o.clone(st.stamp); st.mem[oid] = o
        return o
    def deref(self, st, p, what):
        """targets of p with feasible guards; emits validity obligations"""
        out = []
        bad = []
        for g, o, f in p.t:
            if g is not TRUE:
                g = self.simp(st, g)
                if g is FALSE: continue
            if o is None or isinstance(o, tuple) or o not in st.mem:
                bad.append(g); continue
            ob = st.mem[o]
            if isinstance(f, Poly) and f.isconst(): f = int(f.const())
            if isinstance(f, Poly) or ob.kind == 'uarr':
                if ob.kind != 'uarr' or what != 'load': raise Unsupported('symbolic address')
                ix = P(f).scale(Fr(1, 8))
                self.oblige(st, 'valid-load', Implies(g, And(le(ZERO, ix), lt(ix, P(ob.size)))))
                out.append((g, o, f)); continue
            if ob.live is not TRUE:
                lv = self.simp(st, ob.live)
                if lv is not TRUE: bad.append(And(g, Not(lv)))
                if lv is FALSE: continue
            if ob.size is not None and not (0 <= f < max(ob.size, 1)):
                bad.append(g); continue
            out.append((g, o, f))
        if bad:
            self.oblige(st, 'valid-' + what, Not(Or(*bad)))
        if not out:
            if bad: raise Infeasible('invalid %s at %s' % (what, self.where()))
            raise Infeasible('no target')
        return out
    def rd(self, st, o, f, ty):
        ob = st.mem[o]
        if ob.kind == 'uarr':
            if ob.name in self.uarrs: return self.uarrs[ob.name](self, st, P(f))
            return T.fn(ob.name, P(f).scale(Fr(1, 8)))
        c = ob.cells.get(f)
        if c is not None:
            v = c[1]
            if v is UNDEF: return self.uninit(st, o, f, ty)
            return self.coerce(v, ty)
        for a, b in ob.zero:
            if a <= f < b: return self.zeroval(ty)
        if ob.kind == 'global':
            raise Unsupported('uninterpreted global read ' + ob.name)
        # sub-cell / overlapping access of a wider cell is not supported
        return self.uninit(st, o, f, ty)
    def uninit(self, st, o, f, ty):
        ob = self.wobj(st, o)
        r = self.mod.res(ty)
        if r.k == 'double' : v = var('uninit@%s+%d' % (ob.name or ob.id, f))
        elif r.k == 'i' and r.a in (1,): v = bvar('uninit@%s+%d' % (ob.name or ob.id, f))
        elif r.k == 'i' and r.a == 8: v = bvar('uninit@%s+%d' % (ob.name or ob.id, f))
        elif r.k == 'i': v = var('uninit@%s+%d' % (ob.name or ob.id, f), integer=True)
        else: v = UNDEF
        ob.cells[f] = (self.mod.size(ty), v)
        return v
    def zeroval(self, ty):
        r = self.mod.res(ty)
        if r.k == 'double': return ZERO
        if r.k == 'i': return FALSE if r.a == 1 else 0
        if r.k == 'ptr': return NULL
        raise Unsupported('zero of aggregate')
    def coerce(self, v, ty):
        r = self.mod.res(ty)
        if r.k == 'double':
            if isinstance(v, (int, Bool)): return P(v) if not isinstance(v, bool) else P(int(v))
            return v
        if r.k == 'i':
            if r.a == 1: return B(v) if not isinstance(v, PInt) else v
            if isinstance(v, Poly) and v.isconst() and v.const().denominator == 1: return int(v.const())
        if r.k == 'ptr' and isinstance(v, int) and v == 0: return NULL
        return v
    def load(self, st, p, ty):
        r = self.mod.res(ty)
        if r.k in ('struct', 'arr'):
            vals = []
            for i, (off, fty) in enumerate(self.fields(r)):
                vals.append(self.load(st, p.add(off), fty))
            return Agg(vals)
        ts = self.deref(st, p, 'load')
        if len(ts) == 1: return self.rd(st, ts[0][1], ts[0][2], ty)
        v = self.rd(st, ts[-1][1], ts[-1][2], ty)
        for g, o, f in reversed(ts[:-1]):
            v = self.merge_val(g, self.rd(st, o, f, ty), v)
        return v
    def fields(self, r):
        if r.k == 'arr':
            s = self.mod.size(r.a)
            return [(i * s, r.a) for i in range(r.n)]
        return [self.mod.field(r, i) for i in range(len(r.a))]
    def store(self, st, p, v, ty):
        r = self.mod.res(ty)
        if isinstance(v, Agg) or r.k in ('struct', 'arr'):
            if not isinstance(v, Agg): raise Unsupported('aggregate store')
            for (off, fty), x in zip(self.fields(r), v.v): self.store(st, p.add(off), x, fty)
            return
        sz = self.mod.size(ty)
        ts = self.deref(st, p, 'store')
        for g, o, f in ts:
            ob = self.wobj(st, o)
            if ob.kind == 'global' and self.mod.globals.get(ob.name, (0, 0, False))[2]:
                raise Unsupported('store to constant')
            if g is TRUE or len(ts) == 1: ob.cells[f] = (sz, v)
            else:
                old = self.rd(st, o, f, ty)
                ob = self.wobj(st, o)
                ob.cells[f] = (sz, self.merge_val(g, v, old))
    def memcpy(self, st, d, s, n):
        if n == 0: return
        if not isinstance(n, int): raise Unsupported('symbolic memcpy')
        ds = self.deref(st, d, 'store'); ss = self.deref(st, s, 'load')
        if len(ds) == 1 and len(ss) == 1:
            (g1, o1, f1), (g2, o2, f2) = ds[0], ss[0]
            src = st.mem[o2]
            cells = [(f - f2, c) for f, c in src.cells.items() if f2 <= f < f2 + n]
            zr = [(max(a, f2) - f2, min(b, f2 + n) - f2) for a, b in src.zero if max(a, f2) < min(b, f2 + n)]
            dst = self.wobj(st, o1)
            for f in [f for f in dst.cells if f1 <= f < f1 + n]: del dst.cells[f]
            for a, b in zr: dst.zero.append((a + f1, b + f1))
            for f, c in cells: dst.cells[f + f1] = c
            return
        # guarded: cell-wise over union of layouts
        offs = {}
        for g, o, f in ss:
            for k, c in st.mem[o].cells.items():
                if f <= k < f + n: offs[k - f] = c[0]
        for k, sz in sorted(offs.items()):
            ty = {8: DBL, 4: Ty('i', 32), 1: Ty('i', 8)}[sz]
            vals = [(g, self.rdraw(st, o, f + k)) for g, o, f in ss]
            v = vals[-1][1]
            for g, x in reversed(vals[:-1]): v = self.merge_val(g, x, v)
            for g, o, f in ds:
                old = self.rdraw(st, o, f + k) if len(ds) > 1 else None
                self.wobj(st, o).cells[f + k] = (sz, v if len(ds) == 1 else self.merge_val(g, v, old))
    def rdraw(self, st, o, f):
        ob = st.mem[o]
        c = ob.cells.get(f)
        if c is not None: return c[1]
        for a, b in ob.zero:
            if a <= f < b: return 0
        return UNDEF
    def release(self, st, p, kinds):
        if p is UNDEF:
            self.oblige(st, 'valid-free', FALSE); return
        for g, o, f in p.t:
            g = self.simp(st, g)
            if g is FALSE or o is None: continue
            if isinstance(o, tuple) or o not in st.mem or st.mem[o].kind not in kinds or f != 0:
                self.oblige(st, 'valid-free', Not(g)); continue
            ob = self.wobj(st, o)
            self.oblige(st, 'no-double-free', Implies(g, ob.live))
            ob.live = And(ob.live, Not(g))

    # ------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if a is UNDEF or b is UNDEF:
            if not self.strict: return b if a is UNDEF else a
            # uninitialised on one side: a pointer nobody may use, or an arbitrary value
            o = b if a is UNDEF else a
            if isinstance(o, Ptr): u = Ptr([(TRUE, ('undef', 0), 0)])
            elif isinstance(o, Poly): u = self.fresh('uninit')
            else: return o
            if a is UNDEF: a = u
            else: b = u
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            if a == b: return a
            return ite(c, P(a), P(b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('merge ptr/int')
            if a.same(b): return a
            d = {}
            nc = Not(c)
            for g, o, f in a.t:
                k = (o, f); d[k] = Or(d.get(k, FALSE), And(c, g))
            for g, o, f in b.t:
                k = (o, f); d[k] = Or(d.get(k, FALSE), And(nc, g))
            return Ptr([(g, o, f) for (o, f), g in d.items() if g is not FALSE])
        if isinstance(a, Agg): return Agg([self.merge_val(c, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Bool) or isinstance(b, Bool):
            if isinstance(a, Poly) or isinstance(b, Poly): return ite(c, P(a), P(b))
            return bite(c, B(a), B(b))
        if isinstance(a, PInt) or isinstance(b, PInt): raise Unsupported('merge pint')
        if isinstance(a, Poly) and isinstance(b, Poly) and a == b: return a
        if self.naming:
            # passive form: the merged value gets a name with a recorded definition
            a, b = P(a), P(b)
            if c is TRUE or c is FALSE or a == b: return ite(c, a, b)
            k = (c, a, b)
            v = self.namemap.get(k)
            if v is None:
                v = self.namemap[k] = var('phi#%d' % len(self.defs)); self.defs[v] = (c, a, b)
            return v
        return ite(c, P(a), P(b))
    def merge_states(self, c, s1, s2, base_pc, base):
        """c: condition for s1; result written to s1"""
        s = s1
        for oid in set(s1.mem) | set(s2.mem):
            o1 = s1.mem.get(oid); o2 = s2.mem.get(oid)
            if o1 is o2: continue
            if o1 is None:
                o = o2.clone(s.stamp); o.live = o.live if o.kind == 'global' else And(Not(c), o.live); s.mem[oid] = o; continue
            if o2 is None:
                if o1.kind == 'global': continue
                o = self.wobj(s, oid); o.live = And(c, o.live); continue
            o = self.wobj(s, oid)
            o.live = bite(c, o1.live, o2.live)
            for f in set(o1.cells) | set(o2.cells):
                c1 = o1.cells.get(f); c2 = o2.cells.get(f)
                if c1 is c2: continue
                v1 = c1[1] if c1 is not None else self.rdraw(s, oid, f) if any(a <= f < b for a, b in o1.zero) else UNDEF
                v2 = c2[1] if c2 is not None else (0 if any(a <= f < b for a, b in o2.zero) else UNDEF)
                sz = (c1 or c2)[0]
                if v1 is UNDEF or v2 is UNDEF:
                    d = v1 if v2 is UNDEF else v2
                    if isinstance(d, Poly): u = var('uninit@%s+%d' % (o1.name or oid, f))
                    elif isinstance(d, Bool): u = bvar('uninit@%s+%d' % (o1.name or oid, f))
                    else: u = UNDEF
                    if v1 is UNDEF: v1 = u
                    if v2 is UNDEF: v2 = u
                o.cells[f] = (sz, self.merge_val(c, v1, v2))
            if o1.zero != o2.zero:
                zs = [z for z in o1.zero if z in o2.zero]
                o.zero = zs
        for k in set(s1.ghost) | set(s2.ghost):
            a = s1.ghost.get(k); b = s2.ghost.get(k)
            if a is not b and a != b:
                raise Unsupported('ghost state differs at merge: %s' % (k,))
        # common assumptions gained on both sides survive as disjunction facts
        n = len(base_pc)
        e1 = And(*s1.pc[n:]); e2 = And(*s2.pc[n:])
        s.pc = base_pc; s.known = base; s.sub = None
        x1 = And(*[b for b in literals(e1) if b is not c]); x2 = And(*[b for b in literals(e2) if b is not Not(c)])
        extra = bite(c, x1, x2)
        if extra is not TRUE and (x1 is not TRUE or x2 is not TRUE): s.assume(extra)
        return s

    # ------------------------------------------------ globals
    def global_ptr(self, st, name):
        name = self.mod.alias.get(name, name)
        if name in self.mod.fns or name in self.mod.decls: return Ptr([(TRUE, ('f', name), 0)])
        if name in self.gobj:
            if self.gobj[name] not in st.mem: st.mem[self.gobj[name]] = self.gtempl[name]
            return mkptr(self.gobj[name])
        g = self.mod.globals.get(name)
        if g is None: raise Unsupported('global ' + name)
        ty, init, const = g
        oid = self.alloc(st, 'global', self.mod.size(ty), name)
        self.gobj[name] = oid
        ob = st.mem[oid]
        if init is not None: self.ginit(st, ob, 0, ty, init)
        elif not const: pass
        self.gtempl = getattr(self, 'gtempl', {})
        self.gtempl[name] = ob
        return mkptr(oid)
    def ginit(self, st, ob, off, ty, v):
        r = self.mod.res(ty)
        if isinstance(v, tuple):
            if v[0] == 'zero':
                ob.zero.append((off, off + self.mod.size(ty))); return
            if v[0] == 'agg':
                for (o, fty), (ety, x) in zip(self.fields(r), v[1]): self.ginit(st, ob, off + o, ety, x)
                return
            if v[0] == 'str':
                ob.cells[off] = (1, ('str', v[1])); return
            if v[0] == 'null': ob.cells[off] = (8, NULL); return
            if v[0] == 'undef': return
            if v[0] == 'g': ob.cells[off] = (8, self.global_ptr(st, v[1])); return
            if v[0] == 'cgep': ob.cells[off] = (8, self.cgep(st, v)); return
            raise Unsupported('ginit')
        ob.cells[off] = (self.mod.size(ty), v)
    def cgep(self, st, v):
        base = v[2]
        p = self.global_ptr(st, base[1]) if base[0] == 'g' else self.cgep(st, base)
        return self.gep(p, v[1], [x for x in v[3]])
    def gep(self, p, ty, idx):
        off = 0
        first = idx[0]
        if isinstance(first, Poly): 
            if first.isconst(): first = int(first.const())
            else: return self.symgep(p, ty, idx)
        off += first * self.mod.size(ty)
        for i in idx[1:]:
            r = self.mod.res(ty)
            if isinstance(i, Poly):
                if i.isconst(): i = int(i.const())
                else: return self.symgep(p, ty, idx)
            if r.k == 'struct': o, ty = self.mod.field(r, i); off += o
            else: ty = r.a; off += i * self.mod.size(ty)
        return p.add(off)
    def ispy(self, p, kind):
        return len(p.t) == 1 and isinstance(p.t[0][1], int) and p.t[0][1] in self.kinds and self.kinds[p.t[0][1]] == kind
    def symgep(self, p, ty, idx):
        """symbolic index: expand an ite of constants into guarded pointers"""
        if len(idx) == 1 and self.ispy(p, 'uarr'): return p.add(P(idx[0]).scale(self.mod.size(ty)))
        for n, i in enumerate(idx):
            if isinstance(i, Poly) and not i.isconst():
                cs = self.int_cases(i)
                if cs is None: raise Unsupported('symbolic index %r at %s' % (i, self.where()))
                t = []
                for g, k in cs:
                    q = self.gep(p, ty, list(idx[:n]) + [k] + list(idx[n + 1:]))
                    t += [(And(g, h), o, f) for h, o, f in q.t]
                return Ptr(t)
        raise Unsupported('symgep')
    def int_cases(self, p):
        """p as guarded constants if it is built from ites of constants"""
        if p.isconst(): return [(TRUE, int(p.const()))]
        res = [(TRUE, P(0))]
        for m, c in p.d.items():
            if m == ():
                res = [(g, v + c) for g, v in res]; continue
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'ite':
                at = ATOMS[m[0][0]]
                a = self.int_cases(at.args[1]); b = self.int_cases(at.args[2])
                if a is None or b is None: return None
                cs = [(And(at.args[0], g), k) for g, k in a] + [(And(Not(at.args[0]), g), k) for g, k in b]
                res = [(And(g, h), v + P(k).scale(c)) for g, v in res for h, k in cs]
                res = [(g, v) for g, v in res if g is not FALSE]
            else: return None
        d = {}
        for g, v in res:
            k = int(v.const()); d[k] = Or(d.get(k, FALSE), g)
        return [(g, k) for k, g in d.items()]

    # ------------------------------------------------ execution
    def call_named(self, st, name, args):
        return self.call(st, name, args, VOIDTY)
    def call(self, st, name, args, rty=None):
        name = self.mod.alias.get(name, name)
        h = self.handlers.get(name)
        if h is not None:
            r = h(self, st, args)
            if r is not NotImplemented: return r
        f = self.mod.get(name)
        if f is None: raise Unsupported('external function ' + name)
        if len(self.stack) > 200: raise Unsupported('recursion ' + name)
        self.fnused[name] = self.fnused.get(name, 0) + 1
        regs = {}
        for (ty, nm, byval), a in zip(f.params, args):
            if byval:
                oid = self.alloc(st, 'stack', None, 'byval')
                self.memcpy(st, mkptr(oid), a, 1 << 20) if False else self.memcpy_byval(st, oid, a)
                a = mkptr(oid)
            regs[nm] = a
        fr = [f, None, []]
        self.stack.append(fr)
        try:
            rv = self.run(st, f, regs, f.entry, None)
        finally:
            self.stack.pop()
        for oid in fr[2]:
            o = st.mem.pop(oid, None)
        return rv
    def memcpy_byval(self, st, oid, p):
        (g, o, f), = self.deref(st, p, 'load')
        src = st.mem[o]; dst = self.wobj(st, oid)
        for k, c in src.cells.items():
            if k >= f: dst.cells[k - f] = c
        for a, b in src.zero: dst.zero.append((a - f, b - f))

    def op(self, st, regs, v):
        k = v[0]
        if k == 'l': return regs[v[1]]
        if k == 'c': return v[1]
        if k == 'g': return self.global_ptr(st, v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'cgep': return self.cgep(st, v)
        if k == 'zero': return 0
        raise Unsupported('operand ' + k)

    def goto(self, st, f, regs, frm, to):
        ph = f.phis[to]
        if ph:
            vals = [(i[1], self.op(st, regs, i[3][frm])) for i in ph]
            for d, v in vals: regs[d] = v
        return to

    def run(self, st, f, regs, b, stop):
        """execute from block b (phis already done) until block `stop`, or return; returns return value"""
        fr = self.stack[-1]
        while True:
            if b == stop: return None
            if self.loophook is not None:
                r = self.loophook(self, st, f, regs, b)
                if r is not None:
                    b = r; continue
            for ins, loc in f.body[b]:
                if loc: fr[1] = loc
                self.steps += 1
                o = ins[0]
                if o == 'load': regs[ins[1]] = self.load(st, self.op(st, regs, ins[3]), ins[2])
                elif o == 'gep':
                    regs[ins[1]] = self.gep(self.op(st, regs, ins[3]), ins[2], [self.op(st, regs, x) for x in ins[4]])
                elif o == 'store': self.store(st, self.op(st, regs, ins[3]), self.op(st, regs, ins[2]), ins[1])
                elif o == 'call': self.do_call(st, f, regs, ins)
                elif o == 'bin': regs[ins[1]] = self.binop(st, ins[2], ins[3], self.op(st, regs, ins[4]), self.op(st, regs, ins[5]))
                elif o == 'fneg': regs[ins[1]] = -P(self.op(st, regs, ins[2]))
                elif o == 'icmp': regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.op(st, regs, ins[4]), self.op(st, regs, ins[5]))
                elif o == 'fcmp': regs[ins[1]] = self.fcmp(st, ins[2], P(self.op(st, regs, ins[4])), P(self.op(st, regs, ins[5])))
                elif o == 'cast': regs[ins[1]] = self.cast(st, ins[2], ins[3], self.op(st, regs, ins[4]), ins[5])
                elif o == 'alloca':
                    oid = self.alloc(st, 'stack', self.mod.size(ins[2]), '%s.%s' % (f.name, ins[1]))
                    fr[2].append(oid)
                    regs[ins[1]] = mkptr(oid)
                elif o == 'select':
                    c = self.simp(st, B(self.op(st, regs, ins[2])))
                    regs[ins[1]] = self.merge_val(c, self.op(st, regs, ins[3]), self.op(st, regs, ins[4])) if c not in (TRUE, FALSE) else self.op(st, regs, ins[3] if c is TRUE else ins[4])
                elif o == 'extractvalue':
                    v = self.op(st, regs, ins[2])
                    for i in ins[3]: v = v.v[i]
                    regs[ins[1]] = v
                elif o == 'insertvalue':
                    v = self.op(st, regs, ins[2]); x = self.op(st, regs, ins[3])
                    if len(ins[4]) != 1: raise Unsupported('insertvalue')
                    l = list(v.v) if isinstance(v, Agg) else [UNDEF] * 4
                    l[ins[4][0]] = x
                    regs[ins[1]] = Agg(l)
                elif o == 'br':
                    b = self.goto(st, f, regs, b, ins[1]); break
                elif o == 'ret':
                    return self.op(st, regs, ins[1]) if ins[1] is not None else None
                elif o == 'cbr':
                    c = self.simp(st, B(self.op(st, regs, ins[1])))
                    if self.decider is not None and c is not TRUE and c is not FALSE:
                        r = self.decider(self, st, c)
                        if r is not None: c = B(r)
                    if c is TRUE: b = self.goto(st, f, regs, b, ins[2])
                    elif c is FALSE: b = self.goto(st, f, regs, b, ins[3])
                    else: b = self.branch(st, f, regs, b, c, ins[2], ins[3])
                    break
                elif o == 'switch':
                    v = self.op(st, regs, ins[1])
                    if isinstance(v, Poly) and v.isconst(): v = int(v.const())
                    if isinstance(v, int):
                        tgt = ins[2]
                        for k, t in ins[3]:
                            if k == v: tgt = t; break
                        b = self.goto(st, f, regs, b, tgt)
                    else:
                        b = self.switch(st, f, regs, b, v, ins)
                    break
                elif o == 'unreachable':
                    raise Infeasible('unreachable')
                else: raise Unsupported('op ' + o)
            else:
                raise Unsupported('fallthrough')
            if self.steps > self.maxsteps: raise Unsupported('step limit')

    def switch(self, st, f, regs, b, v, ins):
        cs = self.int_cases(v)
        if cs is None: raise Unsupported('symbolic switch')
        # chain of branches
        cs = [(self.simp(st, g), k) for g, k in cs]
        cs = [(g, k) for g, k in cs if g is not FALSE]
        def tgt(k):
            for kk, t in ins[3]:
                if kk == k: return t
            return ins[2]
        return self.branch_multi(st, f, regs, b, [(g, tgt(k)) for g, k in cs])

    def branch_multi(self, st, f, regs, b, cs):
        if len(cs) == 1:
            return self.goto(st, f, regs, b, cs[0][1])
        g, t = cs[0]
        pd = f.ipdom[b]
        if self.policy(self, f, g) == 'split':
            k = self.decide(len(cs))
            st.assume(cs[k][0])
            return self.goto(st, f, regs, b, cs[k][1])
        if pd is None or pd == '<exit>': raise Unsupported('switch without join')
        base_pc, base = st.pc, st.known
        s2 = st.fork(); r2 = dict(regs)
        st.assume(g); s2.assume(Not(g))
        ok1 = self.side(st, f, regs, b, t, pd)
        ok2 = True
        try:
            x = self.branch_multi(s2, f, r2, b, cs[1:])
            self.run(s2, f, r2, x, pd)
        except Infeasible: ok2 = False
        return self.join(st, s2, regs, r2, g, ok1, ok2, base_pc, base, pd)

    def side(self, s, f, regs, b, t, pd):
        try:
            self.goto(s, f, regs, b, t)
            self.run(s, f, regs, t, pd)
            return True
        except Infeasible:
            return False

    def branch(self, st, f, regs, b, c, tt, ff):
        pd = f.ipdom[b]
        if self.naming and isinstance(c, Bool) and c.op != 'bvar' and not (c.op == 'not' and c.args[0].op == 'bvar'):
            v = self.bnames.get(c)
            if v is None: v = self.bnames[c] = bvar('cond#%d' % len(self.bnames)); self.bdefs[v] = c
            c = v
        pol = self.policy(self, f, c)
        if pol == 'split' or (f.name, b) in self.cutblocks or pd is None or pd == '<exit>':
            k = self.decide(2)
            st.assume(c if k == 0 else Not(c))
            return self.goto(st, f, regs, b, tt if k == 0 else ff)
        key = (f.name, b, len(self.stack))
        n = self.depth_loop.get(key, 0)
        if n > 70: raise Unsupported('symbolic loop in %s' % f.name)
        self.depth_loop[key] = n + 1
        try:
            base_pc, base = st.pc, st.known
            s2 = st.fork(); r2 = dict(regs)
            st.assume(c); s2.assume(Not(c))
            nst = len(self.stack)
            ok1 = self.side(st, f, regs, b, tt, pd)
            ok2 = self.side(s2, f, r2, b, ff, pd)
            return self.join(st, s2, regs, r2, c, ok1, ok2, base_pc, base, pd)
        finally:
            self.depth_loop[key] = n

    def join(self, st, s2, regs, r2, c, ok1, ok2, base_pc, base, pd):
        if not ok1 and not ok2: raise Infeasible('both')
        if not ok1 or not ok2:
            src, sr, cc = (s2, r2, Not(c)) if not ok1 else (st, regs, c)
            st.mem = src.mem; st.pc = src.pc; st.known = src.known; st.sub = None; st.stamp = object(); st.ghost = src.ghost
            if sr is not regs:
                regs.clear(); regs.update(sr)
            return pd
        for k in r2:
            if k in regs:
                a = regs[k]; v = r2[k]
                if a is not v: 
                    try: regs[k] = self.merge_val(c, a, v)
                    except Unsupported: regs[k] = UNDEF
            else: regs[k] = r2[k]
        self.merge_states(c, st, s2, base_pc, base)
        return pd

    def do_call(self, st, f, regs, ins):
        _, d, rty, callee, args = ins
        av = [self.op(st, regs, v) for _, v, _ in args]
        if callee[0] == 'g': name = callee[1]
        else:
            p = self.op(st, regs, callee)
            ts = [(self.simp(st, g), o, x) for g, o, x in p.t]
            ts = [t for t in ts if t[0] is not FALSE]
            if len(ts) != 1 or not isinstance(ts[0][1], tuple): raise Unsupported('indirect call')
            name = ts[0][1][1]
        av2 = []
        for (ty, v, byval), a in zip(args, av): av2.append(a)
        r = self.call(st, name, av2, rty)
        if d is not None: regs[d] = r

    def binop(self, st, op, ty, a, b):
        if op == 'fadd': return P(a) + P(b)
        if op == 'fsub': return P(a) - P(b)
        if op == 'fmul': return P(a) * P(b)
        if op == 'fdiv':
            b = P(b)
            if not b.d:
                self.obls.append(('nonzero-divisor', st.pc, FALSE, self.where()))
                raise Infeasible('division by zero')
            self.oblige(st, 'nonzero-divisor', ne(b, ZERO))
            return P(a) / b
        if op == 'frem':
            self.oblige(st, 'nonzero-divisor', ne(P(b), ZERO))
            return fmod(a, b)
        w = self.mod.res(ty).a
        if w == 1 or isinstance(a, Bool) or isinstance(b, Bool):
            if w == 1 or (isinstance(a, Bool) and isinstance(b, Bool)) or op in ('and', 'or', 'xor'):
                if (w == 1 or (isinstance(a, (Bool,)) or a in (0, 1)) and (isinstance(b, Bool) or b in (0, 1))):
                    a = B(a); b = B(b)
                    if op == 'and': return And(a, b)
                    if op == 'or': return Or(a, b)
                    if op in ('xor', 'add', 'sub'): return Xor(a, b)
            a = P(a) if isinstance(a, Bool) else a
            b = P(b) if isinstance(b, Bool) else b
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                return self.pdiff(st, a.p, b.p)
            raise Unsupported('pointer arithmetic')
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op in ('sdiv',): r = int(a / b) if b else 0
            elif op == 'udiv': r = (a % (1 << w)) // (b % (1 << w))
            elif op == 'srem': r = a - b * int(a / b)
            elif op == 'urem': r = (a % (1 << w)) % (b % (1 << w))
            elif op == 'shl': r = a << b
            elif op == 'ashr': r = a >> b
            elif op == 'lshr': r = (a % (1 << w)) >> b
            elif op == 'and': r = a & b
            elif op == 'or': r = a | b
            elif op == 'xor': r = a ^ b
            else: raise Unsupported(op)
            r &= (1 << w) - 1
            if r >> (w - 1): r -= 1 << w
            return r
        if op == 'add': return P(a) + P(b)
        if op == 'sub': return P(a) - P(b)
        if op == 'mul': return P(a) * P(b)
        if op == 'shl' and isinstance(b, int): return P(a) * (1 << b)
        if op == 'sdiv' and isinstance(b, int):
            cs = self.int_cases(P(a))
            if cs is not None:
                r = P(int(cs[-1][1] / b))
                for g, k in cs[:-1]: r = ite(g, P(int(k / b)), r)
                return r
            return trunc(P(a).scale(Fr(1, b)))
        raise Unsupported('symbolic int ' + op)
    def pdiff(self, st, p, q):
        res = None
        for g, o, f in p.t:
            for h, o2, f2 in q.t:
                gg = self.simp(st, And(g, h))
                if gg is FALSE: continue
                if o != o2: raise Unsupported('pointer difference')
                v = f - f2
                res = v if res is None else self.merge_val(gg, v, res)
        return res
    def fresh_bool(self, n):
        self.nfb = getattr(self, 'nfb', 0) + 1
        return bvar('%s#b%d' % (n, self.nfb))
    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == 0: a = NULL
            if b == 0: b = NULL
            if a is UNDEF or b is UNDEF:
                if not self.strict: raise Unsupported('undef pointer compare')
                self.oblige(st, 'initialised-pointer', FALSE)
                return self.fresh_bool('uninit')
            for v in (a, b):
                for g, o, f in v.t:
                    if isinstance(o, tuple) and o[0] == 'undef': self.oblige(st, 'initialised-pointer', Not(g))
            eqs = []
            lts = []
            for g, o, f in a.t:
                for h, o2, f2 in b.t:
                    gg = And(g, h)
                    if gg is FALSE: continue
                    if o == o2 and (isinstance(f, Poly) or isinstance(f2, Poly)):
                        eqs.append(And(gg, eq(P(f), P(f2))))
                        if pred not in ('eq', 'ne'): lts.append(And(gg, lt(P(f), P(f2))))
                        continue
                    if o == o2 and f == f2: eqs.append(gg)
                    if pred not in ('eq', 'ne'):
                        if o != o2: raise Unsupported('pointer order')
                        if f < f2: lts.append(gg)
            e = Or(*eqs)
            if pred == 'eq': return e
            if pred == 'ne': return Not(e)
            l = Or(*lts)
            return {'ult': l, 'ule': Or(l, e), 'ugt': Not(Or(l, e)), 'uge': Not(l), 'slt': l, 'sle': Or(l, e), 'sgt': Not(Or(l, e)), 'sge': Not(l)}[pred]
        if a is UNDEF or b is UNDEF: raise Unsupported('undef compare')
        if isinstance(a, Bool) and isinstance(b, Bool):
            if pred == 'eq': return Not(Xor(a, b))
            if pred == 'ne': return Xor(a, b)
        if isinstance(a, Bool) and isinstance(b, int) and pred in ('eq', 'ne'):
            if b == 0: return Not(a) if pred == 'eq' else a
            if b in (1, -1): return a if pred == 'eq' else Not(a)
        if isinstance(a, int) and isinstance(b, int):
            w = self.mod.res(ty).a
            if pred[0] == 'u':
                a %= 1 << w; b %= 1 << w
            return B({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        a = P(a); b = P(b)
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return ne(a, b)
        p = pred[1:]
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[p]
    def fcmp(self, st, pred, a, b):
        p = pred[1:]
        if pred == 'ord': return TRUE
        if pred == 'uno': return FALSE
        if pred in ('true',): return TRUE
        if pred in ('false',): return FALSE
        if p == 'eq': return eq(a, b)
        if p == 'ne': return ne(a, b)
        return {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[p]
    def cast(self, st, op, ty, a, to):
        r = self.mod.res(to)
        if op == 'zext':
            if isinstance(a, Bool): return a
            if isinstance(a, int) and a < 0: return a + (1 << self.mod.res(ty).a)
            return a
        if op in ('sext', 'bitcast', 'freeze', 'fpext', 'fptrunc'): return a
        if op == 'trunc':
            if r.a == 1:
                if isinstance(a, Bool): return a
                if isinstance(a, int): return B(a & 1)
                return B(a)
            if isinstance(a, int):
                a &= (1 << r.a) - 1
                if a >> (r.a - 1): a -= 1 << r.a
            return a
        if op in ('sitofp', 'uitofp'): return P(a)
        if op in ('fptosi', 'fptoui'):
            v = trunc(P(a))
            return int(v.const()) if v.isconst() else v
        if op == 'ptrtoint': return PInt(a)
        if op == 'inttoptr':
            if isinstance(a, PInt): return a.p
            if a == 0: return NULL
        raise Unsupported(op)

VOIDTY = None
Fr = T.Fr

# ---------------------------------------------------------------- builtin function contracts
def _m1(fn):
    return lambda ex, st, a: fn(P(a[0]))
def _sqrt(ex, st, a):
    x = P(a[0])
    ex.oblige(st, 'sqrt-domain', le(ZERO, x))
    return T.sqrt(x)
def _asin(ex, st, a):
    x = P(a[0]); ex.oblige(st, 'asin-domain', And(le(-1, x), le(x, 1))); return T.asin(x)
def _acos(ex, st, a):
    x = P(a[0]); ex.oblige(st, 'acos-domain', And(le(-1, x), le(x, 1))); return T.acos(x)
def _pow(ex, st, a): return T.power(P(a[0]), P(a[1]))
def _new(ex, st, a):
    return mkptr(ex.alloc(st, 'heap', a[0] if isinstance(a[0], int) else None, 'new'))
def _del(ex, st, a): ex.release(st, a[0], ('heap',))
def _region(ex, st, a): return mkptr(ex.alloc(st, 'region', None, 'region'))
def _regionfree(ex, st, a): ex.release(st, a[0], ('region',))
def _memcpy(ex, st, a): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
def _memset(ex, st, a):
    p, v, n = a[0], a[1], a[2]
    if isinstance(v, Bool) and v is FALSE: v = 0
    if v != 0 or not isinstance(n, int): raise Unsupported('memset')
    for g, o, f in ex.deref(st, p, 'store'):
        if g is not TRUE: raise Unsupported('guarded memset')
        ob = ex.wobj(st, o)
        for k in [k for k in ob.cells if f <= k < f + n]: del ob.cells[k]
        ob.zero.append((f, f + n))
def cstr(ex, st, p):
    (g, o, f), = p.t
    return st.mem[o].cells[f][1][1]
def _real(ex, st, a):
    n = cstr(ex, st, a[0])
    return ex.inputs[n] if hasattr(ex, 'inputs') and n in ex.inputs else var(n)
def _bool(ex, st, a):
    n = cstr(ex, st, a[0])
    return B(ex.inputs[n]) if hasattr(ex, 'inputs') and n in ex.inputs else bvar(n)
def _assume(ex, st, a):
    b = ex.simp(st, B(a[0]))
    if b is FALSE: raise Infeasible('assume')
    st.assume(b)
def _assert(ex, st, a):
    ex.obls.append(('assert:' + cstr(ex, st, a[1]), st.pc, B(a[0]), ex.where()))
def _out(ex, st, a):
    ex.outs.append((cstr(ex, st, a[0]), a[1], st.pc))
def _fma(ex, st, a): return P(a[0]) * P(a[1]) + P(a[2])
def _round(ex, st, a): return T.rnd(P(a[0]))
def _max(ex, st, a): a, b = P(a[0]), P(a[1]); return ite(lt(a, b), b, a)
def _min(ex, st, a): a, b = P(a[0]), P(a[1]); return ite(lt(b, a), b, a)
def _copysign(ex, st, a): return ite(lt(P(a[1]), ZERO), -T.absv(P(a[0])), T.absv(P(a[0])))
def _remainder(ex, st, a):
    x, y = P(a[0]), P(a[1]); return x - y * T.rnd(x / y)
def _decide(ex, st, a): return ex.decide(a[0])
def _noop(ex, st, a): return None

BUILTINS = {
    'llvm.sqrt.f64': _sqrt, 'sqrt': _sqrt, 'llvm.sin.f64': _m1(T.sin), 'llvm.cos.f64': _m1(T.cos), 'sin': _m1(T.sin), 'cos': _m1(T.cos),
    'tan': _m1(T.tan), 'llvm.fabs.f64': _m1(T.absv), 'fabs': _m1(T.absv), 'atan': _m1(T.atan), 'asin': _asin, 'acos': _acos,
    'atan2': lambda ex, st, a: T.atan2(P(a[0]), P(a[1])), 'llvm.pow.f64': _pow, 'pow': _pow, 'llvm.floor.f64': _m1(T.floor), 'floor': _m1(T.floor),
    'llvm.ceil.f64': _m1(T.ceil), 'ceil': _m1(T.ceil), 'llvm.trunc.f64': _m1(T.trunc), 'llvm.round.f64': _round, 'llvm.rint.f64': _round, 'llvm.nearbyint.f64': _round,
    'fmod': lambda ex, st, a: T.fmod(a[0], a[1]), 'hypot': lambda ex, st, a: T.hypot(a[0], a[1]), 'llvm.fma.f64': _fma, 'llvm.fmuladd.f64': _fma, 'fma': _fma,
    'llvm.maxnum.f64': _max, 'llvm.minnum.f64': _min, 'llvm.copysign.f64': _copysign, 'fmax': _max, 'fmin': _min, 'remainder': _remainder,
    '_Znwm': _new, '_Znam': _new, '_ZdlPv': _del, '_ZdaPv': _del, '_ZdlPvm': _del, '_ZdaPvm': _del, '__vcg_region': _region, '__vcg_region_free': _regionfree,
    'llvm.memcpy.p0.p0.i64': _memcpy, 'llvm.memmove.p0.p0.i64': _memcpy, 'llvm.memset.p0.i64': _memset,
    '__vcg_real': _real, '__vcg_bool': _bool, '__vcg_assume': _assume, '__vcg_assert': _assert, '__vcg_out': _out, '__vcg_decide': _decide,
    'llvm.lifetime.start.p0': _noop, 'llvm.lifetime.end.p0': _noop, 'llvm.donothing': _noop,
}

def explore(mk, limit=4000):
    """path exploration by re-execution: mk(decisions) -> (executor, result) ; yields results"""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        ex, res = mk(dec)
        n += 1
        if n > limit: raise Unsupported('too many paths')
        for i in range(len(dec), ex.dpos):
            for k in range(1, ex.nopts[i]):
                work.append(ex.decisions[:i] + [k])
        yield ex, res
