"""Natural loops of the extracted IR and cutting them at inductive invariants."""
from .terms import *
from .exec import *

def loops(f):
    """header -> set of blocks"""
    r = getattr(f, '_loops', None)
    if r is not None: return r
    nodes = list(f.body)
    preds = {b: [] for b in nodes}
    for b in nodes:
        for s in f.succ[b]: preds[s].append(b)
    dom = {b: set(nodes) for b in nodes}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b == f.entry: continue
            ps = [dom[p] for p in preds[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    out = {}
    for b in nodes:
        for s in f.succ[b]:
            if s in dom[b]:
                body = {s, b}; w = [b]
                while w:
                    x = w.pop()
                    if x == s: continue
                    for p in preds[x]:
                        if p not in body: body.add(p); w.append(p)
                out.setdefault(s, set()).update(body)
    f._loops = out
    return out

def exits(f, h):
    body = loops(f)[h]
    return {b for b in body if any(s not in body for s in f.succ[b])}

class Houdini:
    """cuts every loop met in one function at an invariant: the largest inductive subset of the candidate facts"""
    def __init__(self, cands, valid):
        self.cands = cands        # cands(phis: {reg: value}) -> [(name, Bool)]
        self.valid = valid        # valid(hyps, goal)
        self.dropped = {}         # (fn, header) -> set of names
        self.log = []             # (where, name, phase, ok)
        self.changed = False; self.debug = 0
    def start(self, ex):
        self.seen = {}; self.ex = ex
        ex.loophook = self.hook
    def hook(self, ex, st, f, regs, b):
        if b not in loops(f): return None
        key = (f.name, b)
        dead = self.dropped.setdefault(key, set())
        ph = [i[1] for i in f.phis[b]]
        if key not in self.seen:
            ent = {r: regs[r] for r in ph}
            for nm, g in self.cands(ent):
                if nm in dead: continue
                if not self.valid(list(st.pc), g): dead.add(nm); self.changed = True
            new = {}
            for i in f.phis[b]:
                v = regs[i[1]]
                if isinstance(v, Ptr): raise Unsupported('pointer induction')
                if isinstance(v, Bool): new[i[1]] = bvar('h%d%s' % (len(self.seen), i[1]))
                else: new[i[1]] = var('h%d%s' % (len(self.seen), i[1]), integer=(isinstance(v, int) or (isinstance(v, Poly) and ex.mod.res(i[2]).k == 'i')))
            regs.update(new)
            for nm, g in self.cands(new):
                if nm not in dead: st.assume(g)
            self.seen[key] = {o: c.cells for o, c in st.mem.items()}
            for x in exits(f, b): ex.cutblocks.add((f.name, x))
            for x in loops(f)[b]: ex.cutblocks.add((f.name, x))
            return None
        old = self.seen[key]
        for o, c in st.mem.items():
            if o in old and c.cells is not old[o] and c.cells != old[o]: raise Unsupported('loop writes memory')
        for nm, g in self.cands({r: regs[r] for r in ph}):
            if nm in dead: continue
            if not self.valid(list(st.pc), g):
                if self.debug: print('DROP', nm, g, st.pc, [(x, x.integer) for x in all_atoms(g)], self.valid(list(st.pc), g))
                dead.add(nm); self.changed = True
        raise LoopStop()
