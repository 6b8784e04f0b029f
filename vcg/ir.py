"""Parser for the textual LLVM IR extracted from /repo's sources (clang -O0 | mem2reg, mergereturn, loop-simplify)."""
import re, struct
from . import terms as T
from .terms import Unsupported

class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=None): self.k = k; self.a = a; self.n = n
    def __repr__(self): return '%s%s%s' % (self.k, self.a or '', self.n or '')

PTR = Ty('ptr'); DBL = Ty('double'); VOID = Ty('void')

class Fn:
    def __init__(self): self.blocks = {}; self.entry = None; self.params = []; self.loc = {}

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.fns = {}; self.alias = {}; self.decls = set()
        self.dbg = {}; self.files = {}
        self._sz = {}
        self.parse(text)

    # ------------------------------------------------ lexer helpers
    TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+)|0x[0-9A-FK]+|-?\d+\.\d+(?:e[+-]?\d+)?|[\w$.-]+|\.\.\.|.)')
    def lex(self, s):
        return [t for t in self.TOK.findall(s) if t.strip()]

    def parse_type(self, t, i):
        x = t[i]
        if x == 'ptr': ty = PTR; i += 1
        elif x == 'double': ty = DBL; i += 1
        elif x == 'float': ty = Ty('float'); i += 1
        elif x == 'void': ty = VOID; i += 1
        elif re.match(r'i\d+$', x): ty = Ty('i', int(x[1:])); i += 1
        elif x == '[':
            n = int(t[i + 1]); assert t[i + 2] == 'x'
            e, i = self.parse_type(t, i + 3); assert t[i] == ']'; i += 1
            ty = Ty('arr', e, n)
        elif x == '<':
            if t[i + 1] == '{':
                raise Unsupported('packed struct')
            n = int(t[i + 1]); e, i = self.parse_type(t, i + 3); assert t[i] == '>'; i += 1
            ty = Ty('arr', e, n)
        elif x == '{':
            fs = []; i += 1
            while t[i] != '}':
                f, i = self.parse_type(t, i); fs.append(f)
                if t[i] == ',': i += 1
            i += 1
            ty = Ty('struct', fs)
        elif x[0] == '%': ty = Ty('named', x); i += 1
        elif x == 'opaque': ty = Ty('opaque'); i += 1
        elif x == 'metadata': ty = Ty('metadata'); i += 1
        elif x == 'label': ty = Ty('label'); i += 1
        else: raise Unsupported('type ' + x)
        # function type: ret (args)
        if i < len(t) and t[i] == '(' and False: pass
        return ty, i

    def res(self, ty):
        while ty.k == 'named': ty = self.types[ty.a]
        return ty

    def size_align(self, ty):
        ty = self.res(ty)
        key = id(ty)
        r = self._sz.get(key)
        if r: return r
        if ty.k == 'ptr' or ty.k == 'double': r = (8, 8)
        elif ty.k == 'float': r = (4, 4)
        elif ty.k == 'i':
            b = max(1, (ty.a + 7) // 8)
            s = 1
            while s < b: s *= 2
            r = (s, min(s, 8))
        elif ty.k == 'arr':
            s, a = self.size_align(ty.a); r = (s * ty.n, a)
        elif ty.k == 'struct':
            off = 0; al = 1
            for f in ty.a:
                s, a = self.size_align(f)
                off = (off + a - 1) // a * a + s; al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif ty.k == 'opaque': r = (1, 1)
        else: raise Unsupported('sizeof ' + ty.k)
        self._sz[key] = r
        self._keep = getattr(self, '_keep', []); self._keep.append(ty)
        return r
    def size(self, ty): return self.size_align(ty)[0]
    def field(self, ty, i):
        ty = self.res(ty)
        off = 0
        for j, f in enumerate(ty.a):
            s, a = self.size_align(f)
            off = (off + a - 1) // a * a
            if j == i: return off, f
            off += s
        raise Unsupported('field')

    # ------------------------------------------------ module
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                nm, r = l.split(' = type ', 1)
                t = self.lex(r)
                self.types[nm.strip()] = self.parse_type(t, 0)[0]
            elif l.startswith('!') and 'DILocation(' in l:
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+).*?scope: !(\d+)', l)
                if m: self.dbg[m.group(1)] = (int(m.group(2)), m.group(3))
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"]*)"|[-\w$.]+)\(', l)
                if m: self.decls.add(m.group(1).strip('"'))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self.parse_fn(lines[i], lines[i + 1:j])
                i = j
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("(?:[^"]*)"|[-\w$.]+) = (.*)$', l)
        nm = m.group(1).strip('"'); r = m.group(2)
        if ' alias ' in ' ' + r:
            self.alias[nm] = re.findall(r'@("(?:[^"]*)"|[-\w$.]+)', r)[-1].strip('"')
            return
        t = self.lex(r)
        k = 0
        while t[k] not in ('constant', 'global'): k += 1
        ext = 'external' in t[:k]
        ty, j = self.parse_type(t, k + 1)
        init = None
        if not ext:
            try: init, j = self.parse_const(t, j, ty)
            except Unsupported: init = None
        self.globals[nm] = (ty, init, t[k] == 'constant')

    def parse_const(self, t, i, ty):
        """constant initialiser -> nested python value"""
        x = t[i]
        if x == 'zeroinitializer': return ('zero',), i + 1
        if x in ('undef', 'poison'): return ('undef',), i + 1
        rt = self.res(ty)
        if x == 'null': return ('null',), i + 1
        if x == 'true': return T.TRUE, i + 1
        if x == 'false': return T.FALSE, i + 1
        if x[0] == '@': return ('g', x[1:].strip('"')), i + 1
        if x == '[' or x == '{':
            close = ']' if x == '[' else '}'
            vals = []
            i += 1
            while t[i] != close:
                et, i = self.parse_type(t, i)
                v, i = self.parse_const(t, i, et)
                vals.append((et, v))
                if t[i] == ',': i += 1
            return ('agg', vals), i + 1
        if x.startswith('c"'):
            return ('str', x[2:-1].replace('\\00', '')), i + 1
        if x == 'getelementptr':
            i += 1
            while t[i] in ('inbounds', 'nuw', 'nusw'): i += 1
            if t[i] == 'inrange': raise Unsupported('inrange')
            assert t[i] == '('
            et, i = self.parse_type(t, i + 1)
            i += 1
            _, i = self.parse_type(t, i)
            base, i = self.parse_const(t, i, PTR)
            idx = []
            while t[i] == ',':
                i += 1
                if t[i] == 'inrange': i += 1
                it, i = self.parse_type(t, i)
                v, i = self.parse_const(t, i, it); idx.append(v)
            assert t[i] == ')'
            return ('cgep', et, base, idx), i + 1
        if rt.k == 'double': return T.lit(parse_double(x)), i + 1
        if rt.k == 'i':
            if rt.a == 1: return T.B(x == 'true' or x == '1' or x == '-1'), i + 1
            return int(x), i + 1
        raise Unsupported('const %s' % x)

    # ------------------------------------------------ functions
    ATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'noalias', 'signext', 'zeroext', 'returned', 'dead_on_unwind', 'writable',
            'nofree', 'readnone', 'immarg', 'nest', 'inreg', 'swiftself', 'allocptr', 'mustprogress'}
    def skip_attrs(self, t, i):
        """skip parameter attributes; returns (i, byval?)"""
        byval = False
        while i < len(t):
            x = t[i]
            if x in self.ATTR: i += 1
            elif x == 'align': i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'memory', 'range', 'elementtype', 'captures', 'initializes'):
                if x == 'byval': byval = True
                d = 0; i += 1
                while True:
                    if t[i] == '(': d += 1
                    elif t[i] == ')': d -= 1
                    i += 1
                    if d == 0: break
            else: break
        return i, byval

    def parse_fn(self, head, body):
        f = Fn()
        m = re.search(r'@("(?:[^"]*)"|[-\w$.]+)\(', head)
        f.name = m.group(1).strip('"')
        t = self.lex(head[m.end():])
        pre = self.lex(head[:m.start()])
        # return type = last type tokens in pre
        f.ret = None
        i = 0
        cnt = 0
        while t[i] != ')':
            if t[i] == '...': i += 1; continue
            ty, i = self.parse_type(t, i)
            i, byval = self.skip_attrs(t, i)
            if t[i][0] == '%': nm = t[i]; i += 1
            else: nm = '%%%d' % cnt
            cnt += 1
            f.params.append((ty, nm, byval))
            if t[i] == ',': i += 1
        f.raw = body
        f.parsed = False
        f.nunnamed = cnt
        f.head = head
        self.fns[f.name] = f

    def get(self, name):
        name = self.alias.get(name, name)
        f = self.fns.get(name)
        if f is None: return None
        if not f.parsed: self.parse_body(f)
        return f

    def parse_body(self, f):
        # entry label: number following params unless explicit
        cur = None
        pend = None
        blocks = {}
        order = []
        lines = f.raw
        k = 0
        first = True
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip() or l.strip().startswith(';'): continue
            m = re.match(r'^("(?:[^"]*)"|[-\w$.]+):', l)
            if m:
                cur = '%' + m.group(1)
                blocks[cur] = []; order.append(cur); first = False
                continue
            if first:
                cur = '%' + str(sum(1 for p in f.params if re.match(r'%\d+$', p[1])))
                blocks[cur] = []; order.append(cur); first = False
            s = l.strip()
            if s.startswith('switch'):
                while ']' not in s:
                    s += ' ' + lines[k].strip(); k += 1
            loc = None
            dm = re.search(r', !dbg !(\d+)', s)
            if dm:
                loc = self.dbg.get(dm.group(1), (None,))[0]
                s = s[:dm.start()]
            ci = s.find(', !')
            if ci >= 0 and 'metadata' not in s: s = s[:ci]
            if 'llvm.dbg.' in s: continue
            ins = self.parse_ins(s)
            blocks[cur].append((ins, loc))
        f.entry = order[0]
        f.order = order
        f.phis = {}; f.body = {}; f.succ = {}
        for b in order:
            ph = [i for i, _ in blocks[b] if i[0] == 'phi']
            f.phis[b] = ph
            f.body[b] = [(i, l) for i, l in blocks[b] if i[0] != 'phi']
            t = f.body[b][-1][0]
            if t[0] == 'br': f.succ[b] = [t[1]]
            elif t[0] == 'cbr': f.succ[b] = [t[2], t[3]]
            elif t[0] == 'switch': f.succ[b] = [t[2]] + [x for _, x in t[3]]
            else: f.succ[b] = []
        self.postdom(f)
        f.parsed = True
        f.raw = None

    def postdom(self, f):
        nodes = f.order
        EXIT = '<exit>'
        preds = {b: [] for b in nodes}; preds[EXIT] = []
        succ = {}
        for b in nodes:
            s = f.succ[b]
            if not s and f.body[b][-1][0][0] == 'ret': s = [EXIT]
            succ[b] = s
        full = set(nodes) | {EXIT}
        pd = {b: set(full) for b in nodes}; pd[EXIT] = {EXIT}
        changed = True
        rev = list(reversed(nodes))
        while changed:
            changed = False
            for b in rev:
                ss = [pd[x] for x in succ[b]]
                new = (set.intersection(*ss) if ss else set()) | {b}
                if new != pd[b]: pd[b] = new; changed = True
        f.ipdom = {}
        for b in nodes:
            c = pd[b] - {b}
            r = None
            for x in c:
                if all((y == x or y in pd.get(x, ())) for y in c): r = x; break
            f.ipdom[b] = r

    # ------------------------------------------------ operands
    def operand(self, t, i, ty):
        x = t[i]
        if x[0] == '%': return ('l', x), i + 1
        if x[0] == '@': return ('g', x[1:].strip('"')), i + 1
        v, i = self.parse_const(t, i, ty)
        if isinstance(v, tuple):
            if v[0] == 'cgep': return v, i
            if v[0] == 'null': return ('null',), i
            if v[0] in ('undef', 'zero'): return v, i
        return ('c', v), i

    def top(self, t, i):
        ty, i = self.parse_type(t, i)
        i, _ = self.skip_attrs(t, i)
        v, i = self.operand(t, i, ty)
        return ty, v, i

    def parse_ins(self, s):
        t = self.lex(s)
        d = None
        i = 0
        if len(t) > 1 and t[1] == '=' : d = t[0]; i = 2
        op = t[i]
        if op in ('tail', 'musttail', 'notail'): i += 1; op = t[i]
        if op == 'ret':
            if t[i + 1] == 'void': return ('ret', None)
            ty, v, _ = self.top(t, i + 1); return ('ret', v)
        if op == 'br':
            if t[i + 1] == 'label': return ('br', t[i + 2])
            ty, v, j = self.top(t, i + 1)
            assert t[j] == ','; a = t[j + 2]; b = t[j + 5]
            return ('cbr', v, a, b)
        if op == 'switch':
            ty, v, j = self.top(t, i + 1)
            dflt = t[j + 2]; j += 3
            assert t[j] == '['; j += 1
            cases = []
            while t[j] != ']':
                cty, cv, j = self.top(t, j)
                cases.append((cv[1], t[j + 2])); j += 3
            return ('switch', v, dflt, cases)
        if op == 'unreachable': return ('unreachable',)
        if op == 'alloca':
            ty, j = self.parse_type(t, i + 1)
            n = 1
            if j < len(t) and t[j] == ',' and t[j + 1] != 'align':
                raise Unsupported('vla')
            return ('alloca', d, ty)
        if op == 'load':
            j = i + 1
            if t[j] == 'volatile': j += 1
            ty, j = self.parse_type(t, j); j += 1
            _, v, j = self.top(t, j)
            return ('load', d, ty, v)
        if op == 'store':
            j = i + 1
            if t[j] == 'volatile': j += 1
            ty, v, j = self.top(t, j); j += 1
            _, p, j = self.top(t, j)
            return ('store', ty, v, p)
        if op == 'getelementptr':
            j = i + 1
            while t[j] in ('inbounds', 'nuw', 'nusw'): j += 1
            ty, j = self.parse_type(t, j); j += 1
            _, p, j = self.top(t, j)
            idx = []
            while j < len(t) and t[j] == ',':
                ity, v, j = self.top(t, j + 1); idx.append(v)
            return ('gep', d, ty, p, idx)
        if op == 'phi':
            j = i + 1
            while t[j] in FMF: j += 1
            ty, j = self.parse_type(t, j)
            inc = {}
            while j < len(t) and t[j] == '[':
                v, k = self.operand(t, j + 1, ty)
                inc[t[k + 1]] = v
                j = k + 3
                if j < len(t) and t[j] == ',': j += 1
            return ('phi', d, ty, inc)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            j = i + 1
            while t[j] in FMF or t[j] in ('nsw', 'nuw', 'exact', 'disjoint'): j += 1
            ty, a, j = self.top(t, j)
            b, j = self.operand(t, j + 1, ty)
            return ('bin', d, op, ty, a, b)
        if op == 'fneg':
            j = i + 1
            while t[j] in FMF: j += 1
            ty, a, j = self.top(t, j)
            return ('fneg', d, a)
        if op in ('icmp', 'fcmp'):
            j = i + 1
            while t[j] in FMF or t[j] == 'samesign': j += 1
            pred = t[j]
            ty, a, j = self.top(t, j + 1)
            b, j = self.operand(t, j + 1, ty)
            return (op, d, pred, ty, a, b)
        if op == 'select':
            j = i + 1
            while t[j] in FMF: j += 1
            _, c, j = self.top(t, j)
            ty, a, j = self.top(t, j + 1)
            _, b, j = self.top(t, j + 1)
            return ('select', d, c, a, b)
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'freeze'):
            j = i + 1
            while t[j] in FMF or t[j] in ('nneg', 'nuw', 'nsw'): j += 1
            ty, a, j = self.top(t, j)
            to = ty
            if op != 'freeze': to, j = self.parse_type(t, j + 1)
            return ('cast', d, op, ty, a, to)
        if op == 'extractvalue':
            ty, a, j = self.top(t, i + 1)
            return ('extractvalue', d, a, [int(x) for x in t[j + 1:] if x != ','])
        if op == 'insertvalue':
            ty, a, j = self.top(t, i + 1)
            ty2, b, j = self.top(t, j + 1)
            return ('insertvalue', d, a, b, [int(x) for x in t[j + 1:] if x != ','])
        if op == 'call':
            j = i + 1
            while t[j] in FMF or t[j] in ('fastcc', 'ccc') or t[j] in self.ATTR or t[j] in ('align', 'dereferenceable'):
                j, _ = self.skip_attrs(t, j)
                while t[j] in FMF: j += 1
            rty, j = self.parse_type(t, j)
            if t[j] == '(':   # full function type
                dd = 0
                while True:
                    if t[j] == '(': dd += 1
                    elif t[j] == ')': dd -= 1
                    j += 1
                    if dd == 0: break
            callee, j = self.operand(t, j, PTR)
            assert t[j] == '(', s
            j += 1
            args = []
            while t[j] != ')':
                if t[j] == 'metadata': raise Unsupported('metadata arg')
                ty, j = self.parse_type(t, j)
                j, byval = self.skip_attrs(t, j)
                v, j = self.operand(t, j, ty)
                args.append((ty, v, byval))
                if t[j] == ',': j += 1
            return ('call', d, rty, callee, args)
        raise Unsupported('instruction ' + op)

FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

def parse_double(x):
    if x.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
    return float(x)
