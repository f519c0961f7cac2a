"""Parser for the textual LLVM 18 IR subset produced by lower.py."""
import re, struct
from fractions import Fraction

class ParseError(Exception): pass

# ---- types: ('int',w) ('float',) ('double',) ('ptr',) ('void',) ('vec',n,t) ('arr',n,t) ('struct',name|None,[...]) ('label',) ('meta',) ('x86_fp80',)
TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")|
  (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|
  (?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*)|
  (?P<p>\.\.\.|[()\[\]{}<>,=*|:])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise ParseError('tok: %r' % s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

class P:
    def __init__(self, toks): self.t, self.i = toks, 0
    def peek(self, k=0): return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i][1]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        if self.peek() != x: raise ParseError('expected %r got %r in %s' % (x, self.peek(), ' '.join(t[1] for t in self.t)[:200]))
        self.i += 1
    def done(self): return self.i >= len(self.t)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'line', 'txt')
    def __repr__(self): return self.txt

class Block:
    def __init__(self, name): self.name, self.ins = name, []

class Func:
    def __init__(self): self.blocks = {}; self.order = []; self.params = []; self.name = ''; self.ret = None; self.vararg = False

class Module:
    def __init__(self): self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.dl = {}

PATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'immarg', 'returned', 'nofree', 'allocptr', 'nest', 'swiftself'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

class Parser:
    def __init__(self, text):
        self.m = Module()
        self.dbg = {}
        self.text = text
        self.parse()

    def ty(self, p):
        x = p.next()
        if re.fullmatch(r'i\d+', x): t = ('int', int(x[1:]))
        elif x == 'float': t = ('float',)
        elif x == 'double': t = ('double',)
        elif x == 'x86_fp80': t = ('x86_fp80',)
        elif x == 'half': t = ('half',)
        elif x == 'ptr': t = ('ptr',)
        elif x == 'void': t = ('void',)
        elif x == 'label': t = ('label',)
        elif x == 'metadata': t = ('meta',)
        elif x == '<':
            if p.peek() == '{':
                raise ParseError('packed struct')
            n = int(p.next()); p.expect('x'); e = self.ty(p); p.expect('>'); t = ('vec', n, e)
            if False: pass
        elif x == '[':
            n = int(p.next()); p.expect('x'); e = self.ty(p); p.expect(']'); t = ('arr', n, e)
        elif x == '{':
            fs = []
            while not p.accept('}'):
                fs.append(self.ty(p)); p.accept(',')
            t = ('struct', None, tuple(fs))
        elif x.startswith('%'): t = ('named', x)
        elif x == 'opaque': t = ('opaque',)
        else: raise ParseError('type %r' % x)
        return t

    def tyx(self, p):
        """type, incl. packed struct <{...}>"""
        if p.peek() == '<' and p.peek(1) == '{':
            p.next(); p.next(); fs = []
            while not p.accept('}'):
                fs.append(self.ty(p)); p.accept(',')
            p.expect('>')
            return ('pstruct', None, tuple(fs))
        return self.ty(p)

    def resolve(self, t):
        while t[0] == 'named': t = self.m.types[t[1]]
        return t

    def skipattrs(self, p):
        al = None; byval = None
        while True:
            x = p.peek()
            if x in PATTR: p.next()
            elif x == 'align': p.next(); al = int(p.next())
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'nofpclass', 'memory'):
                p.next(); p.expect('(')
                while not p.accept(')'): p.next()
            elif x in ('byval', 'sret', 'elementtype', 'inalloca'):
                nm = p.next(); p.expect('('); t = self.ty(p); p.expect(')')
                if nm == 'byval': byval = t
            else: return al, byval

    def val(self, p, t):
        k, x = p.t[p.i]
        if k == 'loc': p.next(); return ('loc', x)
        if k == 'glob': p.next(); return ('glob', x[1:])
        if k == 'num':
            p.next(); tt = t
            if tt[0] in ('float', 'double', 'x86_fp80', 'half'):
                return ('f', fconst(x))
            return ('i', int(x))
        if x in ('true', 'false'): p.next(); return ('i', 1 if x == 'true' else 0)
        if x == 'null': p.next(); return ('null',)
        if x in ('undef', 'poison'): p.next(); return ('undef',)
        if x == 'zeroinitializer': p.next(); return ('zero',)
        if x == 'none': p.next(); return ('undef',)
        if k == 'str':
            p.next()
            s = x[2:-1] if x.startswith('c"') else x[1:-1]
            b = bytearray(); i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i + 1:i + 3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if x == '<' and p.peek(1) == '{':
            p.next(); p.next(); el = []
            while not p.accept('}'):
                et = self.ty(p); el.append((et, self.val(p, et))); p.accept(',')
            p.expect('>')
            return ('agg', el)
        if x in ('<', '[', '{'):
            p.next(); close = {'<': '>', '[': ']', '{': '}'}[x]; el = []
            while not p.accept(close):
                et = self.ty(p); el.append((et, self.val(p, et))); p.accept(',')
            return ('agg', el)
        if x == 'getelementptr':
            p.next()
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            p.expect('('); bt = self.ty(p); p.expect(',')
            ops = []
            while True:
                et = self.ty(p); ops.append((et, self.val(p, et)))
                if not p.accept(','): break
            p.expect(')')
            return ('cgep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            p.next(); p.expect('('); et = self.ty(p); v = self.val(p, et); p.expect('to'); tt = self.ty(p); p.expect(')')
            return ('ccast', x, et, v, tt)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            p.next()
            while p.peek() in ('nsw', 'nuw'): p.next()
            p.expect('('); et = self.ty(p); a = self.val(p, et); p.expect(','); et2 = self.ty(p); b = self.val(p, et2); p.expect(')')
            return ('cbin', x, et, a, b)
        if x == 'splat':
            p.next(); p.expect('('); et = self.ty(p); v = self.val(p, et); p.expect(')')
            return ('splat', et, v)
        raise ParseError('value %r (%s)' % (x, t))

    def parse(self):
        lines = self.text.split('\n')
        # debug locations
        for l in lines:
            m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
            if m: self.dbg[m.group(1)] = int(m.group(2))
        i = 0
        self.sizes = {}
        while i < len(lines):
            l = lines[i]
            if re.match(r'%[-\w$."]+ = type', l):
                p = P(tokenize(l)); nm = p.next(); p.expect('='); p.expect('type'); self.m.types[nm] = self.tyx(p)
            elif l.startswith('@'):
                self.glob(l)
            elif l.startswith('declare'):
                self.decl(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self.func(l, lines[i + 1:j]); i = j
            i += 1

    def glob(self, l):
        l = re.sub(r'(, ![a-z]+ !\d+)+$', '', l)
        p = P(tokenize(l)); nm = p.next()[1:]; p.expect('=')
        g = dict(name=nm, const=False, init=None, align=1, internal=False, ext=False)
        while p.peek() in ('private', 'internal', 'unnamed_addr', 'dso_local', 'local_unnamed_addr', 'external', 'common', 'global', 'constant', 'weak', 'linkonce_odr', 'extern_weak', 'hidden', 'thread_local'):
            x = p.next()
            if x == 'constant': g['const'] = True
            if x in ('private', 'internal'): g['internal'] = True
            if x == 'external': g['ext'] = True
            if x in ('global', 'constant'): break
        g['ty'] = self.tyx(p)
        if not p.done() and p.peek() != ',': g['init'] = self.val(p, g['ty'])
        while p.accept(','):
            if p.peek() == 'align': p.next(); g['align'] = int(p.next())
            else:
                while not p.done() and p.peek() != ',': p.next()
        self.m.globals[nm] = g

    def header(self, l):
        l = l[l.index(' '):]
        p = P(tokenize(l.rstrip('{ ').rstrip()))
        f = Func()
        while True:
            x = p.peek()
            if x in ('dso_local', 'internal', 'private', 'external', 'weak', 'linkonce_odr', 'hidden', 'extern_weak', 'local_unnamed_addr', 'unnamed_addr', 'available_externally'):
                if x == 'internal': f.internal = True
                p.next()
            elif x in PATTR or x in ('align', 'dereferenceable', 'dereferenceable_or_null'): self.skipattrs(p)
            else: break
        f.ret = self.tyx(p)
        f.name = p.next()[1:]
        if f.name.startswith('"'): f.name = f.name[1:-1]
        p.expect('(')
        n = 0
        while not p.accept(')'):
            if p.accept('...'): f.vararg = True; continue
            t = self.tyx(p); al, byval = self.skipattrs(p)
            nm = '%' + str(n)
            if p.kind() == 'loc': nm = p.next()
            f.params.append((t, nm, byval)); n += 1
            p.accept(',')
        f.attrs = ' '.join(x[1] for x in p.t[p.i:])
        return f

    def decl(self, l):
        try:
            f = self.header(l); self.m.decls[f.name] = f
        except ParseError:
            pass

    def func(self, l, body):
        f = self.header(re.sub(r' !dbg !\d+', '', l))
        f.internal = ' internal ' in l
        cur = None
        n = sum(1 for t, nm, b in f.params)
        for ln in body:
            if not ln.strip(): continue
            m = re.match(r'^("?[-a-zA-Z$._0-9]+"?):', ln)
            if m:
                nm = '%' + m.group(1); cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm); continue
            if cur is None:
                # implicit entry label: next unnamed number
                nm = '%entry!'; cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
            if not ln.startswith('  '): continue
            if ln.startswith('    ') or ln.startswith('  ]'):
                # continuation (switch cases)
                cur.ins[-1].txt += ' ' + ln.strip()
                continue
            it = Instr(); it.txt = ln.strip(); it.op = None
            cur.ins.append(it)
        for b in f.blocks.values():
            for it in b.ins: self.instr(it)
        # fix the name of the implicit entry block used in phis
        ent = f.order[0]
        if ent == '%entry!':
            used = set()
            for b in f.blocks.values():
                for it in b.ins:
                    if it.op == 'phi':
                        for v, bl in it.ops: used.add(bl)
            for u in used:
                if u not in f.blocks:
                    blk = f.blocks.pop('%entry!'); blk.name = u; f.blocks[u] = blk; f.order[0] = u
                    break
        f.entry = f.order[0]
        self.m.funcs[f.name] = f

    def instr(self, it):
        s = it.txt
        it.line = 0
        m = re.search(r', !dbg !(\d+)', s)
        if m: it.line = self.dbg.get(m.group(1), 0)
        s = re.sub(r'(, ![a-zA-Z.]+ !\d+)+', '', s)
        s = re.sub(r', !srcloc !\d+', '', s)
        p = P(tokenize(s))
        it.res = None
        if p.peek(1) == '=': it.res = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        it.op = op; it.x = None; it.ops = None
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FMF: fl.add(p.next())
            it.ty = self.ty(p); a = self.val(p, it.ty); p.expect(','); b = self.val(p, it.ty)
            it.ops = [(it.ty, a), (it.ty, b)]; it.x = fl
        elif op == 'fneg':
            while p.peek() in FMF: p.next()
            it.ty = self.ty(p); it.ops = [(it.ty, self.val(p, it.ty))]
        elif op in ('icmp', 'fcmp'):
            while p.peek() in FMF: p.next()
            it.x = p.next(); t = self.ty(p); a = self.val(p, t); p.expect(','); b = self.val(p, t)
            it.ops = [(t, a), (t, b)]
            it.ty = ('vec', t[1], ('int', 1)) if t[0] == 'vec' else ('int', 1)
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF: p.next()
            t = self.ty(p); a = self.val(p, t); p.expect('to'); it.ty = self.ty(p); it.ops = [(t, a)]
        elif op == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'): inb = True; p.next()
            bt = self.ty(p); ops = []
            while p.accept(','):
                t = self.ty(p); ops.append((t, self.val(p, t)))
            it.x = bt; it.ops = ops; it.ty = ('ptr',)
        elif op == 'load':
            while p.peek() in ('volatile', 'atomic'): p.next()
            it.ty = self.tyx(p); p.expect(','); t = self.ty(p); a = self.val(p, t)
            it.ops = [(t, a)]; it.x = self.align(p)
        elif op == 'store':
            while p.peek() in ('volatile', 'atomic'): p.next()
            t = self.tyx(p); v = self.val(p, t); p.expect(','); t2 = self.ty(p); a = self.val(p, t2)
            it.ty = t; it.ops = [(t, v), (t2, a)]; it.x = self.align(p)
        elif op == 'alloca':
            t = self.tyx(p); n = (('int', 32), ('i', 1)); al = 1
            while p.accept(','):
                if p.peek() == 'align': p.next(); al = int(p.next())
                else:
                    tt = self.ty(p); n = (tt, self.val(p, tt))
            it.ty = ('ptr',); it.x = (t, n, al); it.ops = [n]
        elif op == 'phi':
            while p.peek() in FMF: p.next()
            it.ty = self.ty(p); it.ops = []
            while True:
                p.expect('['); v = self.val(p, it.ty); p.expect(','); b = p.next(); p.expect(']')
                it.ops.append((v, b))
                if not p.accept(','): break
        elif op == 'select':
            while p.peek() in FMF: p.next()
            t = self.ty(p); c = self.val(p, t); p.expect(','); t1 = self.ty(p); a = self.val(p, t1); p.expect(','); t2 = self.ty(p); b = self.val(p, t2)
            it.ty = t1; it.ops = [(t, c), (t1, a), (t2, b)]
        elif op == 'br':
            if p.accept('label'): it.x = (None, p.next(), None)
            else:
                t = self.ty(p); c = self.val(p, t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
                it.x = ((t, c), a, b)
            it.ty = ('void',)
        elif op == 'switch':
            t = self.ty(p); v = self.val(p, t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cs = []
            while not p.accept(']'):
                tt = self.ty(p); cv = self.val(p, tt); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()))
            it.x = ((t, v), d, cs); it.ty = ('void',)
        elif op == 'ret':
            it.ty = self.ty(p)
            it.ops = [] if it.ty == ('void',) else [(it.ty, self.val(p, it.ty))]
        elif op == 'unreachable': it.ty = ('void',); it.ops = []
        elif op == 'call':
            while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
            self.skipattrs(p)
            it.ty = self.tyx(p)
            if p.peek() == '(':   # function type
                dep = 0
                while True:
                    x = p.next()
                    if x == '(': dep += 1
                    elif x == ')':
                        dep -= 1
                        if dep == 0: break
            if p.peek() == 'asm':
                it.op = 'asm'; it.ops = []; return
            callee = self.val(p, ('ptr',)); p.expect('(')
            args = []
            while not p.accept(')'):
                t = self.ty(p); al, byval = self.skipattrs(p)
                if t == ('meta',):
                    while p.peek() not in (',', ')'): p.next()
                    p.accept(','); continue
                args.append((t, self.val(p, t), byval)); p.accept(',')
            it.x = callee; it.ops = args
        elif op == 'insertelement':
            t = self.ty(p); a = self.val(p, t); p.expect(','); t1 = self.ty(p); b = self.val(p, t1); p.expect(','); t2 = self.ty(p); c = self.val(p, t2)
            it.ty = t; it.ops = [(t, a), (t1, b), (t2, c)]
        elif op == 'extractelement':
            t = self.ty(p); a = self.val(p, t); p.expect(','); t2 = self.ty(p); c = self.val(p, t2)
            it.ty = t[2]; it.ops = [(t, a), (t2, c)]
        elif op == 'shufflevector':
            t = self.ty(p); a = self.val(p, t); p.expect(','); t1 = self.ty(p); b = self.val(p, t1); p.expect(','); t2 = self.ty(p); c = self.val(p, t2)
            it.ty = ('vec', t2[1], t[2]); it.ops = [(t, a), (t1, b), (t2, c)]
        elif op == 'extractvalue':
            t = self.ty(p); a = self.val(p, t); idx = []
            while p.accept(','): idx.append(int(p.next()))
            it.ops = [(t, a)]; it.x = idx; it.ty = None
        elif op == 'insertvalue':
            t = self.ty(p); a = self.val(p, t); p.expect(','); t1 = self.ty(p); b = self.val(p, t1); idx = []
            while p.accept(','): idx.append(int(p.next()))
            it.ty = t; it.ops = [(t, a), (t1, b)]; it.x = idx
        elif op == 'freeze':
            it.ty = self.ty(p); it.ops = [(it.ty, self.val(p, it.ty))]
        elif op == 'va_arg':
            t = self.ty(p); a = self.val(p, t); p.expect(','); it.ty = self.ty(p); it.ops = [(t, a)]
        else:
            it.op = 'unsupported'; it.x = op; it.ops = []; it.ty = ('void',)

    def align(self, p):
        al = 1
        while p.accept(','):
            if p.peek() == 'align': p.next(); al = int(p.next())
            else: break
        return al

def fconst(x):
    if x.startswith('0x') and x[2] not in 'KLMHR':
        d = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
    elif x.startswith('0x'):
        return ('raw', x)
    else: d = float(x)
    if d != d: return ('nan',)
    if d in (float('inf'), float('-inf')): return ('inf', 1 if d > 0 else -1)
    return Fraction(d)

# ---- sizes ----
def sizeof(m, t):
    k = t[0]
    if k == 'int': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
    if k == 'float': return 4
    if k == 'double': return 8
    if k == 'ptr': return 8
    if k == 'half': return 2
    if k == 'x86_fp80': return 16
    if k == 'vec': return t[1] * sizeof(m, t[2])
    if k == 'arr': return t[1] * sizeof(m, t[2])
    if k == 'named': return sizeof(m, m.types[t[1]])
    if k == 'struct': return struct_layout(m, t)[1]
    if k == 'pstruct': return sum(sizeof(m, x) for x in t[2])
    raise ParseError('sizeof %s' % (t,))

def alignof(m, t):
    k = t[0]
    if k in ('int', 'float', 'double', 'ptr', 'half', 'x86_fp80', 'vec'): return sizeof(m, t)
    if k == 'arr': return alignof(m, t[2])
    if k == 'named': return alignof(m, m.types[t[1]])
    if k == 'struct': return max([alignof(m, x) for x in t[2]] or [1])
    return 1

def struct_layout(m, t):
    while t[0] == 'named': t = m.types[t[1]]
    offs, o, al = [], 0, 1
    for x in t[2]:
        a = 1 if t[0] == 'pstruct' else alignof(m, x)
        al = max(al, a)
        o = (o + a - 1) // a * a
        offs.append(o); o += sizeof(m, x)
    return offs, (o + al - 1) // al * al

def parse(text): return Parser(text).m
