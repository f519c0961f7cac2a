"""Symbolic executor over LLVM IR with loop summarisation.  Produces and discharges obligations."""
import time, re
from fractions import Fraction
from terms import *
import terms as tm
import solve
from solve import prove, decide, simp, prove_eq, infeasible
import llparse
from llparse import sizeof, struct_layout

class Unsupported(Exception): pass
USE_CHECK = RETAG = None

# ---------------------------------------------------------------- values
class Region:
    n = 0
    def __hash__(self): return self.id
    def __init__(self, name, kind, size, es=4, sort=R, writable=True, align=1, stack=False, lazy=None):
        Region.n += 1
        self.id = Region.n
        self.name = name; self.kind = kind      # 'arr' | 'cells'
        self.size = size                        # bytes (Int term) or None
        self.es, self.sort = es, sort
        self.writable = writable
        self.align = align
        self.addr = var('addr_' + name, I)
        self.stack = stack
        self.lazy = lazy
        self.ety = None
        self.readlog = None
    def __repr__(self): return '<%s>' % self.name

class Fn:
    """function pointer constant, or symbolic function (sym)"""
    _tab = {}
    OPAQUE = re.compile(r'^((act|der)_\d+|layer_activation|layer_derivative|named_activation|loss_fn|free_fn|progress_fn|run_epoch_fn|metric_of_loss|metric|metric_fn|previous_loss)$')
    def __init__(self, name, module=None): self.name = name; self.module = module; self.opaque = bool(Fn.OPAQUE.match(name))
    def __repr__(self): return 'fn:' + self.name
    @staticmethod
    def get(name, module=None):
        k = name
        if k not in Fn._tab: Fn._tab[k] = Fn(name, module)
        return Fn._tab[k]

class Ptr:
    __slots__ = ('base', 'off')
    def __init__(self, base, off): self.base = base; self.off = off if isinstance(off, T) else IC(off)
    def __repr__(self): return 'Ptr(%s,%s)' % (self.base, self.off)
NULL = Ptr(None, IC(0))

class PIte:
    """guarded pointer: list of (cond, Ptr), last one is default (cond ignored)"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'PIte(%s)' % self.alts

class Agg(list): pass

class Arr:
    """functional array content: element index v -> body"""
    __slots__ = ('v', 'body')
    def __init__(self, v, body): self.v = v; self.body = body
    def at(self, idx): return subst(self.body, {self.v: idx}) if idx is not self.v else self.body

def isptr(x): return isinstance(x, (Ptr, PIte))

def alts(p):
    """[(cond, Ptr)] exclusive"""
    if isinstance(p, Ptr): return [(TRUE, p)]
    out = []; rest = TRUE
    for i, (c, q) in enumerate(p.alts):
        if i == len(p.alts) - 1: out.append((rest, q))
        else:
            out.append((and_(rest, c), q)); rest = and_(rest, not_(c))
    return out

def vite(c, a, b):
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Agg): return Agg(vite(c, x, y) for x, y in zip(a, b))
    if isptr(a) or isptr(b):
        if isinstance(a, T) or isinstance(b, T): raise Unsupported('merge ptr/int')
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base is b.base:
            return Ptr(a.base, ite(c, a.off, b.off))
        la = [(and_(c, g), p) for g, p in alts(a)]
        lb = [(and_(not_(c), g), p) for g, p in alts(b)]
        out = []
        for g, p in la + lb:
            if g is FALSE: continue
            for i, (h, q) in enumerate(out):
                if q.base is p.base:
                    out[i] = (or_(h, g), Ptr(p.base, ite(h, q.off, p.off))); break
            else: out.append((g, p))
        if len(out) == 1: return out[0][1]
        return PIte(out)
    return ite(c, a, b)

def veq(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.base is b.base and a.off is b.off
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, Agg) and isinstance(b, Agg): return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, PIte) and isinstance(b, PIte):
        return len(a.alts) == len(b.alts) and all(c is d and veq(p, q) for (c, p), (d, q) in zip(a.alts, b.alts))
    return False

# ---------------------------------------------------------------- state
class State:
    __slots__ = ('pc', 'mem', 'env', 'ghost', '_facts')
    def __init__(self):
        self.pc = []      # (term, isbranch)
        self.mem = {}     # Region -> Arr | dict
        self.env = {}
        self.ghost = {}
        self._facts = None
    def fork(self):
        s = State()
        s.pc = list(self.pc); s.mem = dict(self.mem); s.env = dict(self.env); s.ghost = dict(self.ghost)
        return s
    def assume(self, t, branch=False):
        if t is TRUE: return
        self.pc.append((t, branch)); self._facts = None
    def facts(self):
        if self._facts is None: self._facts = [t for t, _ in self.pc]
        return self._facts

# ranges of integer symbols
from solve import RANGES
from solve import APPRANGE
INF = None
CHAR = None
def interval(t, d=0):
    """(lo, hi) with None = unbounded"""
    if t.op == 'const': return t.args[0], t.args[0]
    if t.op == 'var': return RANGES.get(t, (None, None))
    if t.op == 'app':
        r = APPRANGE.get(t.args[0])
        return r if r else (None, None)
    if t.op == 'poly':
        lo = hi = Fraction(0)
        for m, c in t.args:
            l = h = Fraction(1)
            for x in m:
                a, b = interval(x, d + 1)
                if a is None or b is None:
                    # nonneg half-line products
                    l, h = (Fraction(0), None) if (a is not None and a >= 0 and l is not None and l >= 0) else (None, None)
                    continue
                if l is None: continue
                if h is None:
                    if a >= 0: continue
                    l = None; continue
                cs = [l * a, l * b, h * a, h * b]
                l, h = min(cs), max(cs)
            if c >= 0: a, b = (None if l is None else l * c), (None if h is None else h * c)
            else: a, b = (None if h is None else h * c), (None if l is None else l * c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi
    if t.op == 'ite':
        a, b = interval(t.args[1], d + 1); c, e = interval(t.args[2], d + 1)
        q = t.args[0]
        if q.op == 'le0' and t.sort == I:      # a branch that differs from the tested term by a constant
            k = sub(t.args[1], q.args[0])
            if k.op == 'const': b = k.args[0] if b is None else min(b, k.args[0])
            k = sub(t.args[2], q.args[0])
            if k.op == 'const': c = k.args[0] + 1 if c is None else max(c, k.args[0] + 1)
        return (None if a is None or c is None else min(a, c)), (None if b is None or e is None else max(b, e))
    if t.op == 'mod' and t.args[1].op == 'const':
        return Fraction(0), t.args[1].args[0] - 1
    if t.op == 'div' and t.args[1].op == 'const':
        a, b = interval(t.args[0], d + 1); n = t.args[1].args[0]
        return (None if a is None else Fraction(a // n)), (None if b is None else Fraction(b // n))
    return None, None

class Obl:
    __slots__ = ('fn', 'line', 'kind', 'desc', 'ok', 'goal', 'facts', 'how')
    def __init__(self, fn, line, kind, desc, ok, goal, facts):
        self.fn, self.line, self.kind, self.desc, self.ok, self.goal, self.facts = fn, line, kind, desc, ok, goal, facts
    def name(self): return '%s:%s:%s%s' % (self.fn, self.line, self.kind, (' ' + self.desc) if self.desc else '')

def unsigned(t, w, st):
    lo, hi = interval(t)
    if lo is not None and lo >= 0: return t
    z = IC(0)
    if prove(st.facts(), ge(t, z), 1000, nl=False): return t
    return ite(lt(t, z), add(t, IC(2 ** w)), t)

# ---------------------------------------------------------------- loops
class Loop:
    def __init__(self, header): self.header = header; self.blocks = {header}; self.latches = []; self.children = []; self.parent = None

def succs(b):
    it = b.ins[-1]
    if it.op == 'br':
        return [x for x in (it.x[1], it.x[2]) if x]
    if it.op == 'switch': return [it.x[1]] + [c[1] for c in it.x[2]]
    return []

def analyse(f):
    if hasattr(f, 'cfg'): return
    f.cfg = True
    su = {n: succs(b) for n, b in f.blocks.items()}
    # rpo
    seen, order = set(), []
    def dfs(n):
        st = [(n, iter(su[n]))]; seen.add(n)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y, iter(su[y]))); break
            else:
                order.append(x); st.pop()
    dfs(f.entry)
    rpo = order[::-1]
    f.rpo = rpo
    idx = {n: i for i, n in enumerate(rpo)}
    pr = {n: [] for n in rpo}
    for n in rpo:
        for y in su[n]: pr[y].append(n)
    f.preds = pr; f.su = su
    # dominators
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in pr[n]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, b = new, p
                        while a != b:
                            while idx[a] > idx[b]: a = idom[a]
                            while idx[b] > idx[a]: b = idom[b]
                        new = a
            if idom.get(n) != new: idom[n] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for y in su[n]:
            if y in idx and idx[y] <= idx[n]:
                if not dom(y, n): raise Unsupported('irreducible control flow in ' + f.name)
                L = loops.setdefault(y, Loop(y)); L.latches.append(n)
                st = [n]
                while st:
                    x = st.pop()
                    if x in L.blocks: continue
                    L.blocks.add(x); st.extend(pr[x])
    ls = sorted(loops.values(), key=lambda L: len(L.blocks))
    for i, L in enumerate(ls):
        for M in ls[i + 1:]:
            if L.header in M.blocks and L is not M:
                L.parent = M; M.children.append(L); break
    f.loops = loops
    f.top = [L for L in ls if L.parent is None]

FLT_EPS = None

class Exec:
    def __init__(self, modules, config=None, contracts=None):
        self.modules = modules if isinstance(modules, list) else [modules]
        self.config = config
        self.contracts = contracts or {}
        self.obls = []
        self.silent = 0
        self.fnstack = []
        self.globals = {}
        self.builtins = {}
        self.noinline = set()
        self.notes = set()
        self.checks = {'bounds', 'align', 'overflow', 'assert', 'call', 'loop', 'post', 'write', 'div', 'null'}
        self.maxunroll = 80
        self.used_contracts = set()
        self.inlined = set()
        self.externals = set()
        self.extern = {}               # values of external pointer variables (stdout, ...)
        self.globinit = {}
        self.deadline = None
        self.unroll_decide = False
        import intrinsics
        intrinsics.install(self)

    # ---------------- obligations
    def oblige(self, st, line, kind, goal, desc=''):
        if self.silent: return True
        if goal is TRUE:
            ok = True
        else:
            ok = prove(st.facts(), goal) or self.retry(st, [goal], lambda f: prove(f, goal))
        fn = self.fnstack[-1].name if self.fnstack else '?'
        self.obls.append(Obl(fn, line, kind, desc, ok, goal, None if ok else list(st.facts())))
        return ok

    def retry(self, st, ts, fn):
        """with instances of the quantified facts of finished loops at the indices the goal mentions"""
        import loops
        if not loops.FORALL: return False
        s2 = st.fork()
        if not loops.auto_instantiate(s2, ts): return False
        return fn(s2.facts())

    def oblige_eq(self, st, line, kind, a, b, desc=''):
        if self.silent: return True
        solve.TRACE.clear()
        ok = prove_eq(a, b, st.facts()) or self.retry(st, [a, b], lambda f: prove_eq(a, b, f))
        fn = self.fnstack[-1].name if self.fnstack else '?'
        o = Obl(fn, line, kind, desc, ok, None if ok else eq(a, b) if a.sort == b.sort else None, None if ok else list(st.facts()))
        if not ok: o.how = list(solve.TRACE[-1:])
        self.obls.append(o)
        return ok

    # ---------------- module lookup
    def find(self, name, module=None):
        if module is not None and name in module.funcs: return module.funcs[name], module
        for m in self.modules:
            f = m.funcs.get(name)
            if f is not None and not getattr(f, 'internal', False): return f, m
        for m in self.modules:
            if name in m.funcs: return m.funcs[name], m
        return None, None

    # ---------------- constants
    def const(self, st, t, v, frame):
        k = v[0]
        if k == 'loc':
            try: return st.env[v[1]]
            except KeyError: raise Unsupported('undefined local %s in %s' % (v[1], frame.name if frame else '?'))
        m = self.curmod
        while t[0] == 'named': t = m.types[t[1]]
        if k == 'i':
            if t[0] == 'int' and t[1] == 1: return TRUE if v[1] & 1 else FALSE
            return IC(v[1])
        if k == 'f':
            x = v[1]
            if isinstance(x, tuple): return app('flt_' + '_'.join(str(y) for y in x), R)
            return RC(x)
        if k == 'glob':
            nm = v[1]
            g = None
            if nm in m.globals: return Ptr(self.globalregion(st, nm, m), IC(0))
            if nm in m.funcs and getattr(m.funcs[nm], 'internal', False): return Ptr(Fn.get(self.mangle(nm, m), m), IC(0))
            if nm in m.funcs or nm in m.decls: return Ptr(Fn.get(nm), IC(0))
            raise Unsupported('global ' + nm)
        if k == 'null': return NULL
        if k == 'undef': return self.undef(t)
        if k == 'zero': return self.zero(t)
        if k == 'agg':
            els = [self.const(st, et, ev, frame) for et, ev in v[1]]
            return tuple(els) if t[0] == 'vec' else Agg(els)
        if k == 'splat':
            x = self.const(st, v[1], v[2], frame)
            return tuple([x] * t[1])
        if k == 'bytes': return Agg(IC(b if b < 128 else b - 256) for b in v[1])
        if k == 'cgep':
            return self.gep(st, v[1], [(tt, self.const(st, tt, vv, frame)) for tt, vv in v[2]])
        if k == 'ccast':
            x = self.const(st, v[2], v[3], frame)
            return self.cast(st, v[1], x, v[2], v[4], 0)
        raise Unsupported('constant ' + k)

    def mangle(self, nm, m):
        return nm

    def undef(self, t):
        t = self.res(t)
        if t[0] == 'vec': return tuple(self.undef(t[2]) for _ in range(t[1]))
        if t[0] == 'int': return fresh('undef', B if t[1] == 1 else I)
        if t[0] in ('float', 'double', 'x86_fp80'): return fresh('undef', R)
        if t[0] == 'ptr': return Ptr(None, fresh('undefp', I))
        if t[0] in ('struct', 'pstruct'): return Agg(self.undef(x) for x in t[2])
        if t[0] == 'arr': return Agg(self.undef(t[2]) for _ in range(t[1]))
        raise Unsupported('undef %s' % (t,))

    def zero(self, t):
        t = self.res(t)
        if t[0] == 'vec': return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 'int': return FALSE if t[1] == 1 else IC(0)
        if t[0] in ('float', 'double', 'x86_fp80'): return RC(0)
        if t[0] == 'ptr': return NULL
        if t[0] in ('struct', 'pstruct'): return Agg(self.zero(x) for x in t[2])
        if t[0] == 'arr': return Agg(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero %s' % (t,))

    def res(self, t):
        while t[0] == 'named': t = self.curmod.types[t[1]]
        return t

    def globalregion(self, st, nm, m):
        g = m.globals[nm]
        if g['internal'] and not g['const'] and not g['ext'] and nm in readonly_statics(m): g['const'] = True
        key = (id(m), nm) if g['internal'] else nm
        r = self.globals.get(key)
        if r is None:
            if g['ext']:
                r = Region('g_' + nm, 'cells', None, lazy=True, align=g['align'] or 1)
                r.ext = True
            else:
                r = Region('g_' + nm, 'cells', IC(sizeof(m, g['ty'])), writable=not g['const'], align=g['align'])
            r.gty = g['ty']; r.gname = nm
            r.const = g['const']
            r.bytes = g['init'][1] if g['init'] and g['init'][0] == 'bytes' else None
            if r.bytes is None and g['const'] and not g['ext'] and g['ty'][0] == 'arr' and g['ty'][2] == ('int', 8) and g['ty'][1] <= 4096 and (not g['init'] or g['init'][0] == 'zero'):
                r.bytes = b'\0' * g['ty'][1]
            cells = {}
            if not g['ext']:
                if (g['const'] or self.globinit.get(nm) == 'init'):
                    init = g['init'] or ('zero',)
                    old = self.curmod; self.curmod = m
                    if not (g['ty'][0] == 'arr' and g['ty'][1] > 4096):
                        self.fill(cells, 0, g['ty'], self.const(st, g['ty'], init, None))
                    self.curmod = old
                else:
                    r.lazy = True     # mutable static: arbitrary (unknown) value on entry
            if nm in self.extern: cells = {0: (8, self.extern[nm])}; r.lazy = False
            r.initcells = cells
            self.globals[key] = r
        if r not in st.mem: st.mem[r] = dict(r.initcells)
        return r

    def fill(self, cells, off, t, v):
        t = self.res(t)
        if t[0] in ('struct', 'pstruct'):
            offs, _ = struct_layout(self.curmod, t)
            for o, ft, fv_ in zip(offs, t[2], v): self.fill(cells, off + o, ft, fv_)
        elif t[0] == 'arr':
            s = sizeof(self.curmod, t[2])
            for i, x in enumerate(v): self.fill(cells, off + i * s, t[2], x)
        else:
            cells[off] = (sizeof(self.curmod, t), v)

    # ---------------- memory
    def elemidx(self, off, es):
        """byte offset -> element index (exact), or None"""
        d = {}
        for m, c in pd(off).items():
            if c % es != 0: return None
            d[m] = c / es
        return frompd(d, I)

    def bounds(self, st, p, size, line, what):
        r = p.base
        if r is None:
            self.oblige(st, line, 'null', FALSE, what + ' through null/invalid pointer')
            return False
        if isinstance(r, Fn):
            self.oblige(st, line, 'bounds', FALSE, what + ' of function address'); return False
        if st.mem.get(r) is None and r in st.ghost.get('freed', ()):
            self.oblige(st, line, 'bounds', FALSE, what + ' after free of ' + r.name); return False
        if getattr(r, 'heap', None): USE_CHECK(self, st, r, line, what)
        if r.size is not None:
            g = and_(ge(p.off, IC(0)), le(add(p.off, size if isinstance(size, T) else IC(size)), r.size))
            self.oblige(st, line, 'bounds', g, '%s %s' % (what, r.name))
        return True

    def alignob(self, st, p, al, line, what):
        r = p.base
        if al <= 1 or r is None or isinstance(r, Fn): return
        if r.align % al == 0:
            g = eq(intmod(p.off, IC(al)), IC(0))
        else:
            g = eq(intmod(add(r.addr, p.off), IC(al)), IC(0))
        self.oblige(st, line, 'align', g, '%s %s aligned %d' % (what, r.name, al))

    def load(self, st, ty, p, al, line):
        ty = self.res(ty)
        if isinstance(p, PIte):
            out = None
            la = [(c, q) for c, q in alts(p)]
            la = [(c, q) for c, q in la if not infeasible(st.facts() + [c])]
            if not la: return self.undef(ty)
            if len(la) == 1: return self.load(st, ty, la[0][1], al, line)
            res = None
            for c, q in reversed(la):
                s2 = st.fork(); s2.assume(c)
                v = self.load(s2, ty, q, al, line)
                for k in s2.mem:
                    if k not in st.mem: st.mem[k] = s2.mem[k]
                res = v if res is None else vite(c, v, res)
            return res
        if not isinstance(p, Ptr): raise Unsupported('load through non pointer')
        size = sizeof(self.curmod, ty)
        if not self.bounds(st, p, size, line, 'load'): return self.undef(ty)
        self.alignob(st, p, al, line, 'load')
        return self.rawload(st, ty, p, line)

    def rawload(self, st, ty, p, line):
        r = p.base
        size = sizeof(self.curmod, ty)
        c = st.mem.get(r)
        if c is None and r.kind == 'arr': raise Unsupported('no content for %s' % r.name)
        if hasattr(r, 'handler'): return r.handler.load(self, st, ty, p, line)
        if isinstance(c, Arr):
            if ty[0] == 'vec': ety, n = self.res(ty[2]), ty[1]
            else: ety, n = ty, 1
            if getattr(r, 'heap', None):
                RETAG(self, st, r, sizeof(self.curmod, ety), ety[0] == 'int'); c = st.mem[r]
            idx = self.elemidx(p.off, r.es)
            if sizeof(self.curmod, ety) != r.es:
                if r.es == 1 and ety[0] == 'int' and n == 1: return self.loadbytes(st, c, p.off, size)
                if r.es == 1 and getattr(r, 'any', False): return self.undef(ty)
                raise Unsupported('type punned load from %s at line %d' % (r.name, line))
            if idx is None:
                raise Unsupported('unaligned element offset %s in %s' % (p.off, r.name))
            vals = []
            for l in range(n):
                x = simp(c.at(add(idx, IC(l))), st.facts())
                if CHAR is not None: x = CHAR(st, x)
                if ety[0] == 'int' and x.sort == R: x = app('f2bits', I, x)
                if ety[0] != 'int' and x.sort == I: x = self.bits2f(x)
                if ety[0] == 'int' and ety[1] == 8 and x.op == 'app': st.assume(and_(ge(x, IC(-128)), le(x, IC(127))))   # memory holds bytes
                vals.append(x)
            return tuple(vals) if ty[0] == 'vec' else vals[0]
        # cells
        if p.off.op != 'const':
            return self.cellsym(st, ty, p, c, line)
        off = int(p.off.args[0])
        if ty[0] == 'vec':
            es = sizeof(self.curmod, ty[2])
            return tuple(self.cellload(st, r, self.res(ty[2]), off + i * es, line) for i in range(ty[1]))
        if ty[0] in ('struct', 'pstruct'):
            offs, _ = struct_layout(self.curmod, ty)
            return Agg(self.rawload(st, self.res(t), Ptr(r, add(p.off, IC(o))), line) for o, t in zip(offs, ty[2]))
        return self.cellload(st, r, ty, off, line)

    def loadbytes(self, st, c, off, n):
        r = IC(0)
        for k in range(n):
            b = simp(c.at(add(off, IC(k))), st.facts())
            ub = ite(lt(b, IC(0)), add(b, IC(256)), b) if k < n - 1 else b
            r = add(r, tm.scale(ub, 256 ** k))
        return r

    def cellsym(self, st, ty, p, c, line):
        """symbolic offset into cell memory: case split over existing cells"""
        r = p.base
        size = sizeof(self.curmod, ty)
        if r.lazy: raise Unsupported('symbolic offset %s into lazy cells %s at line %d' % (p.off, r.name, line))
        ks = [k for k in sorted(c) if c[k][0] == size]
        if not ks: raise Unsupported('symbolic offset into %s' % r.name)
        ks = [k for k in ks if decide(st.facts(), eq(p.off, IC(k))) is not False]
        if not ks: return self.undef(ty)
        res = None
        for k in reversed(ks):
            v = self.coerce(c[k][1], ty)
            res = v if res is None else vite(eq(p.off, IC(k)), v, res)
        return res

    def cellload(self, st, r, ty, off, line):
        c = st.mem.setdefault(r, {})
        e = c.get(off)
        size = sizeof(self.curmod, ty)
        if e is None or e[0] != size:
            if e is None and not any(o < off + size and off < o + s for o, (s, _) in c.items()):
                v = self.lazyval(st, r, ty, off, line)
                c = dict(c); c[off] = (size, v); st.mem[r] = c
                return v
            return self.punload(st, r, ty, off, size, line)
        return self.coerce(e[1], ty)

    def punload(self, st, r, ty, off, size, line):
        c = st.mem[r]
        # assemble from bytes of integer cells
        if ty[0] == 'int':
            bs = []
            for k in range(size):
                for o, (s, v) in c.items():
                    if o <= off + k < o + s:
                        if not isinstance(v, T) or v.sort != I: raise Unsupported('punned load from %s+%d line %d' % (r.name, off, line))
                        u = unsigned(v, 8 * s, st)
                        bs.append(intmod(intdiv(u, IC(256 ** (off + k - o))), IC(256)))
                        break
                else: raise Unsupported('punned load (uninit) from %s+%d line %d' % (r.name, off, line))
            t = IC(0)
            for k, b in enumerate(bs): t = add(t, tm.scale(b, 256 ** k))
            w = size * 8
            return ite(lt(t, IC(2 ** (w - 1))), t, sub(t, IC(2 ** w)))
        raise Unsupported('punned load from %s+%d line %d' % (r.name, off, line))

    def lazyval(self, st, r, ty, off, line):
        if r.lazy is True or r.lazy is None:
            if r.lazy is None and not r.stack:
                pass
            key = ('lazy', r, off, ty)
            memo = self.__dict__.setdefault('lazymemo', {})
            if r.lazy is None: return self.undef(ty)
            if key not in memo:
                nm = '%s+%d' % (r.name, off)
                if ty[0] == 'int':
                    if ty[1] == 1: v = var(nm, B)
                    else:
                        v = var(nm, I); RANGES[v] = (Fraction(-2 ** (ty[1] - 1)), Fraction(2 ** (ty[1] - 1) - 1))
                        self.rangefact(v)
                elif ty[0] in ('float', 'double'): v = var(nm, R)
                elif ty[0] == 'ptr':
                    v = self.lazyptr(st, r, off, nm)
                else: raise Unsupported('lazy value of type %s' % (ty,))
                memo[key] = v
            return memo[key]
        return r.lazy(self, st, r, ty, off, line)

    def lazyptr(self, st, r, off, nm):
        return Ptr(None, var(nm + '_p', I))

    def rangefact(self, v): pass

    def coerce(self, v, ty):
        if isinstance(v, T):
            if ty[0] in ('float', 'double') and v.sort == I: return self.bits2f(v)
            if ty[0] == 'int' and v.sort == R: return app('f2bits', I, v)
            if ty[0] == 'ptr' and v.sort == I:
                if v.op == 'const' and v.args[0] == 0: return NULL
                return Ptr(None, v)
            if ty[0] == 'int' and ty[1] == 1 and v.sort == I: return ne(v, IC(0))
        if isptr(v) and ty[0] == 'int': return self.ptrint(v)
        return v

    def bits2f(self, x):
        import intrinsics
        return intrinsics.bits2f(x)

    def store(self, st, ty, v, p, al, line):
        ty = self.res(ty)
        if isinstance(p, PIte):
            la = [(c, q) for c, q in alts(p)]
            la = [(c, q) for c, q in la if not infeasible(st.facts() + [c])]
            if len(la) == 1: return self.store(st, ty, v, la[0][1], al, line)
            for c, q in la:
                if hasattr(q.base, 'handler'): raise Unsupported('store through a conditional pointer into %s' % q.base.name)
                s2 = st.fork(); s2.assume(c)
                old = st.mem.get(q.base)
                self.store(s2, ty, v, q, al, line)
                if q.base is None or isinstance(q.base, Fn): continue
                st.mem[q.base] = self.mergecontent(c, s2.mem[q.base], old if old is not None else {}, q.base)
            return
        if not isinstance(p, Ptr): raise Unsupported('store through non pointer')
        size = sizeof(self.curmod, ty)
        if not self.bounds(st, p, size, line, 'store'): return
        self.alignob(st, p, al, line, 'store')
        r = p.base
        if not r.writable: self.oblige(st, line, 'write', FALSE, 'store to read-only %s' % r.name)
        if hasattr(r, 'handler'): return r.handler.store(self, st, ty, v, p, line)
        c = st.mem.get(r)
        if isinstance(c, Arr):
            if getattr(r, 'heap', None):
                t1 = self.res(ty[2]) if ty[0] == 'vec' else ty
                RETAG(self, st, r, sizeof(self.curmod, t1), t1[0] == 'int'); c = st.mem[r]
            idx = self.elemidx(p.off, r.es)
            if idx is None: raise Unsupported('unaligned element store to %s' % r.name)
            if ty[0] == 'vec': vals, es = list(v), sizeof(self.curmod, ty[2])
            else: vals, es = [v], size
            if es != r.es and r.es == 1 and ty[0] == 'int':
                u = unsigned(v, 8 * es, st); vals = []
                for k in range(es):
                    x = intdiv(u, IC(256 ** k)); x = intmod(x, IC(256)) if k < es - 1 else x
                    vals.append(ite(lt(x, IC(128)), x, sub(x, IC(256))))
                es = 1
            if es != r.es:
                raise Unsupported('type punned store to %s line %d' % (r.name, line))
            vals = [self.coercestore(x, r) for x in vals]
            st.mem[r] = self.arrstore(c, idx, vals)
            return
        c = dict(c or {})
        if p.off.op != 'const':
            ks = [k for k in sorted(c) if c[k][0] == size]
            if r.lazy or not ks: raise Unsupported('symbolic store into cells %s line %d' % (r.name, line))
            for k in ks:
                d = decide(st.facts(), eq(p.off, IC(k)))
                if d is False: continue
                c[k] = (size, v if d else vite(eq(p.off, IC(k)), v, c[k][1]))
            st.mem[r] = c
            return
        off = int(p.off.args[0])
        def put(o, t, x):
            t = self.res(t)
            if t[0] in ('struct', 'pstruct', 'arr'):
                cc = {}
                self.fill(cc, o, t, x)
                for k, e in cc.items(): put1(k, e)
            elif t[0] == 'vec':
                es = sizeof(self.curmod, t[2])
                for i, y in enumerate(x): put1(o + i * es, (es, y))
            else: put1(o, (sizeof(self.curmod, t), x))
        def put1(o, e):
            for k in [k for k, (s, _) in c.items() if k < o + e[0] and o < k + s and k != o or (k == o and s != e[0])]:
                if self.punstore(c, k, o, e): return
                del c[k]
            c[o] = e
        put(off, ty, v)
        st.mem[r] = c

    def punstore(self, c, k, o, e): return False

    def coercestore(self, x, r):
        if isinstance(x, T):
            if r.sort == R and x.sort == I: return self.bits2f(x)
            if r.sort == I and x.sort == R: return app('f2bits', I, x)
            if r.sort == I and x.sort == B: return ite(x, IC(1), IC(0))
            return x
        raise Unsupported('storing a pointer into numeric array %s' % r.name)

    def arrstore(self, c, idx, vals):
        v = c.v
        n = len(vals)
        if n == 1:
            return Arr(v, ite(eq(v, idx), vals[0], c.body))
        g = unify_lanes(vals, v, idx)
        if g is not None:
            return Arr(v, ite(window(v, idx, add(idx, IC(n))), g, c.body))
        b = c.body
        for l in range(n): b = ite(eq(v, add(idx, IC(l))), vals[l], b)
        return Arr(v, b)

    def mergecontent(self, c, a, b, r):
        if a is b: return a
        if isinstance(a, Arr):
            if a.v is not b.v: b = Arr(a.v, subst(b.body, {b.v: a.v}))
            if a.body is b.body: return a
            if a.body.sort != b.body.sort:
                a, b = [x if x.body.sort == r.sort else Arr(x.v, RESORT(x.body, r)) for x in (a, b)]
            return Arr(a.v, ite(c, a.body, b.body))
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                if veq(a[k][1], b[k][1]): out[k] = a[k]
                elif a[k][0] != b[k][0]: continue
                else:
                    out[k] = (a[k][0], vite(c, a[k][1], b[k][1]))
            elif getattr(r, 'heap', None):         # never written on one side: undefined there
                sz, v = a.get(k) or b.get(k)
                if isinstance(v, tuple): continue
                u = fresh('undef', v.sort) if isinstance(v, T) else Ptr(None, fresh('undefp', I))
                out[k] = (sz, vite(c, v, u) if k in a else vite(c, u, v))
            elif r.lazy:
                out[k] = a.get(k) or b.get(k)
                # value absent on one side = untouched lazy value there
                other = b if k in a else a
                memo = self.__dict__.get('lazymemo', {})
                for (tag, rr, off, ty), lv in memo.items():
                    if rr is r and off == k:
                        x = a[k][1] if k in a else lv
                        y = b[k][1] if k in b else lv
                        out[k] = (out[k][0], vite(c, x, y)); break
        return out

    # ---------------- pointers
    def ptrint(self, p):
        if isinstance(p, PIte):
            r = None
            for c, q in reversed(alts(p)):
                x = self.ptrint(q); r = x if r is None else ite(c, x, r)
            return r
        if p.base is None: return p.off
        if isinstance(p.base, Fn): return add(var('fnaddr_' + p.base.name, I), p.off)
        return add(p.base.addr, p.off)

    def gep(self, st, bt, ops):
        p = ops[0][1]
        if isinstance(p, PIte):
            return PIte([(c, self.gep(st, bt, [(ops[0][0], q)] + ops[1:])) for c, q in p.alts])
        if not isinstance(p, Ptr): raise Unsupported('gep on non pointer')
        off = p.off
        t = bt
        for i, (it, iv) in enumerate(ops[1:]):
            if i == 0:
                off = add(off, mul(iv, IC(sizeof(self.curmod, t))))
            else:
                t = self.res(t)
                if t[0] in ('struct', 'pstruct'):
                    k = int(cval(iv)); offs, _ = struct_layout(self.curmod, t)
                    off = add(off, IC(offs[k])); t = t[2][k]
                elif t[0] in ('arr', 'vec'):
                    t = t[2]; off = add(off, mul(iv, IC(sizeof(self.curmod, t))))
                else: raise Unsupported('gep type')
        return Ptr(p.base, off)

    def ptrcmp(self, st, pred, a, b):
        res = None
        out = FALSE
        for ca, pa in alts(a):
            for cb, pb in alts(b):
                c = and_(ca, cb)
                if c is FALSE: continue
                if pred in ('eq', 'ne') and isinstance(pa.base, Fn) and isinstance(pb.base, Fn) and (pa.base.opaque or pb.base.opaque) and not (pa.base is pb.base and pa.off is pb.off):
                    # functions of unknown identity: two names may stand for one function
                    x = eq(app('fncode_' + pa.base.name, I, pa.off), app('fncode_' + pb.base.name, I, pb.off))
                    r = x if pred == 'eq' else not_(x)
                elif pa.base is pb.base:
                    if pred == 'eq': r = eq(pa.off, pb.off)
                    elif pred == 'ne': r = ne(pa.off, pb.off)
                    else:
                        r = {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge, 'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](pa.off, pb.off)
                elif pred in ('eq', 'ne') and (getattr(pa.base, 'nullat', None) is not None and pb is NULL or getattr(pb.base, 'nullat', None) is not None and pa is NULL):
                    u = pa if pb is NULL else pb
                    r = (eq if pred == 'eq' else ne)(u.off, u.base.nullat)
                elif pred in ('eq', 'ne'):
                    x = FALSE
                    # distinct objects differ; an unknown integer address may equal anything but objects/functions never are null
                    for u, w in ((pa, pb), (pb, pa)):
                        if u.base is None and not (u.off.op == 'const'):
                            x = eq(self.ptrint(pa), self.ptrint(pb)); break
                    r = x if pred == 'eq' else not_(x)
                else: raise Unsupported('ordering of unrelated pointers')
                out = or_(out, and_(c, r))
        return out

    # ---------------- casts / arithmetic
    def wrap(self, st, t, w):
        lo, hi = interval(t)
        L, H = -2 ** (w - 1), 2 ** (w - 1) - 1
        if lo is not None and hi is not None and lo >= L and hi <= H: return t
        if prove(st.facts(), and_(ge(t, IC(L)), le(t, IC(H))), 2000): return t
        return sub(intmod(add(t, IC(2 ** (w - 1))), IC(2 ** w)), IC(2 ** (w - 1)))

    def cast(self, st, op, x, ft, tt, line):
        ft, tt = self.res(ft), self.res(tt)
        if isinstance(x, tuple) and ft[0] == 'vec' and tt[0] == 'vec' and (op != 'bitcast' or ft[1] == tt[1]):
            return tuple(self.cast(st, op, y, ft[2], tt[2], line) for y in x)
        if op == 'sext':
            if x.sort == B: return ite(x, IC(-1), IC(0))
            return x
        if op == 'zext':
            if x.sort == B: return ite(x, IC(1), IC(0))
            if tm.constree(x): return tm.maptree(x, lambda k: IC(int(k.args[0]) % 2 ** ft[1]))
            return unsigned(x, ft[1], st)
        if op == 'trunc':
            if isptr(x): x = self.ptrint(x)
            if tt[1] == 1:
                if x.op == 'ite' and isconst(x.args[1]) and isconst(x.args[2]):
                    return ite(x.args[0], const(int(cval(x.args[1])) & 1, B), const(int(cval(x.args[2])) & 1, B))
                return ne(intmod(x, IC(2)), IC(0))
            return self.wrap(st, x, tt[1])
        if op == 'ptrtoint': return self.wrap(st, self.ptrint(x), tt[1]) if tt[1] < 64 else self.ptrint(x)
        if op == 'inttoptr':
            if isconst(x) and cval(x) == 0: return NULL
            return Ptr(None, x)
        if op == 'sitofp': return toR(x) if x.sort == I else ite(x, RC(-1), RC(0))
        if op == 'uitofp':
            if x.sort == B: return ite(x, RC(1), RC(0))
            return toR(unsigned(x, ft[1], st))
        if op in ('fptosi', 'fptoui'):
            z = app('trunc_', I, x) if x.op != 'const' else IC(int(x.args[0]))
            return z
        if op in ('fpext', 'fptrunc'): return x
        if op == 'bitcast':
            if ft == tt: return x
            if isptr(x): return x
            if ft[0] == 'vec' or tt[0] == 'vec':
                return self.vbitcast(st, x, ft, tt)
            if ft[0] == 'int' and tt[0] in ('float', 'double'): return self.bits2f(x)
            if tt[0] == 'int' and ft[0] in ('float', 'double'):
                if x.op == 'app' and x.args[0] == 'bits2f': return x.args[1]
                return app('f2bits', I, x)
        raise Unsupported('cast %s %s -> %s' % (op, ft, tt))

    def vbitcast(self, st, x, ft, tt):
        import intrinsics
        return intrinsics.vbitcast(self, st, x, ft, tt)

    def binop(self, st, op, ty, a, b, flags, line):
        ty = self.res(ty)
        if isinstance(a, tuple):
            return tuple(self.binop(st, op, ty[2], x, y, flags, line) for x, y in zip(a, b))
        if op == 'fadd': return add(a, b)
        if op == 'fsub': return sub(a, b)
        if op == 'fmul': return mul(a, b)
        if op == 'fdiv': return rdiv(a, b)
        if op == 'frem': return app('fmod', R, a, b)
        w = ty[1]
        if w == 1:
            if op in ('and', 'mul'): return and_(a, b)
            if op == 'or': return or_(a, b)
            if op in ('xor', 'add', 'sub'): return not_(eq(a, b))
            raise Unsupported('i1 ' + op)
        if isptr(a): a = self.ptrint(a)
        if isptr(b): b = self.ptrint(b)
        L, H = -2 ** (w - 1), 2 ** (w - 1) - 1
        if op in ('add', 'sub', 'mul'):
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            lo, hi = interval(r)
            if lo is not None and hi is not None and lo >= L and hi <= H: return r
            if 'nsw' in flags:
                self.oblige(st, line, 'overflow', and_(ge(r, IC(L)), le(r, IC(H))), '%s i%d' % (op, w))
                return r
            if prove(st.facts(), and_(ge(r, IC(L)), le(r, IC(H))), 2000): return r
            return self.wrapunsigned(st, op, r, a, b, w, line)
        if op == 'shl':
            if isconst(b):
                r = mul(a, IC(2 ** int(cval(b))))
                return self.wrap(st, r, w)
        if op in ('udiv', 'urem', 'lshr', 'sdiv', 'srem', 'ashr'):
            if op in ('lshr', 'ashr') and isconst(b): d = IC(2 ** int(cval(b)))
            else: d = b
            if op in ('udiv', 'urem', 'lshr'):
                if op != 'lshr': self.oblige(st, line, 'div', ne(d, IC(0)), 'division by zero')
                ua, ud = unsigned(a, w, st), unsigned(d, w, st)
                r = intdiv(ua, ud) if op != 'urem' else intmod(ua, ud)
                return self.resigned(st, r, w)
            if op == 'ashr': return intdiv(a, d)
            self.oblige(st, line, 'div', ne(d, IC(0)), 'division by zero')
            if prove(st.facts(), and_(ge(a, IC(0)), gt(d, IC(0))), 2000):
                return intdiv(a, d) if op == 'sdiv' else intmod(a, d)
            if isconst(d) and cval(d) > 0:
                q = ite(ge(a, IC(0)), intdiv(a, d), neg(intdiv(neg(a), d)))
                return q if op == 'sdiv' else sub(a, mul(q, d))
            return app(op, I, a, d)
        if op in ('and', 'or', 'xor'):
            import intrinsics
            if tm.constree(a) and isconst(b) and a.sort == I: return tm.maptree(a, lambda k: intrinsics.bitop(self, st, op, k, b, w))
            return intrinsics.bitop(self, st, op, a, b, w)
        raise Unsupported('binop %s' % op)

    def wrapunsigned(self, st, op, r, a, b, w, line):
        return sub(intmod(add(r, IC(2 ** (w - 1))), IC(2 ** w)), IC(2 ** (w - 1)))

    def resigned(self, st, r, w):
        lo, hi = interval(r)
        H = 2 ** (w - 1) - 1
        if hi is not None and hi <= H: return r
        if prove(st.facts(), le(r, IC(H)), 2000): return r
        return ite(le(r, IC(H)), r, sub(r, IC(2 ** w)))

    def icmp(self, st, pred, ty, a, b):
        ty = self.res(ty)
        if isinstance(a, tuple): return tuple(self.icmp(st, pred, ty[2], x, y) for x, y in zip(a, b))
        if isptr(a) or isptr(b):
            if isptr(a) and isptr(b): return self.ptrcmp(st, pred, a, b)
            a = self.ptrint(a) if isptr(a) else a
            b = self.ptrint(b) if isptr(b) else b
        if a.sort == B:
            if pred == 'eq': return eq(a, b)
            if pred == 'ne': return not_(eq(a, b))
            a, b = ite(a, IC(1), IC(0)), ite(b, IC(1), IC(0))
        if pred == 'eq': return self.cmpite(eq, a, b)
        if pred == 'ne': return not_(self.cmpite(eq, a, b))
        if pred[0] == 'u':
            w = ty[1] if ty[0] == 'int' else 64
            if isconst(b) and a.sort == I and not isconst(a) and (pred, int(cval(b))) in (('ugt', 0), ('ule', 0), ('ult', 1), ('uge', 1)) and (interval(a)[0] is None or interval(a)[0] < 0) and not prove(st.facts(), ge(a, IC(0)), 1000, nl=False):
                e = self.cmpite(eq, a, IC(0))
                return e if pred in ('ule', 'ult') else not_(e)
            a, b = unsigned(a, w, st), unsigned(b, w, st)
        f = {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]]
        return self.cmpite(f, a, b)

    def cmpite(self, f, a, b):
        if isconst(b) and tm.constree(a): return tm.maptree(a, lambda k: f(k, b))
        return f(a, b)

    def fcmp(self, pred, a, b):
        if isinstance(a, tuple): return tuple(self.fcmp(pred, x, y) for x, y in zip(a, b))
        if pred == 'ord': return TRUE
        if pred == 'uno': return FALSE
        p = pred[1:]
        f = {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p]
        return f(a, b)

    # ---------------- merging
    def merge(self, states):
        if len(states) == 1: return states[0], [TRUE]
        n = min(len(s.pc) for s in states)
        k = 0
        while k < n and all(s.pc[k] == states[0].pc[k] for s in states): k += 1
        guards, auxs = [], []
        for s in states:
            g = [t for t, b in s.pc[k:] if b]
            x = [t for t, b in s.pc[k:] if not b]
            guards.append(and_(*g)); auxs.append(x)
        out = State()
        out.pc = list(states[0].pc[:k])
        o = or_(*guards)
        if o is not TRUE: out.assume(o, True)
        common = set(auxs[0])
        for x in auxs[1:]: common &= set(x)
        for t in auxs[0]:
            if t in common: out.assume(t)
        for g, x in zip(guards, auxs):
            for t in x:
                if t not in common: out.assume(implies(g, t))
        # guards for ite: simplified
        out.env = {}
        for s in reversed(states): out.env.update(s.env)
        regs = []
        for s in states:
            for r in s.mem:
                if r not in regs: regs.append(r)
        for r in regs:
            cs = [s.mem.get(r) for s in states]
            if any(c is None for c in cs):
                have = [c for c in cs if c is not None]
                if isinstance(have[0], dict):
                    cs = [c if c is not None else {} for c in cs]
                    if not r.lazy: cs = [c if c else have[0] for c in cs]
                else:
                    # region allocated on some paths only
                    cs = [c if c is not None else have[0] for c in cs]
            acc = cs[-1]
            for c, g in zip(reversed(cs[:-1]), reversed(guards[:-1])):
                acc = self.mergecontent(g, c, acc, r)
            out.mem[r] = acc
        for key in set().union(*[set(s.ghost) for s in states]):
            vs = [s.ghost.get(key) for s in states]
            if all(v is vs[0] or v == vs[0] for v in vs): out.ghost[key] = vs[0]
            else:
                out.ghost[key] = self.mergeghost(key, guards, vs)
        return out, guards

    def mergeghost(self, key, guards, vs):
        if isinstance(key, tuple): vs = [IC(0) if v is None else v for v in vs]
        if key == 'freed':
            r = set()
            for v in vs: r |= set(v or ())
            return frozenset(r)
        if key == 'live':
            r = set()
            for v in vs: r |= set(v or ())
            return frozenset(r)
        if all(isinstance(v, T) for v in vs):
            acc = vs[-1]
            for v, g in zip(reversed(vs[:-1]), reversed(guards[:-1])): acc = ite(g, v, acc)
            return acc
        raise Unsupported('cannot merge ghost ' + str(key))

    # ---------------- functions
    def call_function(self, f, module, args, st, line=0, several=False):
        """inline execution; returns (ret, state) or (None,None) if it never returns"""
        if len(self.fnstack) > 24: raise Unsupported('call depth')
        if sum(1 for g in self.fnstack if g is f) >= 2: raise Unsupported('recursion in ' + f.name)
        analyse(f)
        oldmod = getattr(self, 'curmod', None)
        self.curmod = module
        self.fnstack.append(f)
        env0 = st.env
        s = st.fork(); s.env = {}
        for (t, nm, byval), a in zip(f.params, args):
            if t == ('int', 1) and getattr(a, 'sort', None) == 'I': a = ne(a, lift(0, 'I'))   # a truth value given as a number
            s.env[nm] = a
        if f.vararg: s.env['%va!'] = list(args[len(f.params):])
        try:
            latches, exits, rets = self.region(f, None, [(None, s)])
        finally:
            self.fnstack.pop(); self.curmod = oldmod
        if several: return [(x, v) for x, v in rets if not infeasible(x.facts())]
        if not rets: return None, None
        if getattr(self, 'split_tails', False) and len(self.fnstack) == 0:
            for x, v in rets: x.env = env0
            self.rets = rets; return rets[0][1], rets[0][0]
        out, guards = self.merge([x for x, v in rets])
        rv = None
        vals = [v for x, v in rets]
        if vals[0] is not None:
            rv = vals[-1]
            for v, g in zip(reversed(vals[:-1]), reversed(guards[:-1])): rv = vite(g, v, rv)
        out = out.fork() if len(rets) == 1 else out
        # stack regions die
        out.env = env0
        return rv, out

    def region(self, f, loop, entry, start=None):
        """execute blocks of loop (or whole function); entry = [(pred,state)] for the entry block"""
        if loop:
            self.inloop += 1
            try: return self._region(f, loop, entry, start)
            finally: self.inloop -= 1
        return self._region(f, loop, entry, start)
    inloop = 0
    def _region(self, f, loop, entry, start=None):
        blocks = loop.blocks if loop else set(f.rpo)
        children = {L.header: L for L in (loop.children if loop else f.top)}
        inner = set()
        for L in children.values(): inner |= (L.blocks - {L.header})
        start = loop.header if loop else start or f.entry
        incoming = {start: list(entry)}
        latches, exits, rets = [], [], []
        def route(frm, to, s):
            if loop and to == loop.header: latches.append((frm, s))
            elif to not in blocks: exits.append((frm, to, s))
            else: incoming.setdefault(to, []).append((frm, s))
        for bn in f.rpo:
            if bn not in blocks or bn in inner or bn not in incoming: continue
            inc = incoming.pop(bn)
            if len(inc) > 1 and loop is None and len(self.fnstack) <= getattr(self, 'split_all', 0):
                # the states of different paths are not merged in the function under contract
                for x in inc: rets += self.region(f, None, [x], bn)[2]
                continue
            if bn in children and not (loop and bn == loop.header):
                for frm, to, s in self.do_loop(f, children[bn], inc, rets): route(frm, to, s)
                continue
            if loop and bn == loop.header:
                s = inc[0][1]        # phis already bound by the caller
                self.block(f, bn, s, route, rets, skipphi=True)
                continue
            if getattr(self, 'split_tails', False) and loop is None and len(inc) > 1 and self.tail(f, bn):
                for x in inc: self.block(f, bn, self.enter(f, bn, [x]), route, rets)
                continue
            s = self.enter(f, bn, inc)
            if s is None: continue
            self.block(f, bn, s, route, rets)
        return latches, exits, rets

    def tail(self, f, bn):
        """few blocks without a loop up to the return"""
        seen, st = set(), [bn]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if len(seen) > 4 or any(x in L.blocks for L in f.top): return False
            for it in f.blocks[x].ins:
                if it.op == 'br': st += [it.x[1]] if it.x[0] is None else [it.x[1], it.x[2]]
                elif it.op == 'switch': return False
        return True

    def enter(self, f, bn, inc):
        b = f.blocks[bn]
        phis = [it for it in b.ins if it.op == 'phi']
        if len(inc) == 1 and inc[0][0] is None: return inc[0][1]
        vals = []
        for pred, s in inc:
            row = {}
            for it in phis:
                for v, bl in it.ops:
                    if bl == pred: row[it.res] = self.const(s, it.ty, v, f); break
                else: raise Unsupported('phi without edge')
            vals.append(row)
        if len(inc) == 1:
            s = inc[0][1]
            s.env.update(vals[0]); return s
        out, guards = self.merge([s for _, s in inc])
        for it in phis:
            acc = vals[-1][it.res]
            for row, g in zip(reversed(vals[:-1]), reversed(guards[:-1])):
                acc = vite(g, row[it.res], acc)
            out.env[it.res] = acc
        return out

    def block(self, f, bn, s, route, rets, skipphi=False, first=0):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
        b = f.blocks[bn]
        for pos, it in enumerate(b.ins):
            op = it.op
            if op == 'phi' or pos < first: continue
            if op == 'br':
                if it.x[0] is None:
                    route(bn, it.x[1], s); return
                c = self.const(s, it.x[0][0], it.x[0][1], f)
                self.branch(s, c, bn, it.x[1], it.x[2], route); return
            if op == 'switch':
                v = self.const(s, it.x[0][0], it.x[0][1], f)
                rest = s
                for cv, to in it.x[2]:
                    c = eq(v, IC(cv))
                    d = decide(rest.facts(), c)
                    if d is False: continue
                    if d is True:
                        route(bn, to, rest); return
                    s2 = rest.fork(); s2.assume(c, True); route(bn, to, s2)
                    rest = rest.fork(); rest.assume(not_(c), True)
                if not infeasible(rest.facts()): route(bn, it.x[1], rest)
                return
            if op == 'ret':
                rv = self.const(s, it.ops[0][0], it.ops[0][1], f) if it.ops else None
                rets.append((s, rv)); return
            if op == 'unreachable':
                return
            s = self.instr(f, it, s)
            if s is None: return
            if isinstance(s, list):          # several outcomes of a call
                for x in s: self.block(f, bn, x, route, rets, first=pos + 1)
                return

    def branch(self, s, c, bn, a, b, route):
        d = decide(s.facts(), c)
        if d is True: route(bn, a, s); return
        if d is False: route(bn, b, s); return
        s2 = s.fork()
        s2.assume(c, True); route(bn, a, s2)
        s.assume(not_(c), True); route(bn, b, s)

    # ---------------- instructions
    def instr(self, f, it, st):
        op = it.op
        env = st.env
        def val(i): return self.const(st, it.ops[i][0], it.ops[i][1], f)
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            env[it.res] = self.binop(st, op, it.ty, val(0), val(1), it.x, it.line)
        elif op == 'fneg':
            v = val(0); env[it.res] = tuple(neg(x) for x in v) if isinstance(v, tuple) else neg(v)
        elif op == 'icmp': env[it.res] = self.icmp(st, it.x, it.ops[0][0], val(0), val(1))
        elif op == 'fcmp': env[it.res] = self.fcmp(it.x, val(0), val(1))
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            env[it.res] = self.cast(st, op, val(0), it.ops[0][0], it.ty, it.line)
        elif op == 'getelementptr':
            env[it.res] = self.gep(st, it.x, [(t, self.const(st, t, v, f)) for t, v in it.ops])
        elif op == 'load': env[it.res] = self.load(st, it.ty, val(0), it.x, it.line)
        elif op == 'store': self.store(st, it.ty, val(0), val(1), it.x, it.line)
        elif op == 'alloca':
            t, (nt, nv), al = it.x
            n = self.const(st, nt, nv, f)
            self.vla = nv[0] != 'i'
            env[it.res] = self.alloca(st, f, it, t, n, al)
        elif op == 'select':
            c = val(0)
            if isinstance(c, tuple): env[it.res] = tuple(vite(x, y, z) for x, y, z in zip(c, val(1), val(2)))
            else: env[it.res] = vite(c, val(1), val(2))
        elif op == 'insertelement':
            v = list(val(0)); v[int(cval(val(2)))] = val(1); env[it.res] = tuple(v)
        elif op == 'extractelement':
            env[it.res] = val(0)[int(cval(val(1)))]
        elif op == 'shufflevector':
            a, b = val(0), val(1); m = self.const(st, it.ops[2][0], it.ops[2][1], f)
            ab = list(a) + list(b)
            out = []
            for x in m:
                if isconst(x): out.append(ab[int(cval(x))])
                else: out.append(self.undef(it.ops[0][0][2]))
            env[it.res] = tuple(out)
        elif op == 'extractvalue':
            v = val(0)
            for k in it.x: v = v[k]
            env[it.res] = v
        elif op == 'insertvalue':
            def ins(a, idx, x):
                a = Agg(a)
                a[idx[0]] = x if len(idx) == 1 else ins(a[idx[0]], idx[1:], x)
                return a
            env[it.res] = ins(val(0), it.x, val(1))
        elif op == 'freeze': env[it.res] = val(0)
        elif op == 'call': return self.call(f, it, st)
        elif op == 'asm': pass
        else: raise Unsupported('instruction ' + it.txt[:80])
        return st

    def alloca(self, st, f, it, t, n, al):
        t = self.res(t)
        nm = '%s.%s.%d' % (f.name, (it.res or '').strip('%'), Region.n)
        es = sizeof(self.curmod, t)
        if self.vla and t[0] in ('float', 'double', 'int'): pass
        elif isconst(n) and (cval(n) == 1) and t[0] != 'arr' or (isconst(n) and t[0] == 'ptr') or (t[0] in ('struct', 'pstruct')):
            if isconst(n) and t[0] in ('int', 'float', 'double') and cval(n) > 1: pass
            else:
                r = Region(nm, 'cells', IC(es * int(cval(n))), align=al, stack=True)
                st.mem[r] = {}
                return Ptr(r, 0)
        if t[0] == 'arr':
            et = self.res(t[2])
            if et[0] in ('float', 'int', 'double') and isconst(n):
                cnt = IC(t[1] * int(cval(n)))
                t, n = et, cnt; es = sizeof(self.curmod, t)
            else:
                r = Region(nm, 'cells', IC(es * int(cval(n))), align=al, stack=True)
                st.mem[r] = {}
                return Ptr(r, 0)
        if t[0] in ('float', 'double', 'int'):
            # variable length array
            self.oblige(st, it.line, 'bounds', ge(n, IC(0)), 'VLA size non-negative')
            r = Region(nm, 'arr', mul(n, IC(es)), es=es, sort=I if t[0] == 'int' else R, align=al, stack=True)
            st.assume(eq(intmod(r.addr, IC(max(al, 1))), IC(0)))
            v = fresh('r', I)
            st.mem[r] = Arr(v, app('uninit_' + nm, r.sort, v))
            return Ptr(r, 0)
        return self.alloca_ptrarray(st, f, it, t, n, al, nm, es)

    ptrarray = None
    def alloca_ptrarray(self, st, f, it, t, n, al, nm, es):
        if self.ptrarray is not None and t[0] == 'ptr':
            self.oblige(st, it.line, 'bounds', ge(n, IC(0)), 'VLA size non-negative')
            return self.ptrarray(st, nm, n)
        raise Unsupported('alloca of %s with symbolic count in %s' % (t, f.name))

    # ---------------- calls
    def call(self, f, it, st):
        callee = it.x
        args = []
        for t, v, byval in it.ops:
            a = self.const(st, t, v, f)
            args.append(a)
        if callee[0] == 'glob':
            return self.callnamed(f, it, st, callee[1], args, self.curmod)
        fp = self.const(st, ('ptr',), callee, f)
        la = [(c, p) for c, p in alts(fp)]
        la = [(c, p) for c, p in la if c is TRUE or not infeasible(st.facts() + [c])]
        outs = []
        for c, p in la:
            s = st if len(la) == 1 else st.fork()
            if c is not TRUE: s.assume(c, True)
            if isinstance(p.base, Fn):
                self.callee_index = p.off
                s2 = self.callnamed(f, it, s, p.base.name, args, p.base.module)
            elif p.base is None and isconst(p.off):
                self.oblige(s, it.line, 'null', FALSE, 'call through null function pointer'); s2 = None
            else:
                s2 = self.callunknown(f, it, s, p, args)
            if s2 is not None: outs.append(s2)
        return self.join_outs(it, outs)

    def join_outs(self, it, outs):
        if not outs: return None
        if len(outs) == 1: return outs[0]
        out, guards = self.merge(outs)
        if it.res:
            acc = outs[-1].env[it.res]
            for s, g in zip(reversed(outs[:-1]), reversed(guards[:-1])): acc = vite(g, s.env[it.res], acc)
            out.env[it.res] = acc
        return out

    def callunknown(self, f, it, st, p, args):
        self.oblige(st, it.line, 'call', FALSE, 'call through unknown function pointer %s' % (p,))
        raise Unsupported('call through unknown pointer at line %d' % it.line)

    def callnamed(self, f, it, st, name, args, module):
        name = name.strip('"')
        self.argtypes = [t for t, v, b in it.ops]
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            for i, a in enumerate(args):
                if isinstance(a, PIte): break
            else: return c(self, f, it, st, args)
            return self.fork_args(f, it, st, c, args, i)
        b = self.builtins.get(name)
        if b is None and name.startswith('llvm.'):
            for k, h in self.builtin_prefix:
                if name.startswith(k): b = h; break
        if b is not None:
            self.externals.add(name)
            r = b(self, it, st, name, args)
            if r == 'noreturn': return None
            if it.res is not None: st.env[it.res] = r
            return st
        g, m = self.find(name, module)
        if g is not None:
            self.inlined.add(name)
            if len(self.fnstack) < getattr(self, 'split_all', 0) and not self.inloop:
                out = []
                for s2, rv in self.call_function(g, m, args, st, it.line, True):
                    s2.env = dict(st.env)
                    if it.res is not None: s2.env[it.res] = rv
                    out.append(s2)
                return out
            rv, s2 = self.call_function(g, m, args, st, it.line)
            if s2 is None: return None
            # keep the caller's environment
            s2.env = st.env
            if it.res is not None: s2.env[it.res] = rv
            return s2
        raise Unsupported('call to %s without body or contract (line %d)' % (name, it.line))

    def fork_args(self, f, it, st, c, args, i):
        """a contract applied to a conditional pointer: once for each alternative that is possible here"""
        while i < len(args) and not isinstance(args[i], PIte): i += 1
        if i == len(args): return c(self, f, it, st, args)
        la = [(g, p) for g, p in alts(args[i]) if g is TRUE or not infeasible(st.facts() + [g])]
        outs = []
        for g, p in la:
            s = st if len(la) == 1 else st.fork()
            if g is not TRUE: s.assume(g, True)
            s2 = self.fork_args(f, it, s, c, args[:i] + [p] + args[i + 1:], i + 1)
            if s2 is not None: outs.append(s2)
        return self.join_outs(it, outs)

    # ---------------- loops
    def do_loop(self, f, L, inc, rets):
        import loops
        return loops.do_loop(self, f, L, inc, rets)

READERS = {'memcmp', 'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'strcpy', 'printf', 'fprintf', 'puts', 'fputs', 'bcmp', 'fwrite'}
def readonly_statics(m):
    """static variables of the translation unit whose address only flows into loads, comparisons,
    copy sources and read-only library arguments"""
    r = getattr(m, '_readonly', None)
    if r is not None: return r
    import re
    cand = {nm for nm, g in m.globals.items() if g['internal'] and not g['const'] and not g['ext']}
    pat = re.compile(r'@"?([-a-zA-Z$._0-9]+)')
    for f in m.funcs.values():
        taint = {}                     # local value -> globals it may point into
        its = [it for b in f.blocks.values() for it in b.ins]
        if not any(x in cand for it in its for x in pat.findall(it.txt)): continue
        loc = re.compile(r'%[-a-zA-Z$._0-9]+')
        for rnd in range(8):
            n0 = sum(map(len, taint.values()))
            for it in its:
                src = {x for x in pat.findall(it.txt) if x in cand}
                body = it.txt.split(' = ', 1)[-1] if it.res else it.txt
                for l in loc.findall(body): src |= taint.get(l, set())
                if not src: continue
                if it.op in ('getelementptr', 'phi', 'select', 'bitcast'): taint.setdefault(resname(it), set()).update(src)
            if sum(map(len, taint.values())) == n0: break
        for it in its:
            def of(o):
                x = o[1]
                if isinstance(x, tuple) and x[0] == 'glob': return {x[1].strip('"')} & cand
                if isinstance(x, tuple) and x[0] == 'loc': return taint.get(x[1] if x[1].startswith('%') else '%' + x[1], set())
                return {y for y in pat.findall(repr(x).replace("'", '@')) if y in cand}
            src = {x for x in pat.findall(it.txt) if x in cand}
            body = it.txt.split(' = ', 1)[-1] if it.res else it.txt
            for l in loc.findall(body): src |= taint.get(l, set())
            if not src or it.op in ('load', 'icmp', 'getelementptr', 'phi', 'select', 'bitcast'): continue
            if it.op == 'call' and it.x and it.x[0] == 'glob':
                nm = it.x[1].strip('"')
                if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove') or nm in ('memcpy', 'memmove', 'strcpy'):
                    if not (of(it.ops[0]) & src): continue
                elif nm in READERS: continue
            cand -= src
    for nm, g in m.globals.items():
        for x in re.findall(r"'glob', '([^']*)'", repr(g['init'])): cand.discard(x)
    m._readonly = cand
    return cand
def resname(it): return it.res if it.res.startswith('%') else '%' + it.res

# ---------------------------------------------------------------- helpers
def window(v, lo, hi): return and_(ge(v, lo), lt(v, hi))

def unify_lanes(vals, v, idx):
    """g(v) with g(idx+l) == vals[l]"""
    n = len(vals)
    a, b = vals[0], vals[1]
    try: g = _anti(a, b, v, idx)
    except _NoUnify: return None
    for l in range(n):
        if subst(g, {v: add(idx, IC(l))}) is not vals[l]: return None
    return g

class _NoUnify(Exception): pass
def _anti(a, b, v, idx):
    if a is b: return a
    if a.op == b.op == 'var': raise _NoUnify()
    if a.sort == I and b.sort == I:
        d = sub(b, a)
        if d.op == 'const': return add(a, mul(d, sub(v, idx)))
    if a.op != b.op: raise _NoUnify()
    if a.op == 'poly':
        # match monomials with equal coefficient multiset in order
        if len(a.args) != len(b.args): raise _NoUnify()
        ua = list(a.args); ub = list(b.args)
        com = [x for x in ua if x in ub]
        ra = [x for x in ua if x not in com]; rb = [x for x in ub if x not in com]
        if len(ra) != len(rb): raise _NoUnify()
        res = frompd(dict(com), a.sort)
        used = set()
        for (m1, c1) in ra:
            for j, (m2, c2) in enumerate(rb):
                if j in used or c1 != c2 or len(m1) != len(m2): continue
                try: t = _antimono(m1, m2, v, idx, a.sort)
                except _NoUnify: continue
                used.add(j); res = add(res, mul(const(c1, a.sort), t)); break
            else: raise _NoUnify()
        return res
    if a.op == 'app':
        if a.args[0] != b.args[0] or len(a.args) != len(b.args): raise _NoUnify()
        return mkapp(a.args[0], a.sort, *[_anti(x, y, v, idx) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op in ('ite', 'le0', 'lt0', 'eq0', 'not', 'inv', 'toR', 'prod', 'div', 'mod'):
        xs = [_anti(x, y, v, idx) for x, y in zip(a.args, b.args)]
        it_ = iter(xs)
        return tm.rebuild(a, lambda _: next(it_))
    if a.op in ('and', 'or'):
        if len(a.args) != len(b.args): raise _NoUnify()
        xs = [_anti(x, y, v, idx) for x, y in zip(a.args, b.args)]
        return and_(*xs) if a.op == 'and' else or_(*xs)
    raise _NoUnify()

def _antimono(m1, m2, v, idx, sort):
    com = []
    l2 = list(m2)
    r1 = []
    for x in m1:
        if x in l2: l2.remove(x); com.append(x)
        else: r1.append(x)
    t = frompd({tuple(com): Fraction(1)}, sort)
    for x in r1:
        for y in l2:
            try: g = _anti(x, y, v, idx)
            except _NoUnify: continue
            l2.remove(y); t = mul(t, g); break
        else: raise _NoUnify()
    return t
