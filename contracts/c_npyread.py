"""Reading arrays (C10): file content is arbitrary; a reader delivers any bytes and may come short."""
from harness import *
import terms as tm
import steps, heap, bytestr, loops, solve
from steps import StepLoop
from layout import layout
from bytestr import at, LL
from fractions import Fraction

solve.APPRANGE['file'] = (Fraction(-128), Fraction(127))
SRC = ['npy_array/npy_array.c']
MAXDIM = 8
def isnull(st, p): return isinstance(p, Ptr) and p.base is None and prove(st.facts(), eq(p.off, IC(0)))
def U(v): return ite(lt(v, IC(0)), add(v, IC(2 ** 64)), v)
FIELDS = ['data', 'shape', 'ndim', 'endianness', 'typechar', 'elem_size', 'fortran_order', 'map_addr', 'map_length']

class Source:
    """an open file: byte i of what was not read yet is file(pos + i)"""
    def __init__(self, c): self.c = c; c.st.ghost['pos'] = IC(0); c.st.ghost['short'] = IC(0); self.reg = Region('file', 'cells', None, align=16); c.st.mem[self.reg] = {}
    def deliver(self, ex, st, dst, n, line, what):
        """n (unsigned) bytes are asked for; the number delivered"""
        ex.oblige(st, line, 'call', ge(n, IC(0)), '%s: length' % what)
        got = fresh('got', I); solve.RANGES[got] = (Fraction(0), Fraction(2 ** 63 - 1)); st.assume(and_(ge(got, IC(0)), le(got, n)))
        for cnd, q in heap.feasible(st, dst):
            s2 = st.fork(); s2.assume(cnd); s2.assume(gt(n, IC(0)))
            if not solve.infeasible(s2.facts()): ex.bounds(s2, q, n, line, what + ' into')
            if q.base is None or isinstance(q.base, Fn): continue
            r = q.base
            if not r.writable: ex.oblige(s2, line, 'write', FALSE, what + ' into ' + r.name)
            if getattr(r, 'pending', False): r.es, r.sort, r.pending = 1, I, False
            m = st.mem[r]
            if isinstance(m, Arr) and r.es == 1:
                bytestr.fit(ex, st, r); m = st.mem[r]
                b = app('file', I, add(st.ghost['pos'], sub(m.v, q.off)))
                st.mem[r] = Arr(m.v, ite(and_(cnd, ge(m.v, q.off), lt(m.v, add(q.off, got))), b, m.body))
            else: raise Unsupported('%s into %s' % (what, r.name))
        st.ghost['pos'] = add(st.ghost['pos'], got)
        st.ghost['short'] = ite(lt(got, n), IC(1), st.ghost['short'])
        return got
    def file(self, ex, st, p, line):
        la = heap.feasible(st, p); ok = len(la) == 1 and la[0][1].base is self.reg
        ex.oblige(st, line, 'null', TRUE if ok else FALSE, 'an open file is read')
        ex.oblige_eq(st, line, 'call', st.ghost.get('open', IC(1)), IC(1), 'the file is open when it is read')
    def fread(self, ex, f, it, st, a):
        buf, size, n, fp = a; self.file(ex, st, fp, it.line)
        if size is not IC(1):
            if n is IC(1): size, n = n, size; whole = True
            else: raise Unsupported('fread with elements of several bytes')
        else: whole = False
        got = self.deliver(ex, st, buf, n, it.line, 'fread')
        if it.res is not None: st.env[it.res] = ite(eq(got, n), IC(1), IC(0)) if whole else got
        return st
    def zip_fread(self, ex, f, it, st, a):
        self.file(ex, st, a[0], it.line)
        got = self.deliver(ex, st, a[1], a[2], it.line, 'zip_fread')
        bad = fresh('zip_error', B); st.ghost['short'] = ite(bad, IC(1), st.ghost['short'])
        if it.res is not None: st.env[it.res] = ite(bad, IC(-1), got)
        return st
    def reader(self, ex, f, it, st, a):
        self.file(ex, st, a[0], it.line)
        got = self.deliver(ex, st, a[1], a[2], it.line, 'read')
        bad = fresh('read_error', B); st.ghost['short'] = ite(bad, IC(1), st.ghost['short'])
        if it.res is not None: st.env[it.res] = ite(bad, IC(-1), got)
        return st

class Shape:
    """loop invariant of the shape parser, by number of dimensions d found so far: shape[0..d) are any
    numbers and no product has overflowed"""
    def __init__(self, c, L, pick):
        self.c, self.L = c, L
        self.s = [var('dim%d' % i, I) for i in range(MAXDIM)]
        c.st.ghost.update(prod=IC(0), head=IC(-1), case=IC(0))
        self.P = [var('size%dd' % i, I) for i in range(MAXDIM + 1)]
        for x in self.P: solve.RANGES[x] = (Fraction(0), Fraction(2 ** 63 - 1))
        for x in self.s: solve.RANGES[x] = (Fraction(LL[0]), Fraction(LL[1]))
        h = self.hook = StepLoop(bytestr.NUMBERS, set(), self.havoc, self.entry, self.step, self.cands, marks=[])
        h.cases = list(range(MAXDIM + 1)); h.split = self.split; h.bound_cands = True; h.pick_case = pick; h.begin = self.begin; h.progress = bytestr.progress
    def array(self, ex):
        rs = [r for r in getattr(ex, 'heap', []) if r.size is IC(self.L['sizeof'])]
        if len(rs) != 1: raise Unsupported('%d array structures are allocated' % len(rs))
        return rs[0]
    def begin(self, st):
        r = self.r = self.array(self.c.ex); h = self.hook
        h.tracked = {(r, self.L['ndim'])} | {(r, self.L['shape'] + 8 * i) for i in range(MAXDIM)}
        e = st.mem[r].get(self.L['elem_size']); self.elem = e[1] if e else IC(0)
        h.marks = bytestr.terminators(st)
    def dims(self, st):
        """dimensions found so far, as unsigned numbers"""
        d = int(st.ghost['case'].args[0]); m = st.mem[self.r]
        return [U(m[self.L['shape'] + 8 * i][1]) for i in range(d)]
    def product(self, st):
        """size of the data so far.  At the head it is a number P with P = elem_size * dim0 * ..; a new dimension multiplies it"""
        P, d0 = st.ghost['prod'], st.ghost['head']
        if d0 is IC(-1): P = None
        p = U(self.elem) if P is None else P; x = self.dims(st)
        for y in x[0 if P is None else int(d0.args[0]):]: p = mul(p, y)
        return p
    def equation(self, st):
        """what P stands for"""
        if st.ghost['head'] is IC(-1): return
        p = U(self.elem)
        for x in self.s[:int(st.ghost['head'].args[0])]: p = mul(p, U(x))
        st.assume(eq(st.ghost['prod'], p))
    def cands(self, ex, st):
        return [self.product(st), st.ghost['case']]
    def havoc(self, ex, st):
        d = int(st.ghost['case'].args[0])
        m = dict(st.mem[self.r]); m[self.L['ndim']] = (4, IC(d))
        for i in range(d):
            m[self.L['shape'] + 8 * i] = (8, self.s[i]); st.assume(and_(ge(self.s[i], IC(LL[0])), le(self.s[i], IC(LL[1]))))
        st.mem[self.r] = m
        P = U(self.elem) if d == 0 else self.P[d]; st.ghost['prod'] = P; st.ghost['head'] = IC(d)
        st.assume(and_(ge(P, IC(0)), le(P, IC(2 ** 63 - 1))))
    def entry(self, ex, st, line):
        n = st.mem[self.r].get(self.L['ndim']); ex.oblige_eq(st, line, 'loop', n[1] if n else IC(-1), IC(0), 'no dimensions at the start')
        p = self.product(st); ex.oblige(st, line, 'loop', and_(ge(p, IC(0)), le(p, IC(2 ** 63 - 1))), 'size of the data')
    def lemmas(self, st):
        """what is true of any integers: P <= a div b, b > 0 gives P * b <= a; 0 * v = 0"""
        P = st.ghost['prod']
        if st.ghost['head'] is IC(-1): return
        for x in list(st.facts()):
            for q in subterms(x, lambda t: t.op == 'div' and t.args[1].op != 'const'):
                a, b = q.args
                st.assume(implies(and_(gt(b, IC(0)), le(P, q)), le(mul(P, b), a)))
                st.assume(implies(and_(ge(b, IC(0)), ge(P, IC(0))), ge(mul(P, b), IC(0))))
        for x in self.s + [t[1] for o, t in st.mem[self.r].items() if self.L['shape'] <= o < self.L['shape'] + 8 * MAXDIM]: st.assume(implies(eq(P, IC(0)), eq(mul(P, x), IC(0))))
    def split(self, ex, st):
        out = []; n = st.mem[self.r][self.L['ndim']][1]; d0 = int(st.ghost['head'].args[0])
        for d in range(MAXDIM + 1):
            e = eq(n, IC(d))
            if e is FALSE: continue
            s = st.fork()
            if e is not TRUE: s.assume(e)
            if solve.infeasible(s.facts()): continue
            s.ghost['case'] = IC(d)
            new = s.mem[self.r].get(self.L['shape'] + 8 * d0) if d > d0 else None
            for sign in ([None] if new is None else [ge(new[1], IC(0)), lt(new[1], IC(0))]):
                t = s.fork()
                if sign is not None: t.assume(sign)
                if solve.infeasible(t.facts()): continue
                f = t.facts(); m = dict(t.mem[self.r])
                for off, (sz, v) in m.items():
                    if isinstance(v, T): m[off] = (sz, solve.simp(v, f))
                t.mem[self.r] = m; self.lemmas(t); out.append(t)
        if not out or not prove(st.facts(), and_(ge(n, IC(0)), le(n, IC(MAXDIM)))): raise Unsupported('number of dimensions is not bounded')
        return out
    def step(self, ex, st, line):
        d = int(st.ghost['case'].args[0])
        p = solve.simp(self.product(st), st.facts()); ex.oblige(st, line, 'loop', and_(ge(p, IC(0)), le(p, IC(2 ** 63 - 1))), 'size of the data')
        for i in range(d):
            x = st.mem[self.r].get(self.L['shape'] + 8 * i)
            ex.oblige(st, line, 'loop', and_(ge(x[1], IC(LL[0])), le(x[1], IC(LL[1]))) if x is not None else FALSE, 'dimension')
def data0():
    """where the data starts: after the ten fixed bytes and the header, whose length the file says"""
    u = lambda i: ite(lt(app('file', I, IC(i)), IC(0)), add(app('file', I, IC(i)), IC(256)), app('file', I, IC(i)))
    return add(IC(10), add(u(8), tm.scale(u(9), 256)))
def wellformed(c, st, L, rv, sh, mapped=None):
    """the returned array, or nothing"""
    some = 0
    for cond, p in heap.feasible(st, rv):
        s = st.fork(); s.assume(cond)
        if isnull(s, p):
            for r in getattr(c.ex, 'heap', []): c.post_eq(heap.live(s, r), IC(0), 'refused: nothing stays allocated', s)
            continue
        some += 1
        ok = p.base is not None and getattr(p.base, 'heap', None) and p.off is IC(0) and p.base.size is IC(L['sizeof'])
        c.post(TRUE if ok else FALSE, 'an array structure is returned', s)
        if not ok: continue
        m = s.mem[p.base]; cell = lambda f, i=0: m.get(L[f] + i, (0, None))[1]
        c.post_eq(heap.live(s, p.base), IC(1), 'the array is allocated', s)
        c.post_eq(s.ghost['short'], IC(0), 'an array is returned only when everything could be read', s)
        d = solve.simp(cell('ndim'), s.facts())
        c.post(and_(ge(d, IC(0)), le(d, IC(MAXDIM))), 'number of dimensions', s)
        if d.op != 'const': c.post(FALSE, 'number of dimensions is decided', s); continue
        e = cell('elem_size'); c.post(ne(e, IC(0)) if e is not None else FALSE, 'element size', s)
        c.post(TRUE if e is sh.elem else FALSE, 'the element size is the one that the data was counted with', s)
        sh.equation(s); n = U(e)
        for i in range(int(d.args[0])):
            x = cell('shape', 8 * i); c.post(TRUE if isinstance(x, T) else FALSE, 'every dimension is set', s)
            if isinstance(x, T): n = mul(n, U(x))
        x = cell('data'); la = heap.feasible(s, x) if x is not None else []
        q = la[0][1] if len(la) == 1 else None
        if q is None or q.base is None: c.post(FALSE, 'data buffer', s); continue
        ma = cell('map_addr'); ma = heap.feasible(s, ma)[0][1] if ma is not None else None
        if mapped is None:
            c.post(TRUE if getattr(q.base, 'heap', None) and q.off is IC(0) else FALSE, 'the data buffer is a block of its own', s)
            c.post_eq(heap.live(s, q.base), IC(1), 'the data buffer is allocated', s)
            i = fresh('i', I); t = s.fork(); t.assume(and_(ge(i, IC(0)), lt(i, n)))
            if not solve.infeasible(t.facts()):
                c.ex.retag = None; heap.retag(c.ex, t, q.base, 1, True)
                c.post_eq(t.mem[q.base].at(i), app('file', I, add(data0(), i)), 'the data are the bytes after the header', t)
            c.post(TRUE if ma is not None and isnull(s, ma) else FALSE, 'no mapping', s)
        else:
            c.post(TRUE if q.base is mapped else FALSE, 'the data lies in the mapping', s)
            c.post(TRUE if ma is not None and ma.base is mapped and ma.off is IC(0) else FALSE, 'start of the mapping', s)
            c.post_eq(cell('map_length'), mapped.size, 'length of the mapping', s)
            c.post_eq(q.off, data0(), 'the data are the bytes after the header', s)
        if q.base.size is not None: c.post(le(add(q.off, n), q.base.size), 'the data buffer holds all elements', s)
        for r in getattr(c.ex, 'heap', []):
            if r is not p.base and r is not q.base: c.post_eq(heap.live(s, r), IC(0), 'nothing else stays allocated', s)
        c.satisfiable(s)
    return some


def read_matrix(cfg, d):
    c = Ctx(cfg, SRC); ex = c.ex
    L = layout('npy_array.h', 'npy_array_t', FIELDS, cfg)
    src = Source(c)
    ex.contracts = dict(bytestr.CONTRACTS); ex.contracts.update(reader=src.reader, fread=src.fread)
    sh = Shape(c, L, d); ex.loop_hooks = [sh.hook, bytestr.scanloop(bytestr.NUMBERS)]
    ex.split_tails = True
    c.call('_read_matrix', Ptr(src.reg, 0), Ptr(Fn.get('reader'), IC(0)))
    some = sum(wellformed(c, s, L, rv, sh) for s, rv in ex.rets)
    c.post(TRUE if some else FALSE, 'arrays are returned', ex.rets[0][0])
    return [c]

class Found(Exception): pass
class Mapping:
    """open, lseek, mmap, close, munmap of one file that does not change meanwhile"""
    def __init__(self, c):
        self.c = c; st = c.st
        self.len = c.int('filelen', -1, 2 ** 47)
        self.name = cstr.symregion(c.ex, st, 'filename')
        r = self.reg = Region('mapping', 'arr', self.len, es=1, sort=I, writable=False, align=4096); v = fresh('r', I); st.mem[r] = Arr(v, app('file', I, v))
        st.assume(gt(r.addr, IC(0)))
        self.okopen, self.okmap = var('can_open', B), var('can_map', B)
        st.ghost.update({('fd',): IC(0), ('map',): IC(0), ('opens',): IC(0)})
        c.ex.contracts.update(open=self.open, open64=self.open, lseek=self.lseek, lseek64=self.lseek, mmap=self.mmap, mmap64=self.mmap, close=self.close, munmap=self.munmap)
    def open(self, ex, f, it, st, a):
        la = heap.feasible(st, a[0]); ok = len(la) == 1 and la[0][1].base is self.name and la[0][1].off is IC(0)
        ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, 'the named file is opened')
        ex.oblige_eq(st, it.line, 'call', a[1], IC(0), 'opened for reading')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('opens',)], IC(0), 'opened once')
        st.ghost[('fd',)] = ite(self.okopen, IC(1), IC(0)); st.ghost[('opens',)] = IC(1)
        st.env[it.res] = ite(self.okopen, self.fd(st), IC(-1)); return st
    def fd(self, st):
        v = var('fd', I); st.assume(and_(ge(v, IC(0)), le(v, IC(2 ** 31 - 1)))); return v
    def isfd(self, ex, st, v, line):
        ex.oblige_eq(st, line, 'call', v, self.fd(st), 'the descriptor of the file'); ex.oblige_eq(st, line, 'call', st.ghost[('fd',)], IC(1), 'the descriptor is open')
    def lseek(self, ex, f, it, st, a):
        self.isfd(ex, st, a[0], it.line)
        ex.oblige(st, it.line, 'call', TRUE if a[1] is IC(0) and a[2] is IC(2) else FALSE, 'the end of the file is asked for')
        st.env[it.res] = self.len; return st          # -1: the file has no length
    def mmap(self, ex, f, it, st, a):
        self.isfd(ex, st, a[4], it.line)
        ex.oblige_eq(st, it.line, 'call', a[1], self.len, 'the whole file is mapped'); ex.oblige_eq(st, it.line, 'call', a[5], IC(0), 'from its start')
        ex.oblige_eq(st, it.line, 'call', a[2], IC(1), 'for reading')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('map',)], IC(0), 'once')
        ok = and_(self.okmap, gt(self.len, IC(0))); st.ghost[('map',)] = ite(ok, IC(1), IC(0))
        st.env[it.res] = PIte([(ok, Ptr(self.reg, 0)), (TRUE, Ptr(None, IC(-1)))]); return st
    def close(self, ex, f, it, st, a):
        self.isfd(ex, st, a[0], it.line); st.ghost[('fd',)] = IC(0)
        if it.res is not None: st.env[it.res] = fresh('ioret', I)
        return st
    def munmap(self, ex, f, it, st, a):
        p = bytestr.one(st, a[0], 'munmap')
        ex.oblige(st, it.line, 'call', TRUE if p.base is self.reg and p.off is IC(0) else FALSE, 'the mapping is taken away')
        ex.oblige_eq(st, it.line, 'call', a[1], self.len, 'the whole mapping is taken away'); ex.oblige_eq(st, it.line, 'call', st.ghost[('map',)], IC(1), 'a mapping is taken away once')
        st.ghost[('map',)] = IC(0)
        if it.res is not None: st.env[it.res] = fresh('ioret', I)
        return st

def read_mapped(cfg, d):
    """_read_matrix over a mapping, called as npy_array_mmap calls it"""
    c = Ctx(cfg, SRC); ex = c.ex
    L = layout('npy_array.h', 'npy_array_t', FIELDS, cfg)
    ex.contracts = dict(bytestr.CONTRACTS); mp = Mapping(c); at = []
    def here(ex, f, it, st, a): at.append((st.fork(), a)); raise Found()
    ex.contracts['_read_matrix'] = here
    try: c.call('npy_array_mmap', mp.name); raise Unsupported('_read_matrix is not called')
    except Found: pass
    st, a = at[0]; del ex.fnstack[:]; ex.obls = [o for o in ex.obls if False]; ex.silent = 0
    c.st = st; del ex.contracts['_read_matrix']; st.ghost['short'] = IC(0)
    sh = Shape(c, L, d); ex.loop_hooks = [sh.hook, bytestr.scanloop(bytestr.NUMBERS)]
    ex.split_tails = True
    c.call('_read_matrix', *a)
    some = sum(wellformed(c, s, L, rv, sh, mp.reg) for s, rv in ex.rets)
    c.post(TRUE if some else FALSE, 'arrays are returned', ex.rets[0][0])
    return [c]
for d in range(MAXDIM + 1):
    contract('read_matrix/%dd' % d, {'C10': None, 'C11': None}, ['nosimd'], functions=['_read_matrix', 'find_header_item'])(lambda cfg, d=d: read_matrix(cfg, d))
    contract('read_matrix/mapped/%dd' % d, {'C10': None}, ['nosimd'], functions=['_read_matrix', 'read_mapped'])(lambda cfg, d=d: read_mapped(cfg, d))

class Arrays:
    """contract of _read_matrix: no array, or a new one that holds elements of the file"""
    def __init__(self, c, check): self.c, self.check, self.ok = c, check, var('is_array', B); self.made = []; self.n = 0
    def __call__(self, ex, f, it, st, a):
        self.check(ex, st, a, it.line); self.n += 1
        r = Region('array%d' % self.n, 'cells', IC(256), align=16); st.mem[r] = {}; st.assume(gt(r.addr, IC(0))); self.made.append(r)
        st.env[it.res] = PIte([(self.ok, Ptr(r, 0)), (TRUE, NULL)]); return st
def isfn(c, st, p):
    la = heap.feasible(st, p); return la[0][1].base if len(la) == 1 and isinstance(la[0][1].base, Fn) else None
def returned(c, st, rv, ar):
    """alternatives of the result: (state, is it the array)"""
    for cond, p in heap.feasible(st, rv):
        s = st.fork(); s.assume(cond)
        got = bool(ar.made) and p.base is ar.made[0] and p.off is IC(0)
        c.post(TRUE if got or isnull(s, p) else FALSE, 'the array that was read, or nothing', s)
        yield s, got

@contract('npy_array_mmap', {'C10': None}, ['nosimd'], functions=['npy_array_mmap'])
def mmap_job(cfg):
    c = Ctx(cfg, SRC); ex = c.ex; ex.contracts = dict(bytestr.CONTRACTS); mp = Mapping(c)
    def check(ex, st, a, line):
        ex.oblige_eq(st, line, 'call', st.ghost[('map',)], IC(1), 'the file is mapped when it is read')
    ar = Arrays(c, check); ex.contracts['_read_matrix'] = ar; ex.split_tails = True
    c.call('npy_array_mmap', mp.name); seen = set()
    for st, rv in ex.rets:
        c.post_eq(st.ghost[('fd',)], IC(0), 'the file is closed', st)
        for s, got in returned(c, st, rv, ar):
            seen.add(got); c.satisfiable(s)
            c.post_eq(s.ghost[('map',)], IC(1) if got else IC(0), 'the array keeps its mapping' if got else 'nothing stays mapped', s)
            if not got and ar.made:
                t = s.fork(); t.assume(and_(mp.okopen, mp.okmap, gt(mp.len, IC(0)), ar.ok)); c.post(FALSE if not solve.infeasible(t.facts()) else TRUE, 'an array that was read is returned', t)
    c.post(TRUE if seen == {True, False} else FALSE, 'arrays are returned and refused', ex.rets[0][0])
    return [c]

class File:
    def __init__(self, c, mode=b'r'):
        self.c = c; self.reg = Region('file', 'cells', None, align=16); c.st.mem[self.reg] = {}
        self.name = cstr.symregion(c.ex, c.st, 'filename'); self.ok = var('can_open', B)
        c.st.ghost.update({('open',): IC(0), ('opens',): IC(0)}); self.mode = mode
        c.ex.contracts.update(fopen=self.fopen, fclose=self.fclose, fopen64=self.fopen)
    def fopen(self, ex, f, it, st, a):
        la = heap.feasible(st, a[0]); ok = len(la) == 1 and la[0][1].base is self.name and la[0][1].off is IC(0)
        ex.oblige(st, it.line, 'call', TRUE if ok else FALSE, 'the named file is opened')
        m = cstr.conc(bytestr.one(st, a[1], 'fopen'))
        ex.oblige(st, it.line, 'call', TRUE if m is not None and m.replace(b'b', b'') == self.mode else FALSE, 'opening mode')
        ex.oblige_eq(st, it.line, 'call', st.ghost[('opens',)], IC(0), 'opened once')
        st.ghost[('open',)] = ite(self.ok, IC(1), IC(0)); st.ghost[('opens',)] = IC(1)
        st.env[it.res] = PIte([(self.ok, Ptr(self.reg, 0)), (TRUE, NULL)]); return st
    def isfile(self, ex, st, p, line):
        la = heap.feasible(st, p); ex.oblige(st, line, 'call', TRUE if len(la) == 1 and la[0][1].base is self.reg else FALSE, 'the file')
        ex.oblige_eq(st, line, 'call', st.ghost[('open',)], IC(1), 'the file is open')
    def fclose(self, ex, f, it, st, a):
        self.isfile(ex, st, a[0], it.line); st.ghost[('open',)] = IC(0)
        if it.res is not None: st.env[it.res] = fresh('ioret', I)
        return st

@contract('npy_array_load', {'C10': None}, ['nosimd'], functions=['npy_array_load'])
def load_job(cfg):
    c = Ctx(cfg, SRC); ex = c.ex; ex.contracts = dict(bytestr.CONTRACTS); fi = File(c)
    fns = []
    def check(ex, st, a, line):
        fi.isfile(ex, st, a[0], line); fns.append(isfn(c, st, a[1]))
        ex.oblige(st, line, 'call', TRUE if fns[-1] is not None else FALSE, 'reading function')
    ar = Arrays(c, check); ex.contracts['_read_matrix'] = ar; ex.split_tails = True
    c.call('npy_array_load', fi.name); seen = set()
    for st, rv in ex.rets:
        c.post_eq(st.ghost[('open',)], IC(0), 'the file is closed', st)
        for s, got in returned(c, st, rv, ar):
            seen.add(got); c.satisfiable(s)
            if not got and ar.made:
                t = s.fork(); t.assume(and_(fi.ok, ar.ok)); c.post(FALSE if not solve.infeasible(t.facts()) else TRUE, 'an array that was read is returned', t)
    c.post(TRUE if seen == {True, False} else FALSE, 'arrays are returned and refused', ex.rets[0][0])
    return [c] + [reader(cfg, g, SRC, 'fread') for g in set(fns)]

def reader(cfg, fn, srcs, via):
    """a reading function hands on bytes of the file in order, and says so when some are missing"""
    c = Ctx(cfg, srcs); ex = c.ex; src = Source(c); ex.contracts = dict(fread=src.fread, zip_fread=src.zip_fread)
    n = c.int('n', 0, 2 ** 63 - 1); dst = c.farr('buffer', n, align=1, sort=I) if False else Region('buffer', 'arr', n, es=1, sort=I, align=1)
    v = fresh('r', I); c.st.mem[dst] = Arr(v, app('before', I, v)); c.st.assume(gt(dst.addr, IC(0)))
    rv = c.call(fn, Region_ptr(src.reg), Ptr(dst, 0), n)
    i = c.int('i', 0, 2 ** 62); st = c.st.fork(); st.assume(eq(rv, n))
    c.post_eq(st.ghost['pos'], n, 'all bytes were read when the function says so', st); c.satisfiable(st)
    s2 = st.fork(); s2.assume(lt(i, n)); c.post_eq(s2.mem[dst].at(i), app('file', I, i), 'the bytes of the file, in order', s2)
    c.post(le(rv, n), 'never more bytes than asked for')
    return c
def Region_ptr(r): return Ptr(r, 0)
