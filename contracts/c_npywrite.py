"""Writing arrays (C09): the header text for every shape, and that what is written is what is read."""
import re
from harness import *
import terms as tm
import steps, heap, bytestr, ropes, loops, solve
from ropes import ROPES, mkrope
from layout import layout
from execu import window
from c_npyread import MAXDIM, FIELDS, isnull, U, File, Mapping
SRC = ['npy_array/npy_array.c']
PMAX = IC(2 ** 63 - 1)

class Array:
    """an array of d dimensions: any sizes whose data fit the address space, any element size, type
    character and order; d is fixed, one case per number of dimensions"""
    def __init__(self, c, d, L, fort):
        self.c, self.d, self.L = c, d, L
        self.elem = c.int('elem_size', 1, 2 ** 63 - 1)
        self.dims = [c.int('dim%d' % i, 0, 2 ** 63 - 1) for i in range(d)]
        self.type = c.int('typechar', -128, 127); c.assume(ne(self.type, IC(0)))
        self.endian = c.int('endianness', -128, 127); self.fort = IC(fort)
        P, Q = self.elem, IC(1)
        for x in self.dims:
            # P = bytes, Q = elements so far; facts of arithmetic about products and quotients
            N, M = mul(P, x), mul(Q, x)
            c.assume(and_(ge(N, IC(0)), le(N, PMAX)))
            c.assume(implies(gt(x, IC(0)), le(P, intdiv(PMAX, x)))); c.assume(and_(ge(M, IC(0)), le(M, N)))
            P, Q = N, M
        self.bytes, self.count = P, Q
        self.data = Region('data', 'arr', self.bytes, es=1, sort=I, writable=False, align=1); v = fresh('r', I); c.st.mem[self.data] = Arr(v, app('data', I, v)); c.assume(gt(self.data.addr, IC(0)))
        self.reg = Region('array', 'cells', IC(L['sizeof']), writable=False, align=8); c.assume(gt(self.reg.addr, IC(0)))
        m = {L['data']: (8, Ptr(self.data, 0)), L['ndim']: (4, IC(d)), L['endianness']: (1, self.endian), L['typechar']: (1, self.type), L['elem_size']: (8, self.elem), L['fortran_order']: (1, self.fort), L['map_addr']: (8, NULL)}
        for i, x in enumerate(self.dims): m[L['shape'] + 8 * i] = (8, x)
        c.st.mem[self.reg] = m
solve.APPRANGE['data'] = (Fraction(-128), Fraction(127))

ORDER = {'c': 0, 'fortran': 1}
def header(cfg, d, o):
    out = []
    for fort in (ORDER[o],):
        c = Ctx(cfg, SRC); ex = c.ex; L = layout('npy_array.h', 'npy_array_t', FIELDS, cfg)
        ex.contracts = dict(ropes.CONTRACTS); A = Array(c, d, L, fort)
        buf = Region('buf', 'arr', IC(1024), es=1, sort=I, align=1); v = fresh('r', I); c.st.mem[buf] = Arr(v, app('before', I, v)); c.assume(gt(buf.addr, IC(0)))
        rv = c.call('npy_array_get_header', A.reg, buf)
        checkheader(c, c.st, A, buf, rv); out.append(c)
    return out
def checkheader(c, st, A, buf, rv):
    at = lambda i: ropes.simple(st, bytestr.at(st, buf, i))
    for i, x in enumerate([0x93 - 256] + list(b'NUMPY') + [1, 0]): c.post_eq(at(i), IC(x), 'byte %d of the header' % i, st)
    c.post(and_(ge(rv, IC(10)), le(rv, IC(1024))), 'length of the header', st)
    c.post_eq(intmod(rv, IC(64)), IC(0), 'the data is aligned to 64 bytes', st)
    c.post_eq(add(IC(10), add(U8(at(8)), tm.scale(U8(at(9)), 256))), rv, 'length field', st)
    c.post_eq(at(sub(rv, IC(1))), IC(10), 'the header ends with a new line', st)
    # the text is the description of the array as a Python dictionary
    n = sub(rv, IC(10)); seq = []
    t = st.fork(); m = t.mem[buf]; t.mem[buf] = Arr(m.v, ite(eq(m.v, rv), IC(0), m.body))
    for q, kind, y in ropes.pieces(c.ex, t, Ptr(buf, IC(10))):
        if kind == 'sp': seq.append(' ')
        elif kind == 'c' and y.op == 'const': seq.append(chr(int(y.args[0]) % 256))
        else: seq.append((kind, y))
    syms = []
    def enc(x):
        if isinstance(x, str): return x
        syms.append(x); return chr(0xE000 + len(syms) - 1) if x[0] == 'c' else chr(0xF000 + len(syms) - 1)
    s = ''.join(enc(x) for x in seq); C, D = '([\ue000-\uefff])', '([\uf000-\uf8ff])'
    g = re.match(r"^\{(.*?),?\s*\}\s*\n$", s); items = re.findall(r"\s*'(\w+)'\s*:\s*('[^']*'|\([^)]*\)|\w+)\s*(?:,|$)", g.group(1)) if g else []
    keys = dict(items)
    c.post(TRUE if g and len(items) == 3 and set(keys) == {'descr', 'fortran_order', 'shape'} and not re.sub(r"\s*'(\w+)'\s*:\s*('[^']*'|\([^)]*\)|\w+)\s*(,|$)", '', g.group(1)).strip() else FALSE, 'the header is a dictionary with three keys', st)
    sym = lambda ch: syms[(ord(ch) - 0xE000) if ord(ch) < 0xF000 else (ord(ch) - 0xF000)][1]
    e = re.match("^'(.)" + C + D + "'$", keys.get('descr', ''))
    c.post(TRUE if e else FALSE, 'type description', st)
    if e:
        ch = IC(ord(e.group(1))) if ord(e.group(1)) < 256 else sym(e.group(1))
        c.post_eq(ch, guess(A), 'byte order', st); c.post_eq(sym(e.group(2)), A.type, 'type', st); c.post_eq(sym(e.group(3)), A.elem, 'element size', st)
    c.post(TRUE if keys.get('fortran_order') == ('True' if A.fort is IC(1) else 'False') else FALSE, 'order', st)
    sh = keys.get('shape', ''); body = sh[1:-1].replace(' ', ''); ds = [x for x in body.split(',') if x]
    ok = len(ds) == A.d and body.count(',') in ((0,) if A.d == 0 else (1,) if A.d == 1 else (A.d - 1, A.d)) and all(re.match('^' + D + '$', x) for x in ds)
    c.post(TRUE if ok else FALSE, 'shape', st)
    for i, x in enumerate(ds if ok else ()): c.post_eq(sym(x), A.dims[i], 'dimension %d' % i, st)
    c.satisfiable(st)
def isorder(e): return or_(*[eq(e, IC(ord(x))) for x in '<>|'])
def guess(A):
    """the byte order that is written: the one of the array, else the one of this machine"""
    return ite(isorder(A.endian), A.endian, ite(or_(eq(A.elem, IC(1)), eq(A.type, IC(ord('S')))), IC(ord('|')), IC(ord('<'))))
def U8(v): return ite(lt(v, IC(0)), add(v, IC(256)), v)
def net(d, o):
    """networks are saved as arrays of one or two dimensions in C order (C11)"""
    return {'C09': None, 'C11': None} if d in (1, 2) and o == 'c' else {'C09': None}
for d in range(MAXDIM + 1):
    for o in ORDER: contract('npy_header/%dd/%s' % (d, o), net(d, o), ['nosimd'], functions=['npy_array_get_header'])(lambda cfg, d=d, o=o: header(cfg, d, o))

class Disk:
    """the bytes of one file: written by fwrite (every write succeeds), then read by fread or mapped"""
    def __init__(self, c):
        self.c = c; st = c.st; r = self.reg = Region('content', 'arr', None, es=1, sort=I, writable=False, align=4096); v = fresh('r', I); st.mem[r] = Arr(v, app('nothing', I, v))
        st.ghost[('size',)] = IC(0); st.ghost[('pos',)] = IC(0); st.assume(gt(r.addr, IC(0)))
        c.ex.contracts.update(fwrite=self.fwrite, fread=self.fread)
    def append(self, ex, st, src, n, line, what):
        p = bytestr.one(st, src, what)
        ex.oblige(st, line, 'call', ge(n, IC(0)), what + ' length')
        if solve.decide(st.facts(), eq(n, IC(0))) is True: return
        if p.base is None: ex.oblige(st, line, 'null', FALSE, what); return
        ex.bounds(st, p, n, line, what + ' of'); bytestr.fit(ex, st, p.base)
        m = st.mem[p.base]; F = st.mem[self.reg]; z = st.ghost[('size',)]; v = F.v
        st.mem[self.reg] = Arr(v, ite(window(v, z, add(z, n)), m.at(add(sub(v, z), p.off)), F.body)); st.ghost[('size',)] = add(z, n)
    def fwrite(self, ex, f, it, st, a):
        buf, s, n, fp = a; self.file.isfile(ex, st, fp, it.line)
        k = n if s is IC(1) else s if n is IC(1) else None
        if k is None: raise Unsupported('fwrite with elements of several bytes')
        self.append(ex, st, buf, k, it.line, 'fwrite')
        if it.res is not None: st.env[it.res] = n
        return st
    def deliver(self, ex, st, dst, n, line, what):
        p = bytestr.one(st, dst, what); z, pos = st.ghost[('size',)], st.ghost[('pos',)]
        left = sub(z, pos); got = n if prove(st.facts(), le(n, left)) else ite(le(n, left), n, left)
        ex.oblige(st, line, 'call', ge(n, IC(0)), what + ' length'); ex.bounds(st, p, n, line, what + ' into'); r = p.base
        if getattr(r, 'pending', False): r.es, r.sort, r.pending = 1, I, False
        bytestr.fit(ex, st, r); m = st.mem[r]; F = st.mem[self.reg]
        i = fresh('i', I); s = st.fork(); s.assume(and_(ge(i, IC(0)), lt(i, got))); b = solve.simp(F.at(add(pos, i)), s.facts())      # most of the file's history does not matter
        st.mem[r] = Arr(m.v, ite(window(m.v, p.off, add(p.off, got)), subst(b, {i: sub(m.v, p.off)}), m.body)); st.ghost[('pos',)] = add(pos, got)
        return got
    def fread(self, ex, f, it, st, a):
        buf, s, n, fp = a; self.file.isfile(ex, st, fp, it.line)
        if s is not IC(1): raise Unsupported('fread with elements of several bytes')
        got = self.deliver(ex, st, buf, n, it.line, 'fread')
        if it.res is not None: st.env[it.res] = got
        return st

def same(c, st, A, L, rv, mapped=None):
    """the array that was read is the array that was written"""
    la = heap.feasible(st, rv); p = la[0][1] if len(la) == 1 else None
    ok = p is not None and p.base is not None and p.off is IC(0) and isinstance(st.mem.get(p.base), dict)
    c.post(TRUE if ok else FALSE, 'an array is read', st)
    if not ok: return
    m = st.mem[p.base]; cell = lambda f, i=0: m[L[f] + i][1] if L[f] + i in m else fresh('missing', I)
    c.post_eq(cell('ndim'), IC(A.d), 'number of dimensions', st)
    for i, x in enumerate(A.dims): c.post_eq(cell('shape', 8 * i), x, 'dimension %d' % i, st)
    c.post_eq(cell('elem_size'), A.elem, 'element size', st); c.post_eq(cell('typechar'), A.type, 'type', st)
    c.post_eq(cell('endianness'), guess(A), 'byte order', st)
    f = cell('fortran_order'); c.post_eq(f if isinstance(f, T) and f.sort == I else ite(f, IC(1), IC(0)), A.fort, 'order', st)
    x = cell('data'); q = bytestr.one(st, x, 'data'); ok = q.base is not None
    c.post(TRUE if ok else FALSE, 'data', st)
    if not ok: return
    i = c.int('i', 0, 2 ** 63 - 1); s = st.fork(); s.assume(lt(i, A.bytes))
    if not solve.infeasible(s.facts()):
        bytestr.fit(c.ex, s, q.base); c.ex.bounds(s, Ptr(q.base, add(q.off, i)), IC(1), 0, 'data')
        c.post_eq(solve.simp(bytestr.at(s, q.base, add(q.off, i)), s.facts()), app('data', I, i), 'data', s)
    c.satisfiable(st)

def datasize(cfg):
    out = []
    for d in range(MAXDIM + 1):
        c = Ctx(cfg, SRC); L = layout('npy_array.h', 'npy_array_t', FIELDS, cfg); A = Array(c, d, L, 0); c.ex.unroll_decide = True
        c.post_eq(c.call('npy_array_calculate_datasize', A.reg), A.bytes, 'bytes in an array of %d dimensions' % d); c.satisfiable(); out.append(c)
    return out
contract('npy_datasize', {'C09': None, 'C11': None}, ['nosimd'], functions=['npy_array_calculate_datasize'])(datasize)

def roundtrip(cfg, d, o):
    out = []
    for fort in (ORDER[o],):
        c = Ctx(cfg, SRC); ex = c.ex; L = layout('npy_array.h', 'npy_array_t', FIELDS, cfg)
        ex.contracts = dict(ropes.CONTRACTS); A = Array(c, d, L, fort)
        fi = File(c, b'w'); D = Disk(c); D.file = fi; c.assume(fi.ok); ex.heap_may_fail = False; ex.unroll_decide = True
        c.call('npy_array_save', fi.name, A.reg)
        c.post_eq(c.st.ghost[('opens',)], IC(1), 'the file is written'); c.post_eq(c.st.ghost[('open',)], IC(0), 'the file is closed')
        c.st.ghost[('opens',)] = IC(0)
        saved = c.st.fork()
        fi.mode = b'r'; rv = c.call('npy_array_load', fi.name); same(c, c.st, A, L, rv)
        c.st = saved
        mp = Mapping(c); z = c.st.ghost[('size',)]; mp.name, mp.reg, mp.len = fi.name, D.reg, z; D.reg.size = z
        c.assume(and_(mp.okopen, mp.okmap)); rv = c.call('npy_array_mmap', fi.name); same(c, c.st, A, L, rv)
        out.append(c)
    return out
for d in range(MAXDIM + 1):
    fs = ['npy_array_save', '_read_matrix', 'npy_array_get_header', 'npy_array_calculate_datasize', 'find_header_item']
    for o in ORDER:
        contract('npy_roundtrip/%dd/%s' % (d, o), net(d, o), ['nosimd'], functions=fs + ['npy_array_load', 'npy_array_mmap', 'read_mapped'])(lambda cfg, d=d, o=o: roundtrip(cfg, d, o))
