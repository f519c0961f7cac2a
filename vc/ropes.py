"""Texts of symbolic content over one-byte buffers.  A rope is a sequence of pieces: a character, the decimal
digits of a number, or a number of spaces; a buffer holds a rope as app('rope<n>', position), so that copying,
overwriting and reading go through the ordinary rules for arrays.  The printf and string functions
below are assumed contracts of the C library over such buffers."""
from terms import *
import terms as tm
import solve, cstr, heap, intrinsics, textio, bytestr, execu
from solve import prove, prove_eq, RANGES
from execu import *
from execu import Unsupported, window
from fractions import Fraction

solve.APPRANGE['ndig'] = (Fraction(1), Fraction(20)); solve.APPRANGE['digit'] = (Fraction(48), Fraction(57))
ROPES, BYKEY = {}, {}
def plen(kind, x): return IC(1) if kind == 'c' else app('ndig', I, x) if kind == 'dec' else x
def mkrope(ps):
    """ps: [('c', T) | ('dec', T) | ('sp', T)]"""
    k = tuple(ps); n = BYKEY.get(k)
    if n is None:
        n = BYKEY[k] = 'rope%d' % len(BYKEY); pos, out = IC(0), []
        for kind, x in ps:
            L = plen(kind, x); out.append((pos, L, kind, x)); pos = add(pos, L)
        ROPES[n] = (out, pos); solve.APPRANGE[n] = (Fraction(-128), Fraction(127))
    return n
def isrope(x): return x.op == 'app' and x.args[0] in ROPES
def char(st, x):
    """the character a rope has at a position"""
    if not isrope(x): return x
    k = x.args[1]
    for pos, L, kind, y in ROPES[x.args[0]][0]:
        d = sub(k, pos)
        if d.op == 'const' and (kind == 'c' and d.args[0] == 0): return y
        if d.op == 'const' and d.args[0] == 0 and kind == 'dec': return app('digit', I, y, IC(0))
    for pos, L, kind, y in ROPES[x.args[0]][0]:
        if prove(st.facts(), and_(ge(k, pos), lt(k, add(pos, L)))):
            return y if kind == 'c' else IC(32) if kind == 'sp' else app('digit', I, y, sub(k, pos))
    return x
execu.CHAR = char
def raw(st, r, i): return solve.simp(bytestr.at(st, r, i), st.facts())
def simple(st, v):
    """value without case distinctions that the facts decide"""
    return char(st, solve.simp(v, st.facts()))

def pieces(ex, st, p, limit=80):
    """(offset, kind, argument) from p to the terminator"""
    r, q = p.base, p.off
    for n in range(400):
        x = raw(st, r, q)
        if isrope(x):
            k = x.args[1]; ps = [z for z in ROPES[x.args[0]][0] if z[0] is k]
            if not ps: ps = [z for z in ROPES[x.args[0]][0] if prove(st.facts(), eq(z[0], k))][:1]
            if ps:
                pos, L, kind, y = ps[0]
                if kind != 'c':
                    i = fresh('i', I); s = st.fork(); s.assume(and_(ge(i, IC(0)), lt(i, L)))
                    z = raw(s, r, add(q, i))
                    if not (isrope(z) and z.args[0] == x.args[0] and z.args[1] is add(k, i)): raise Unsupported('text piece that is cut')
                    yield q, kind, y; q = add(q, L); continue
                x = y
            else: x = char(st, x)
        if x is IC(0): return
        if not prove(st.facts(), ne(x, IC(0))): raise Unsupported('character that may be the terminator')
        yield q, 'c', x; q = add(q, IC(1))
    raise Unsupported('text without end')

def istext(st, p):
    """is p a position in a buffer that holds a rope"""
    if not bytestr.isbuf(st, p): return False
    return bool(subterms(st.mem[p.base].body, isrope))

def agree(st, piece, ch):
    """does the piece start with the character: True, False or None"""
    kind, y = piece
    if kind == 'dec': return False if not 48 <= ch <= 57 else None
    if kind == 'sp': return None if ch == 32 or not prove(st.facts(), gt(y, IC(0))) else False
    return solve.decide(st.facts(), eq(y, IC(ch)))
def match(st, ps, i, lit):
    res = []
    for k, ch in enumerate(lit):
        if i + k >= len(ps): return False
        res.append(agree(st, ps[i + k][1:], ch))
        if res[-1] is False: return False
        if ps[i + k][1] != 'c': break
    if all(res): return True
    raise Unsupported('comparison of %r with symbolic text' % lit)
class Lazy:
    def __init__(self, gen): self.gen, self.l = gen, []
    def need(self, n):
        while len(self.l) <= n:
            x = next(self.gen, None)
            if x is None: return False
            self.l.append(x)
        return True

def c_strstr(ex, f, it, st, a):
    p = bytestr.nonnull(ex, st, a[0], it.line, 'strstr'); lit = cstr.conc(bytestr.one(st, a[1], 'strstr'))
    if not istext(st, p) or lit is None: return bytestr.c_strstr(ex, f, it, st, a)
    z = Lazy(pieces(ex, st, p)); i = 0
    while True:
        if not z.need(i): st.env[it.res] = NULL; return st
        z.need(i + len(lit))
        if match(st, z.l, i, lit): st.env[it.res] = Ptr(p.base, z.l[i][0]); return st
        i += 1
def c_strncmp(ex, f, it, st, a):
    p, q = bytestr.one(st, a[0], 'strncmp'), bytestr.one(st, a[1], 'strncmp')
    if not istext(st, p): p, q = q, p
    lit = cstr.conc(q)
    if not istext(st, p) or lit is None: return bytestr.c_strncmp(ex, f, it, st, a)
    n = int(a[2].args[0]) if len(a) > 2 else len(lit) + 1
    z = Lazy(pieces(ex, st, p)); z.need(n + 1); same = match(st, z.l, 0, lit[:n])
    if same and n > len(lit) and len(z.l) > len(lit): same = False
    r = bytestr.inrange(st, fresh('cmp', I), -2 ** 31, 2 ** 31 - 1); st.assume(ne(r, IC(0)))
    st.env[it.res] = IC(0) if same else r; return st
def number(name, signed):
    base = bytestr.CONTRACTS[name]
    def h(ex, f, it, st, a):
        p = bytestr.nonnull(ex, st, a[0], it.line, name)
        if not istext(st, p): return base(ex, f, it, st, a)
        if len(a) > 2 and a[2] is not IC(10): raise Unsupported(name + ' with another base')
        z = Lazy(pieces(ex, st, p))
        if not z.need(0) or z.l[0][1] != 'dec': raise Unsupported(name + ' of a text that is no number')
        if z.need(1) and z.l[1][1] != 'c' or solve.decide(st.facts(), or_(lt(z.l[1][2], IC(48)), gt(z.l[1][2], IC(57)))) is not True: raise Unsupported('digits of two numbers in a row')
        v = z.l[0][2]                       # a number below 2^64
        hi = 2 ** 63 - 1 if signed else 2 ** 64 - 1
        if not prove(st.facts(), le(v, IC(hi))): v = ite(le(v, IC(hi)), v, IC(hi))
        if not signed: v = ite(le(v, IC(2 ** 63 - 1)), v, sub(v, IC(2 ** 64)))
        if len(a) > 1:
            e = bytestr.one(st, a[1], name)
            if e.base is not None: ex.store(st, ('ptr',), Ptr(p.base, add(p.off, plen('dec', z.l[0][2]))), e, 8, it.line)
        st.env[it.res] = simple(st, v); return st
    return h
def c_strlen(ex, f, it, st, a):
    la = heap.feasible(st, a[0])
    if len(la) == 1 and istext(st, la[0][1]):
        n = IC(0)
        for q, kind, y in pieces(ex, st, la[0][1]): n = add(n, plen(kind, y))
        st.env[it.res] = n; return st
    return bytestr.c_strlen(ex, f, it, st, a)

def text(ex, st, ps, line):
    """the pieces of formatted output as rope pieces"""
    out = []
    for x in ps:
        if x[0] == 'lit': out += [('c', IC(b if b < 128 else b - 256)) for b in x[1]]; continue
        kind, v, spec = x; w = spec.get('w')
        if kind == 'chr': out.append(('c', simple(st, ex.wrap(st, v, 8))))
        elif kind == 'int' and spec['width'] is None and not spec['flags'] and spec['prec'] is None and spec['conv'] in b'dui':
            bits = {b'z': 64, b'l': 64, b'll': 64, b'j': 64, b't': 64, None: 32, b'h': 16, b'hh': 8}[spec['ln'] if 'ln' in spec else spec['len']]
            v = ex.wrap(st, v, bits)
            if spec['conv'] == b'u': v = execu.unsigned(v, bits, st)
            elif not prove(st.facts(), ge(v, IC(0))): raise Unsupported('text of a number that may be negative')
            out.append(('dec', solve.simp(v, st.facts())))
        elif kind == 'str' and spec['prec'] is None:
            ls = []; q = bytestr.one(st, v, 'format')
            lit = cstr.conc(q) if q.base is not None else None
            if lit is not None: ls = [('c', IC(b if b < 128 else b - 256)) for b in lit]
            elif bytestr.isbuf(st, q): ls = [(k, y) for _, k, y in pieces(ex, st, q)]
            else: raise Unsupported('text of a string')
            n = IC(0)
            for k, y in ls: n = add(n, plen(k, y))
            if spec['width'] is not None:
                w = w if w is not None else IC(int(spec['width']))
                if not prove(st.facts(), ge(w, IC(0))): raise Unsupported('field width that may be negative')
                pad = sub(w, n)
                if prove(st.facts(), le(pad, IC(0))): pad = None
                elif not prove(st.facts(), ge(pad, IC(0))): pad = ite(ge(pad, IC(0)), pad, IC(0))
                if pad is not None: out.append(('sp', pad)) if b'-' not in (spec['flags'] or b'') else ls.append(('sp', pad))
            out += ls
        else: raise Unsupported('conversion %s' % spec)
    return out
def put(ex, st, p, ps, line, what):
    """write the text and a terminator; the length"""
    nm = mkrope(ps); n = ROPES[nm][1]; r = p.base
    if r is None or isinstance(r, Fn): ex.oblige(st, line, 'null', FALSE, what); return n
    ex.bounds(st, p, add(n, IC(1)), line, what + ' into')
    if not r.writable: ex.oblige(st, line, 'write', FALSE, '%s into %s' % (what, r.name))
    if getattr(r, 'pending', False): r.es, r.sort, r.pending = 1, I, False
    if st.mem.get(r) == {} and getattr(r, 'heap', None): r.es, r.sort = 1, I; v = fresh('r', I); st.mem[r] = Arr(v, app('uninit_' + r.name, I, v))      # a block of constant size that holds nothing yet
    if not bytestr.isbuf(st, p): raise Unsupported('%s into %s' % (what, r.name))
    bytestr.fit(ex, st, r); m = st.mem[r]; e = add(p.off, n)
    st.mem[r] = Arr(m.v, ite(window(m.v, p.off, e), app(nm, I, sub(m.v, p.off)), ite(eq(m.v, e), IC(0), m.body)))
    return n
def c_sprintf(ex, f, it, st, a):
    ps = text(ex, st, textio.pieces(ex, st, a[1], a[2:], it.line), it.line); n = put(ex, st, bytestr.one(st, a[0], 'sprintf'), ps, it.line, 'sprintf')
    if it.res is not None: st.env[it.res] = n
    return st
def c_snprintf(ex, f, it, st, a):
    ps = text(ex, st, textio.pieces(ex, st, a[2], a[3:], it.line), it.line); n = ROPES[mkrope(ps)][1]
    if not prove(st.facts(), lt(n, a[1])): raise Unsupported('snprintf that may cut the text')
    put(ex, st, bytestr.one(st, a[0], 'snprintf'), ps, it.line, 'snprintf')
    if it.res is not None: st.env[it.res] = n
    return st
CONTRACTS = dict(bytestr.CONTRACTS); CONTRACTS.update(strstr=c_strstr, strncmp=c_strncmp, strlen=c_strlen, sprintf=c_sprintf, snprintf=c_snprintf)
for _n in bytestr.NUMBERS: CONTRACTS[_n] = number(_n, 'strtou' not in _n)
