"""Linked lists of symbolic length: node k is the k-th node of the chain that starts at the given
pointer; the pointer past the last node is NULL.  Every node is a heap block of its own."""
from harness import *
from layout import layout
import execu, intrinsics, solve

STRIDE = 64
class Chain:
    """typ: struct; fields: {name: ('next'|Family, may_be_null)}"""
    def __init__(self, c, name, header, typ, fields, n, writable=True):
        self.c, self.name, self.n, self.fields = c, name, n, fields
        self.L = layout(header, typ, list(fields), c.cfg)
        if self.L['sizeof'] > STRIDE: raise Unsupported('list node of %d bytes' % self.L['sizeof'])
        self.reg = Region(name, 'cells', tm.scale(n, STRIDE), align=16, writable=writable)
        self.reg.es = STRIDE; self.reg.stepped = True; self.reg.handler = self; self.reg.nullat = tm.scale(n, STRIDE); self.reg.family = self
        c.st.mem[self.reg] = {}
        c.st.ghost[('wr', name)] = IC(0)
        self.writes = []          # (field, index, value, state) of every store executed with obligations on
        self.state = None
    def head(self): return Ptr(self.reg, IC(0))
    def index(self, off):
        d = pd(off); f = int(d.get((), 0)) % STRIDE; o = sub(off, IC(f))
        for m, k in pd(o).items():
            if k % STRIDE: raise Unsupported('offset %s into the list %s' % (pp(off)[:80], self.name))
        for nm in self.fields:
            if self.L[nm] == f: return tm.scale(o, Fraction(1, STRIDE)), nm
        raise Unsupported('field at offset %d of a node of %s' % (f, self.name))
    def load(self, ex, st, ty, p, line):
        k, nm = self.index(p.off)
        self.usable(ex, st, k, line)
        kind, mb = self.fields[nm]
        ov = st.ghost.get(('field', self.name, nm))
        if ov is not None:
            raise Unsupported('the list is read after it was changed')
        if kind == 'next': return Ptr(self.reg, tm.scale(add(k, IC(1)), STRIDE))
        if isinstance(kind, tuple) and kind[0] == 'int': return app('%s_%s' % (self.name, nm), I, k)
        q = Ptr(kind.reg, tm.scale(k, kind.reg.es))
        return PIte([(app('has_' + kind.name, B, k), q), (TRUE, NULL)]) if mb else q
    def store(self, ex, st, ty, v, p, line):
        k, nm = self.index(p.off); self.usable(ex, st, k, line)
        cnt = st.ghost.get(('wr', self.name)); st.ghost[('wr', self.name)] = add(cnt, IC(1))
        if not ex.silent: self.writes.append((nm, k, v, st.fork()))
    def usable(self, ex, st, k, line):
        if ('freed', self.name) in st.ghost:
            ex.oblige(st, line, 'heap', and_(eq(st.ghost[('freed', self.name)], IC(0)), ge(k, st.ghost[('prefix', self.name)])), 'node of %s is not used after its release' % self.name)
    def freed(self, ex, st, p, line, what):
        free_family(self, ex, st, p, line, what, STRIDE)

class Family:
    """blocks numbered by an index, one for each node"""
    def __init__(self, c, name, es=4096, may_free=True):
        self.c, self.name = c, name
        self.reg = Region(name, 'cells', None, align=16); self.reg.es = es; self.reg.stepped = True; self.reg.handler = self; self.reg.family = self
        c.st.mem[self.reg] = {}
    def load(self, ex, st, ty, p, line): raise Unsupported('access to %s' % self.name)
    def store(self, ex, st, ty, v, p, line): raise Unsupported('write to %s' % self.name)
    def freed(self, ex, st, p, line, what): free_family(self, ex, st, p, line, what, self.reg.es)

def free_family(self, ex, st, p, line, what, es):
    """one release event of block k in the current iteration"""
    d = pd(p.off)
    if any(c % es for c in d.values()): ex.oblige(st, line, 'heap', FALSE, '%s of %s, which is not the start of a block' % (what, self.name)); return
    k = tm.scale(p.off, Fraction(1, es))
    if ('freed', self.name) not in st.ghost:
        ex.oblige(st, line, 'heap', FALSE, '%s: %s is not released here' % (what, self.name)); return
    ex.oblige(st, line, 'heap', eq(k, st.ghost[('prefix', self.name)]), '%s: %s are released in order' % (what, self.name))
    ex.oblige(st, line, 'heap', eq(st.ghost[('freed', self.name)], IC(0)), '%s: %s is released only once' % (what, self.name))
    st.ghost[('freed', self.name)] = IC(1)
