"""The logger (C22): text written is followed by a monitor; file content is an arbitrary character sequence."""
from harness import *
import steps, heap, cstr, textio
from steps import StepLoop
from nets import FnList
from layout import layout

SRC = ['src/logger.c', INLINES]
TYPES = ['epoch_count', 'filename', 'no_stdout']
WRITERS = ['fprintf', 'printf', 'fputs', 'fputc', 'putc', 'putchar', 'puts', 'fwrite', 'vfprintf']

class Stream:
    """an open text stream; st.ghost[(self, k)] for k in mode, match, idx, records, open"""
    def __init__(self, name): self.name = name; self.reg = Region(name, 'cells', None, align=16); self.reg.handler = self; self.reg.stream = self
    def get(self, st, k): return st.ghost.get((self, k), IC(0))
    def set(self, st, k, v): st.ghost[(self, k)] = v if isinstance(v, T) else IC(v)
    def load(self, ex, st, ty, p, line): raise Unsupported('access to a stream')
    store = load

def isp(p, base): return isinstance(p, Ptr) and p.base is base and p.off is IC(0)
def value(st, t, n):
    """the constant in 0..n-1 the term equals"""
    if t.op == 'const': return int(t.args[0])
    for i in range(n):
        if prove(st.facts(), eq(t, IC(i))): return i
    raise Unsupported('the stage of a record is not decided')

# stages of a record
START, TEXT, EPOCH, AFTER, ITEM, VAL, NAME, NUM = range(8)
PAT = b'Epoch '
class Monitor:
    def __init__(self, c, epoch, M, hv, results, namefn): self.c, self.epoch, self.M, self.hv, self.results, self.namefn = c, epoch, M, hv, results, namefn
    def total(self): return mul(IC(2), self.M) if self.hv else self.M
    def emit(self, ex, st, S, ps, line):
        ob = lambda g, d: ex.oblige(st, line, 'call', g, S.name + ': ' + d)
        for p in ps:
            mode = value(st, S.get(st, 'mode'), 8); idx = S.get(st, 'idx')
            if p[0] == 'chr' and p[1].op == 'const': p = ('lit', bytes([int(p[1].args[0]) & 255]))
            if p[0] == 'lit': self.lit(ex, st, S, p[1], line); continue
            if mode in (START, TEXT):
                S.set(st, 'mode', TEXT); S.set(st, 'match', 0)      # time and date
            elif mode == EPOCH:
                ob(TRUE if p[0] == 'int' and p[2]['conv'] in b'diu' and b'0' not in p[2]['flags'] or p[0] == 'int' and p[2]['conv'] in b'diu' else FALSE, 'the epoch number follows "Epoch "')
                if p[0] == 'int': ex.oblige_eq(st, line, 'call', p[1], self.epoch, S.name + ': epoch number of the record')
                S.set(st, 'mode', AFTER); S.set(st, 'idx', 0)
            elif mode in (ITEM, VAL):
                self.valmark(ex, st, S, mode, idx, line)
                if p[0] == 'str':
                    la = heap.feasible(st, p[1]); q = la[0][1] if len(la) == 1 else None
                    # the "val_" prefix as an argument
                    lits = [cstr.conc(x) if x.base is not None and not isinstance(x.base, Fn) else None for _, x in la]
                    if all(x in (b'val_', b'') for x in lits):
                        for (cnd, _), x in zip(la, lits): ob(implies(cnd, ge(idx, self.M) if x else lt(idx, self.M)), '"val_" marks the validation metrics')
                        S.set(st, 'marked', 1); continue
                    ok = q is not None and q.base is self.namefn
                    ob(TRUE if ok else FALSE, 'the name of a metric comes next')
                    if ok: ex.oblige_eq(st, line, 'call', q.off, ite(lt(idx, self.M), idx, sub(idx, self.M)), S.name + ': names in the order of the metrics')
                    if value(st, S.get(st, 'marked'), 2) == 0: ob(eq(ge_(idx, self.M), IC(1 if mode == VAL else 0)), '"val_" marks the validation metrics')
                else: ob(FALSE, 'the name of a metric comes next')
                S.set(st, 'mode', NAME); S.set(st, 'marked', 0)
            elif mode == NUM:
                ob(lt(idx, self.total()), 'one value for each metric')
                ob(TRUE if p[0] == 'flt' else FALSE, 'the value of the metric comes next')
                if p[0] == 'flt':
                    s2 = st.fork(); s2.assume(lt(idx, self.total()))
                    ex.oblige_eq(s2, line, 'call', p[1], st.mem[self.results].at(idx), S.name + ': value of each metric')
                S.set(st, 'mode', AFTER); S.set(st, 'idx', add(idx, IC(1)))
            else: ob(FALSE, 'text of a record (a value at stage %d)' % mode)
    def valmark(self, ex, st, S, mode, idx, line): pass
    def lit(self, ex, st, S, by, line):
        ob = lambda g, d: ex.oblige(st, line, 'call', g, S.name + ': ' + d)
        i = 0
        while i < len(by):
            mode = value(st, S.get(st, 'mode'), 8); idx = S.get(st, 'idx'); ch = by[i:i + 1]
            if mode in (START, TEXT):
                ob(TRUE if ch != b'\n' else FALSE, 'a record is one line')
                S.set(st, 'mode', TEXT)
                m = value(st, S.get(st, 'match'), 7); m = m + 1 if PAT[m:m + 1] == ch else 1 if ch == b'E' else 0
                S.set(st, 'match', m)
                if m == len(PAT): S.set(st, 'mode', EPOCH); S.set(st, 'match', 0)
                i += 1
            elif mode == EPOCH:
                if ch not in b' \t': ob(FALSE, 'the epoch number follows "Epoch "'); S.set(st, 'mode', TEXT)
                i += 1
            elif ch == b'\n':
                ob(TRUE if mode in (AFTER, ITEM) else FALSE, 'a record is complete')
                ex.oblige_eq(st, line, 'call', idx, self.total(), S.name + ': a record holds every metric')
                S.set(st, 'mode', START); S.set(st, 'idx', 0); S.set(st, 'records', add(S.get(st, 'records'), IC(1))); i += 1
            elif mode in (AFTER, ITEM):
                if ch in b' \t,;': S.set(st, 'mode', ITEM); i += 1
                elif mode == ITEM and by[i:i + 4] == b'val_': S.set(st, 'mode', VAL); i += 4
                else: ob(FALSE, 'text of a record (%r after a value)' % by[i:i + 8]); return
            elif mode == NAME:
                if ch in b' \t': i += 1
                else:
                    ob(TRUE if ch in b':=' else FALSE, 'name and value are separated'); S.set(st, 'mode', NUM); i += 1
            elif mode == NUM and ch in b' \t': i += 1
            else: ob(FALSE, 'text of a record (%r at stage %d)' % (by[i:i + 8], mode)); return
    def contracts(self, streams, stdoutreg):
        def stream(ex, st, p, line):
            la = heap.feasible(st, p)
            if len(la) == 1 and getattr(la[0][1].base, 'stream', None) in streams and la[0][1].off is IC(0):
                S = la[0][1].base.stream
                if S.name != 'stdout': ex.oblige_eq(st, line, 'call', S.get(st, 'open'), IC(1), 'the log file is open when it is written')
                return S
            if len(la) == 1 and getattr(la[0][1].base, 'stderr', False): return None
            ex.oblige(st, line, 'null', FALSE, 'text is written to an open stream'); return None
        def out(sidx, fmt):
            def h(ex, f, it, st, a):
                S = stream(ex, st, a[sidx] if sidx is not None else Ptr(stdoutreg, 0), it.line)
                if it.res is not None: st.env[it.res] = fresh('ioret', I)
                if S is not None: self.emit(ex, st, S, fmt(ex, st, a, it.line), it.line)
                return st
            return h
        one = lambda k, nl: lambda ex, st, a, line: textio.pieces(ex, st, Ptr(cstr.litregion(ex, st, '%s' + nl), 0), [a[k]], line)
        chp = lambda ex, st, a, line: [('chr', a[0], None)]
        return dict(fprintf=out(0, lambda ex, st, a, line: textio.pieces(ex, st, a[1], a[2:], line)), printf=out(None, lambda ex, st, a, line: textio.pieces(ex, st, a[0], a[1:], line)),
                    fputs=out(1, one(0, '')), puts=out(None, one(0, '\n')), fputc=out(1, chp), putc=out(1, chp), putchar=out(None, chp))

def ge_(a, b): return ite(ge(a, b), IC(1), IC(0))

@contract('logger_callback_run', {'C22': None, 'C03': SAFETY, 'C14': ('write', 'bounds')}, ['nosimd'], functions=['logger_callback_run', 'write_record'])
def run(cfg):
    out = []
    for hv in (0, 1):
      for hasfile in (False, True):
        c = Ctx(cfg, SRC); ex = c.ex
        L = layout('logger.c', 'struct _logger_t', TYPES, cfg); LO = layout('optimizer.h', 'optimizer_t', ['metrics'], cfg)
        M = c.int('M', 0, INT_MAX // 16); e0 = c.int('epoch', 0, INT_MAX - 1); quiet = c.int('no_stdout', 0, 1)
        res = c.array('results', mul(IC(1 + hv), M), 4, False)
        fns = FnList(c, 'metric_fn', M)
        opt = Region('opt', 'cells', IC(LO['sizeof']), writable=False, align=16); c.st.mem[opt] = {LO['metrics']: (8, Ptr(fns.reg, 0))}
        log = Region('log', 'cells', IC(L['sizeof']), align=16)
        fname = cstr.symregion(ex, c.st, 'the_filename')
        c.st.mem[log] = {L['epoch_count']: (4, e0), L['filename']: (8, Ptr(fname, 0) if hasfile else NULL), L['no_stdout']: (1, quiet)}
        nm = Region('metric_name', 'cells', None, writable=False); nm.es = 4096; nm.stepped = True; c.st.mem[nm] = {}
        class HN:
            def load(self, ex, st, ty, p, line): raise Unsupported('a name is read character by character')
            store = load
        nm.handler = HN()
        mon = Monitor(c, e0, M, hv, res, None); namefn = mon.namefn = nm
        so, fi = Stream('stdout'), Stream('log file')
        c.st.mem[so.reg] = {}; c.st.mem[fi.reg] = {}
        def getname(ex, f, it, st, a):
            la = heap.feasible(st, a[0])
            ok = len(la) == 1 and la[0][1].base is fns.fn
            if ok:
                st.env[it.res] = Ptr(nm, la[0][1].off)
            else: raise Unsupported('name of %s' % (a[0],))
            return st
        canopen = var('can_open', B)
        def fopen(ex, f, it, st, a):
            ex.oblige(st, it.line, 'call', TRUE if hasfile and isp(a[0], fname) else FALSE, 'the log file is the one of the settings')
            mode = cstr.conc(a[1]) if isinstance(a[1], Ptr) and a[1].base is not None else None
            ex.oblige(st, it.line, 'call', TRUE if mode in (b'a', b'a+', b'at', b'ab') else FALSE, 'the log file is opened for appending')
            ex.oblige_eq(st, it.line, 'call', fi.get(st, 'open'), IC(0), 'the log file is opened once')
            fi.set(st, 'open', ite(canopen, IC(1), IC(0)))
            st.env[it.res] = PIte([(canopen, Ptr(fi.reg, 0)), (TRUE, NULL)]); return st
        def fclose(ex, f, it, st, a):
            la = heap.feasible(st, a[0])
            ex.oblige(st, it.line, 'call', TRUE if len(la) == 1 and isp(la[0][1], fi.reg) else FALSE, 'the log file is closed')
            ex.oblige_eq(st, it.line, 'call', fi.get(st, 'open'), IC(1), 'an open file is closed')
            fi.set(st, 'open', 0)
            if it.res is not None: st.env[it.res] = fresh('ioret', I)
            return st
        def clock(ex, f, it, st, a):
            v = fresh('time', I)
            if len(a) and isinstance(a[0], Ptr) and a[0].base is not None: ex.store(st, ('int', 64), v, a[0], 8, it.line)
            if it.res is not None: st.env[it.res] = v
            return st
        tms = Region('tm', 'cells', IC(56), writable=True, align=8); c.st.mem[tms] = {4 * i: (4, c.int('tm%d' % i, 0, 60 if i < 3 else 1000)) for i in range(9)}
        ltime = lambda ex, f, it, st, a: (st.env.__setitem__(it.res, Ptr(tms, 0)), st)[1]
        ex.contracts = dict(get_metric_name=getname, fopen=fopen, fclose=fclose, time=clock, localtime=ltime)
        ex.contracts.update(mon.contracts([so, fi], so.reg))
        er = Region('stderr', 'cells', None); er.stderr = True; c.st.mem[er] = {}
        ex.extern = {'stdout': Ptr(so.reg, 0), 'stderr': Ptr(er, 0)}
        # inside a loop: some number of values was written, at the stage reached before the loop
        base = {}
        opened = lambda st: [S for S in (so, fi) if S.get(st, 'mode') is not IC(0) and not prove(st.facts(), eq(S.get(st, 'mode'), IC(0)))]
        def havoc(ex, st):
            g = fresh('g', I); st.assume(and_(ge(g, IC(0)), lt(g, IC(2 ** 40)))); base['k'] = g
            for S in opened(st): base[S] = (S.get(st, 'mode'), S.get(st, 'idx')); S.set(st, 'idx', add(base[S][1], g))
        def entry(ex, st, line): pass
        def step(ex, st, line):
            for S in opened(st):
                mo, i0 = base[S]
                ex.oblige_eq(st, line, 'call', S.get(st, 'mode'), mo, S.name + ': the same stage after each metric')
                ex.oblige_eq(st, line, 'call', S.get(st, 'idx'), add(i0, add(base['k'], IC(1))), S.name + ': one metric per round')
        def cur(st):
            """values written since the loop was entered"""
            o = opened(st); i = o[0].get(st, 'idx') if o else IC(0)
            return sub(i, base[o[0]][1]) if o and 'k' in base else IC(0)
        def cands(ex, st): return [cur(st), opened(st)[0].get(st, 'idx') if opened(st) else IC(0)]
        hk = StepLoop(WRITERS, {}, havoc, entry, step, cands, marks=[M, sub(M, IC(1)), IC(hv)]); hk.bound_cands = True; hk.begin = lambda st: base.clear(); ex.loop_hooks = [hk]
        c.call('logger_callback_run', log, opt, res, IC(hv))
        st = c.st
        c.post_eq(so.get(st, 'records'), ite(eq(quiet, IC(0)), IC(1), IC(0)), 'one record on standard output unless it is switched off')
        c.post_eq(fi.get(st, 'records'), ite(canopen, IC(1), IC(0)) if hasfile else IC(0), 'one record is appended to the log file')
        for S in (so, fi): c.post_eq(S.get(st, 'mode'), IC(0), S.name + ': the record is complete')
        c.post_eq(fi.get(st, 'open'), IC(0), 'the log file is closed')
        e = st.mem[log].get(L['epoch_count'])
        c.post_eq(e[1] if e and isinstance(e[1], T) else IC(-1), add(e0, IC(1)), 'the epoch number goes up by one')
        for f in ('filename', 'no_stdout'):
            x, y = st.mem[log].get(L[f]), {'no_stdout': quiet}.get(f)
            if y is not None: c.post_eq(x[1], y, 'settings are kept')
        c.satisfiable(); out.append(c)
    return out

class Scan:
    """an open input stream of arbitrary content.  ghost: m = characters of "Epoch " that end at the
    current position (6: a number is expected next), last = number after the last "Epoch " so far, or -1"""
    def __init__(self, S): self.S = S; self.v = None
    def step(self, st, m, ch):
        hit = FALSE
        for i in range(len(PAT)): hit = or_(hit, and_(eq(m, IC(i)), eq(ch, IC(PAT[i]))))
        return ite(hit, add(m, IC(1)), ite(eq(ch, IC(PAT[0])), IC(1), IC(0)))
    def stream(self, ex, st, p, line):
        la = heap.feasible(st, p); ok = len(la) == 1 and isp(la[0][1], self.S.reg)
        ex.oblige(st, line, 'null', TRUE if ok else FALSE, 'an open file is read')
        if ok: ex.oblige_eq(st, line, 'call', self.S.get(st, 'open'), IC(1), 'the file is open when it is read')
    def getc(self, ex, f, it, st, a):
        self.stream(ex, st, a[0], it.line)
        ch = fresh('ch', I); solve.RANGES[ch] = (Fraction(-1), Fraction(255)); st.assume(and_(ge(ch, IC(-1)), le(ch, IC(255))))
        m = self.S.get(st, 'm')
        ex.oblige(st, it.line, 'call', lt(m, IC(len(PAT))), 'the number after "Epoch " is read before the scan goes on')
        self.S.set(st, 'm', self.step(st, m, ch)); st.env[it.res] = ch; return st
    def fscanf(self, ex, f, it, st, a):
        self.stream(ex, st, a[0], it.line)
        fm = cstr.conc(a[1]); mt = re.fullmatch(rb'\s*%(\d*)[di]\s*', fm) if fm is not None else None
        if mt is None or b'i' in fm or len(a) != 3: raise Unsupported('fscanf with format %r' % fm)
        ex.oblige(st, it.line, 'call', TRUE if mt.group(1) and int(mt.group(1)) <= 9 else FALSE, 'the number read fits an int')
        m = self.S.get(st, 'm')
        ex.oblige_eq(st, it.line, 'call', m, IC(len(PAT)), 'a number is read right after "Epoch "')
        ok = fresh('matched', B); e = fresh('number', I); st.assume(and_(ge(e, IC(-99999999)), le(e, IC(999999999)))); solve.RANGES[e] = (Fraction(-99999999), Fraction(999999999))
        p = a[2]
        old = ex.load(st, ('int', 32), p, it.line) if p.base.stack and 0 in st.mem.get(p.base, {}) else fresh('unset', I)
        ex.store(st, ('int', 32), ite(ok, e, old), p, 4, it.line)
        self.S.set(st, 'm', 0); self.S.set(st, 'last', ite(and_(ok, ge(e, IC(0))), e, self.S.get(st, 'last')))
        r = fresh('items', I); st.assume(implies(not_(ok), and_(ge(r, IC(-1)), le(r, IC(0))))); st.env[it.res] = ite(ok, IC(1), r); return st
import re, solve
from fractions import Fraction

@contract('logger_new', {'C22': None, 'C14': None, 'C03': SAFETY}, ['nosimd'], functions=['logger_new', 'find_last_epoch_from_logfile', 'callback_free'])
def new(cfg):
    out = []
    for hasfile in (True, False):
      for fail in (False, True):
        c = Ctx(cfg, SRC); ex = c.ex
        L = layout('logger.c', 'struct _logger_t', TYPES, cfg); CL = layout('logger.h', 'logger_config', TYPES, cfg); CB = layout('callback.h', 'callback_t', ['callback_run'], cfg)
        e0 = c.int('epoch_count', 0, INT_MAX - 1); quiet = c.int('no_stdout', 0, 1)
        fname = cstr.symregion(ex, c.st, 'the_filename')
        cf = Region('config', 'cells', IC(CL['sizeof']), writable=False, align=16)
        c.st.mem[cf] = {CL['epoch_count']: (4, e0), CL['filename']: (8, Ptr(fname, 0) if hasfile else NULL), CL['no_stdout']: (1, quiet)}
        fi = Stream('log file'); c.st.mem[fi.reg] = {}; sc = Scan(fi); fi.set(c.st, 'last', -1)
        exists, canopen = var('file_exists', B), var('can_open', B)
        def access(ex, f, it, st, a):
            ex.oblige(st, it.line, 'call', TRUE if hasfile and isp(a[0], fname) else FALSE, 'the log file is the one of the settings')
            st.env[it.res] = ite(exists, IC(0), IC(-1)); return st
        def fopen(ex, f, it, st, a):
            ex.oblige(st, it.line, 'call', TRUE if hasfile and isp(a[0], fname) else FALSE, 'the log file is the one of the settings')
            mode = cstr.conc(a[1]) if isinstance(a[1], Ptr) and a[1].base is not None else None
            ex.oblige(st, it.line, 'call', TRUE if mode in (b'r', b'rb', b'rt') else FALSE, 'an existing log is opened for reading')
            ex.oblige_eq(st, it.line, 'call', fi.get(st, 'open'), IC(0), 'the log file is opened once')
            st.assume(implies(canopen, exists))
            fi.set(st, 'open', ite(canopen, IC(1), IC(0))); fi.set(st, 'seen', 1)
            st.env[it.res] = PIte([(canopen, Ptr(fi.reg, 0)), (TRUE, NULL)]); return st
        def fclose(ex, f, it, st, a):
            sc.stream(ex, st, a[0], it.line); fi.set(st, 'open', 0)
            if it.res is not None: st.env[it.res] = fresh('ioret', I)
            return st
        ex.contracts = dict(access=access, fopen=fopen, fclose=fclose, getc=sc.getc, fgetc=sc.getc, _IO_getc=sc.getc, fscanf=sc.fscanf, __isoc99_fscanf=sc.fscanf)
        inloop = {}
        def havoc(ex, st):
            g, l = fresh('m', I), fresh('last', I); solve.RANGES[g] = (Fraction(0), Fraction(5)); solve.RANGES[l] = (Fraction(-1), Fraction(999999999))
            st.assume(and_(ge(g, IC(0)), le(g, IC(5)))); st.assume(and_(ge(l, IC(-1)), le(l, IC(999999999)))); fi.set(st, 'm', g); fi.set(st, 'last', l)
        def entry(ex, st, line): ex.oblige(st, line, 'loop', and_(eq(fi.get(st, 'm'), IC(0)), eq(fi.get(st, 'last'), IC(-1))), 'the scan starts at the beginning of the file')
        def step(ex, st, line):
            ex.oblige(st, line, 'loop', and_(ge(fi.get(st, 'm'), IC(0)), le(fi.get(st, 'm'), IC(5))), 'the number after "Epoch " was read')
            ex.oblige(st, line, 'loop', and_(ge(fi.get(st, 'last'), IC(-1)), le(fi.get(st, 'last'), IC(999999999))), 'last number')
        hk = StepLoop(['getc', 'fgetc', '_IO_getc'], {}, havoc, entry, step, lambda ex, st: [fi.get(st, 'm'), fi.get(st, 'last')]); hk.bound_cands = True
        ex.loop_hooks = [hk]
        ex.heap_may_fail = fail
        rv = c.call('logger_new', cf); st = c.st
        c.post_eq(fi.get(st, 'open'), IC(0), 'the log file is closed')
        if fail:
            r = ex.heap[0]; s = st.fork(); s.assume(not_(r.ok))
            la = heap.feasible(s, rv)
            c.post(TRUE if len(la) == 1 and la[0][1].base is None and la[0][1].off is IC(0) else FALSE, 'no object when memory runs out', s)
            c.post_eq(IC(len(ex.heap)), IC(1), 'one block per object'); c.satisfiable(); out.append(c); continue
        ok = isinstance(rv, Ptr) and getattr(rv.base, 'heap', None) and rv.off is IC(0)
        c.post(TRUE if ok else FALSE, 'a new object is returned')
        if not ok: out.append(c); continue
        o = rv.base; m = st.mem[o]; cell = lambda f: m.get(L[f], (0, None))[1]
        x = cell('filename'); c.post(TRUE if x is not None and veq(x, Ptr(fname, 0) if hasfile else NULL) else FALSE, 'file name is taken over')
        x = cell('no_stdout'); c.post_eq(x, quiet, 'no_stdout is taken over') if isinstance(x, T) else c.post(FALSE, 'no_stdout is taken over')
        x = cell('epoch_count')
        want = ite(and_(eq(e0, IC(0)), canopen, exists), add(fi.get(st, 'last'), IC(1)), e0) if hasfile else e0
        st.assume(implies(canopen, exists))
        c.post_eq(x, want, 'epoch numbers continue after the last one in the log') if isinstance(x, T) else c.post(FALSE, 'epoch number')
        if hasfile: c.post(implies(and_(eq(e0, IC(0)), canopen, exists), eq(fi.get(st, 'seen'), IC(1))), 'an existing log is looked at')
        x = m.get(CB['callback_run'], (0, None))[1]
        c.post(TRUE if isinstance(x, Ptr) and isinstance(x.base, Fn) and x.base.name == 'logger_callback_run' else FALSE, 'the run function of the logger')
        c.call('callback_free', o)
        for r in ex.heap: c.post_eq(heap.live(c.st, r), IC(0), 'callback_free releases the object')
        c.satisfiable(); out.append(c)
    return out
