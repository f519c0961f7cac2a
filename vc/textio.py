"""printf-style text: the pieces a format and its arguments produce."""
import re
from terms import *
import terms as tm
import cstr, heap
from execu import *
from execu import Unsupported

SPEC = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcsfFeEgGaAp%n])')
def pieces(ex, st, fmt, args, line):
    """[('lit', bytes) | ('int', T, spec) | ('flt', T, spec) | ('str', pointer, spec) | ('chr', T, spec)]"""
    by = cstr.conc(fmt) if isinstance(fmt, Ptr) and fmt.base is not None else None
    if by is None: raise Unsupported('format string that is not a constant')
    out, i, k, args = [], 0, 0, list(args)
    def take():
        if not args:
            ex.oblige(st, line, 'call', FALSE, 'format: an argument for every conversion'); return IC(0)
        return args.pop(0)
    while i < len(by):
        j = by.find(b'%', i)
        if j < 0: j = len(by)
        if j > i: out.append(('lit', by[i:j])); i = j; continue
        m = SPEC.match(by, i)
        if not m: ex.oblige(st, line, 'call', FALSE, 'format: conversion at %r' % by[i:i + 8]); return out
        i = m.end(); fl, w, p, ln, cv = m.groups()
        if cv == b'%': out.append(('lit', b'%')); continue
        star = take() if w == b'*' else None
        if p == b'*': take()
        v = take(); spec = dict(w=star, flags=fl, width=w, prec=p, len=ln, conv=cv)
        kind = 'str' if cv == b's' else 'chr' if cv == b'c' else 'flt' if cv in b'fFeEgGaA' else 'ptr' if cv in b'pn' else 'int'
        isptr = isinstance(v, (Ptr, PIte))
        ok = isptr if kind in ('str', 'ptr') else isinstance(v, T) and v.sort == (R if kind == 'flt' else I)
        if kind == 'ptr' and cv == b'n': ok = False
        if not ok: ex.oblige(st, line, 'call', FALSE, 'format: type of the argument of %s' % m.group(0).decode())
        if kind == 'str' and isptr:
            lim = p is not None
            for c, q in heap.feasible(st, v):
                lit = cstr.conc(q) if q.base is not None and not isinstance(q.base, Fn) else None
                if q.base is None: ex.oblige(st, line, 'null', not_(c), 'format: null string')
            la = heap.feasible(st, v)
            if len(la) == 1 and la[0][1].base is not None and cstr.conc(la[0][1]) is not None and p is None and w is None: out.append(('lit', cstr.conc(la[0][1]))); continue
        out.append((kind, v, spec))
    merged = []
    for x in out:
        if merged and x[0] == 'lit' and merged[-1][0] == 'lit': merged[-1] = ('lit', merged[-1][1] + x[1])
        elif x != ('lit', b''): merged.append(x)
    return merged
