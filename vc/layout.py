"""Struct layouts of /repo's headers, taken from the compiler (offsetof) on every run."""
import os, re, subprocess, tempfile
import lower as lw

_cache = {}
def layout(header, typ, fields, cfg='avx512', pre=''):
    """-> dict field -> byte offset, plus 'sizeof'"""
    key = (header, typ, tuple(fields), cfg, pre)
    if key in _cache: return _cache[key]
    src = '%s\n#include <stddef.h>\n#include <string.h>\n#include <stdio.h>\n#include <stdint.h>\n%s\n' % (pre, '#include "%s"' % header)
    for i, f in enumerate(fields): src += 'unsigned long vc_off_%d = offsetof(%s, %s);\n' % (i, typ, f)
    src += 'unsigned long vc_size = sizeof(%s);\n' % typ
    cmd = [lw.CLANG, '-std=gnu99', '-O0', '-w', '-S', '-emit-llvm', '-o', '-', '-x', 'c'] + lw.CONFIGS[cfg] + lw.includes() + ['-']
    p = subprocess.run(cmd, input=src, capture_output=True, text=True)
    if p.returncode: raise lw.LowerError('layout of %s: %s' % (typ, p.stderr[-1200:]))
    out = {}
    for i, f in enumerate(fields): out[f] = int(re.search(r'@vc_off_%d = .*?i64 (\d+)' % i, p.stdout).group(1))
    out['sizeof'] = int(re.search(r'@vc_size = .*?i64 (\d+)', p.stdout).group(1))
    _cache[key] = out
    return out
