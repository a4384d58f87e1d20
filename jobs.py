import os, glob
TMP = None; REPO = '/repo'
COMMON_ASSUME = ['clang 18 front end and the vsym interpretation of its IR are trusted (spot-checked by native replays of sample paths)', 'z3 4.8.12 verdicts are trusted', 'bounds per job are listed under coverage.bounds; nothing outside them is claimed']
class Job:
    def __init__(s, name, mods, target='m32', flags=(), params=None, covers=(), time=60, j=1, split=64, over=(), steps=0, maxviol=4, mem=6000000, prio=0, qt=20000, aqt=60000, bound='', nonative=False, libflags=()):
        if not libflags:
            for m in mods:
                if m[0].startswith('srclib/'): libflags = m[1]; break
        s.libflags = libflags
        s.name, s.mods, s.target, s.flags, s.params, s.covers, s.time, s.j, s.split, s.over, s.steps, s.maxviol, s.mem, s.prio, s.qt, s.aqt, s.bound, s.nonative = name, mods, target, list(flags), dict(params or {}), list(covers), time, j, split, list(over), steps, maxviol, mem, prio, qt, aqt, bound, nonative
PROPS = {}
def prop(pid, **kw):
    def d(f): PROPS[pid] = dict(jobs=f, **kw); return f
    return d
# srclib sources are compiled with the repository's own headers and the macros smlrpp/smlrc predefine for 32-bit Linux
LIBF = ['-noinc', '-nostdinc', '-isystem@R/include', '-I@R/srclib', '-D__SMALLER_C__', '-D__SMALLER_C_32__', '-D__SMALLER_C_SCHAR__', '-D__SMALLER_C_SWCHAR__', '-D__SMALLER_C_WCHAR32__', '-D__SMALLER_PP__', '-D_LINUX', '-D__x86_64_not__', '-fsigned-char', '-Wno-everything']
def lib(*names, extra=()): return [('srclib/%s.c' % n, tuple(LIBF) + tuple(extra)) for n in names]
import re
def asmfree(name, keep=()):
    """copy of a srclib source in which every function whose body contains inline assembly is reduced to an external
    declaration (its body cannot be encoded; the harness supplies a model of the system service it performs)"""
    s = open(REPO + '/v0100/srclib/%s.c' % name, errors='replace').read()
    out, i = [], 0
    for m in re.finditer(r'(?m)^((?:static[ \t\n]+)?)((?:[A-Za-z_][\w \t*]*?[\s*]+)(\w+)\s*\(([^;{}]*?)\))\s*\n?\{', s):
        e = s.find('\n}', m.end()); 
        if e < 0 or m.start() < i: continue
        body = s[m.end():e]
        if re.search(r'\basm\s*\(', body): out += [s[i:m.start()], m.group(2), ';']; i = e + 2
    out.append(s[i:]); d = os.path.join(TMP or '/tmp', 'asmfree'); os.makedirs(d, exist_ok=True); p = os.path.join(d, name + '.c'); open(p, 'w').write(''.join(out)); return p
def V(n, *fl): return ('V:harness/' + n, ('-nostdinc', '-I@V/vinc', '-I@V/lib') + fl)
import importlib
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks', 'c_*.py'))):
    importlib.import_module('checks.' + os.path.basename(_f)[:-3])
