from jobs import *
CC = ('-DNO_ANNOTATIONS', '-DPATH_PREFIX=""', '-DHOST_LINUX', '-Dmain=smlrc_main', '-nostdinc', '-I@V/vinc', '-I@V/lib', '-w')
def ccmods(h, *fl): return [V(h, '-I@V/harness', *fl), ('V:lib/vlibc.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib')), ('smlrc.c', CC + (('-DMIPS',) if '-DUSE_MIPS' in fl else ()))]
INT = 0x7f; PTR = 0xfff; ALLP = 0x7fff
B_EXPR = 'generated programs: every combination of the listed operators, operand types and placements; all operand values, initial registers and uninitialised stack symbolic'
def expr_jobs(tgts, q):
    r = []; T = 240 if q else 850
    def add(tg, nm, j=1, pr=0, **p):
        p['tgt'] = tg; r.append(Job('%s/%s' % (('32', '16', 'huge', 'unreal', 'mips')[tg], nm), ccmods('cc_expr.c', *(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=['defined'], time=T, j=j, prio=pr, bound=B_EXPR, qt=8000))
    for i, tg in enumerate(tgts):
        main = i == 0 or not q
        # one operator
        add(tg, 'A op B, all type pairs', shape=100, tm=INT, pm=1 if main else 2, rtm=1 << 5, j=2, pr=5)
        add(tg, 'A op B, all place pairs', shape=100, tm=PTR, rot=1, rt=12 if main else 4, rp=15, pm=ALLP, pr=4)
        add(tg, 'A op B, pointers', shape=100, tm=0xfa5, pm=1 if main else 4)
        add(tg, 'A op= B, all type pairs', shape=200, tm=PTR, pm=2 if main else 1, j=2, pr=5)
        add(tg, 'A op= B, all place pairs', shape=200, tm=INT, rot=1, rt=7 if main else 3, rp=15, pm=ALLP, pr=4)
        add(tg, 'op A', shape=300, tm=INT, pm=ALLP); add(tg, '++/--', shape=400, tm=PTR, pm=ALLP); add(tg, '++/-- unused', shape=400, tm=PTR, pm=ALLP, ctx=4)
        add(tg, 'casts', shape=600, tm=INT, pm=3 if main else 4, cm=PTR, rtm=INT, pr=2); add(tg, '&& ||', shape=700, tm=INT, pm=1, ctx=99, pr=2)
        add(tg, '?:', shape=5000, rot=1, rt=7, tm=INT, pm=ALLP, rp=7); add(tg, 'comparison as condition', shape=100, tm=INT, pm=1, om=0xfc00, ctx=1, j=1, pr=3)
        add(tg, 'A op constant', shape=109, tm=INT, pm=2 if i & 1 else 1, j=2, pr=5); add(tg, 'constant op A', shape=190, tm=INT, rot=1, rt=7 if main else 3, rp=1, pm=4, om=0xffff, pr=3); add(tg, 'A op= constant', shape=209, tm=INT, rot=1, rt=7, rp=2 if main else 1, pm=0x17, pr=3)
        add(tg, 'A op constant as condition', shape=109, tm=INT, rot=1, rt=7 if main else 3, rp=1, pm=1, om=0xff9f, ctx=1, pr=3); add(tg, 'pointer +- constant', shape=109, tm=0xf80, pm=5, om=3, rtm=1 << 7)
        # two operators
        add(tg, '(A op B) op C', shape=11000, tm=INT, pm=ALLP, rot=1, rt=7 if main else 2, rp=(2 if q else 15) if main else 1, j=2 if main else 1, pr=6)
        add(tg, 'A op (B op C)', shape=10100, tm=INT, pm=ALLP, rot=1, rt=7 if main else 2, rp=(2 if q else 15) if main else 1, j=2 if main else 1, pr=6)
        add(tg, 'A op= B op C', shape=20100, tm=INT, pm=ALLP, rot=1, rt=3 if main else 1, rp=3, j=2 if main else 1, am=0x7fe & ~0x18, om=0xffff & ~0x18, pr=6)
        add(tg, '(A op= B) op C', shape=12000, tm=INT, pm=ALLP, rot=1, rt=2, rp=2, am=0x627, om=0x7ff & ~0x18, pr=6) 
        add(tg, 'A op ++B', shape=1040, tm=INT, pm=ALLP, rot=1, rt=3, rp=4, pr=3) ; add(tg, 'A op -B', shape=1030, tm=INT, pm=7, rot=1, rt=4, rp=2, pr=3); add(tg, '(T)(A op B)', shape=6100, tm=INT, pm=1, rot=1, rt=4, rp=1, cm=INT, pr=3)
        add(tg, 'A op B ? C : D', shape=510000, tm=INT, pm=ALLP, rot=1, rt=3, rp=2); add(tg, 'A op B && C', shape=71000, tm=INT, pm=7, rot=1, rt=3, rp=2, ctx=99); add(tg, 'A = B ? C : D', shape=205000, tm=INT, pm=7, rot=1, rt=7, rp=2, am=0x7e3); add(tg, 'A, B op C', shape=80100, tm=INT, pm=3, rot=1, rt=2, rp=2)
        # three operators
        add(tg, '(A op B) op (C op D)', shape=1100100, tm=INT, pm=ALLP, rot=1, rt=2 if main else 1, rp=1, om=0x6d if q else 0xffff, j=2, pr=6)
        add(tg, 'returned directly', shape=100, tm=INT, pm=2, rot=1, rt=7, rp=1, ctx=2, rtm=INT); add(tg, 'initialiser', shape=100, tm=INT, pm=2, rot=1, rt=7, rp=1, ctx=3, rtm=INT)
        AD = 15 << 17; add(tg, 'addresses', shape=100, pm=AD | 1, tm=0x3a0, om=0xfc03, pr=2); add(tg, 'address casts', shape=60, pm=AD, tm=0x380, rtm=0x3a0, cm=0x3a0); add(tg, 'address truth', shape=30, pm=AD, tm=0x380, um=4); add(tg, 'address assigned', shape=200, pm=AD | 3, tm=0x380, am=1); add(tg, 'address selected', shape=5000, pm=AD | 2, tm=0x1a0, rot=1, rt=6, rp=7, rtm=0x180)
        add(tg, 'unsigned plain char', shape=100, tm=0x25, pm=5, uchar=1); add(tg, 'unsigned plain char casts', shape=600, tm=INT, pm=3, cm=INT, uchar=1)
        if not q:
            add(tg, 'A op B, types x places', shape=100, tm=PTR, pm=0x555, rtm=1 << 5, j=3, pr=8); add(tg, 'deep (A op B) op C', shape=11000, tm=INT, pm=1, j=4, pr=9, om=0xffff & ~0x18); add(tg, 'deep A op (B op C)', shape=10100, tm=INT, pm=ALLP, rot=1, rt=7, rp=15, j=4, pr=9)
            add(tg, '((A op B) op C) op D', shape=1110000, tm=INT, pm=ALLP, rot=1, rt=2, rp=2, j=4, pr=9, om=0xffff & ~0x18); add(tg, 'A op (B op (C op D))', shape=1010100, tm=INT, pm=ALLP, rot=1, rt=2, rp=2, j=4, pr=9, om=0xffff & ~0x18); add(tg, 'A op= all', shape=200, tm=PTR, pm=0x7ff, j=4, pr=8)
    return r
@prop('C03')
def c03(tier): return expr_jobs([0], tier == 'quick')
@prop('C04')
def c04(tier): return expr_jobs([1, 2, 3], tier == 'quick')

B_STMT = 'generated programs: every nesting of the statement kinds to the given depth with every leaf statement; values of all conditions and switch operands symbolic; up to lim side effects per run compared, after that the common prefix'
def stmt_jobs(tgts, q, lite=False):
    r = []; T = 240 if q else 850
    def add(tg, nm, j=1, pr=0, cov=('run',), **p):
        p['tgt'] = tg; r.append(Job('%s/%s' % (('32', '16', 'huge', 'unreal', 'mips')[tg], nm), ccmods('cc_stmt.c', *(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=list(cov), time=T, j=j, prio=pr, bound=B_STMT, qt=8000))
    for i, tg in enumerate(tgts):
        if lite and q: i = 1
        main = i == 0
        add(tg, 'one statement, all conditions', depth=0, conds=1, leafs=511 if main or not q else (0, 0x10f, 0x4a, 0x25)[i], lim=6 if not q else 4, j=2, pr=5)
        add(tg, 'two nested', depth=1, lim=(5 if not q else 4) if main else 3, kinds=255 if main or not q else (0, 0x15, 0x22, 0x4c)[i], j=4 if main else 2, pr=8)
        add(tg, 'switch, one label', mode=1, nl=1, pr=2, cov=('switch',)); add(tg, 'switch, two labels', mode=1, nl=2, brs=0 if main and not q else 3, tm=127 if not q else 0x24 if main else (0, 0x20, 4, 0x40)[i], j=2, pr=7, cov=('switch', 'rejected'))
        add(tg, 'label errors', mode=2, cov=('rejected', 'accepted'))
        if not q: add(tg, 'two nested, all conditions', depth=1, conds=1, lim=3, leafs=0x4f, j=4, pr=9); add(tg, 'three nested', depth=2, lim=3, kinds=0x7f, leafs=0xe, j=4, pr=9); add(tg, 'loops deep', depth=1, kinds=0x1c, lim=7, j=2, pr=6)
    return r
@prop('C06')
def c06(tier): return stmt_jobs([0, 1, 2, 3], tier == 'quick')

B_CALL = 'generated programs: calls with the listed number and mix of parameter types, callee forms, argument forms and uses of the result; every argument byte and returned byte symbolic'
STD = '-DSTDARG_H="@R/include/stdarg.h"'
def call_jobs(tgts, q):
    r = []; T = 240 if q else 850
    def add(tg, nm, j=1, pr=0, **p):
        p['tgt'] = tg; r.append(Job('%s/%s' % (('32', '16', 'huge', 'unreal', 'mips')[tg], nm), ccmods('cc_call.c', STD, *(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=['called'], time=T, j=j, prio=pr, bound=B_CALL, qt=20000))
    for tg in tgts:
        add(tg, 'recursion and indirection', tmpl=1); add(tg, 'no arguments', np=0, rt=-2); add(tg, 'one argument, all forms', np=1, rt=-2, callee=99, argf=99 if not q else 0, pr=5, j=2); add(tg, 'one argument, all uses', np=1, rt=-2, retu=99, pr=4, **({} if not q or tg == tgts[0] else dict(tm=(0, 0x153a5, 0xab70, 0x14d05, 0x153a5)[tg])))
        add(tg, 'two arguments', np=2, argf=1 if tg else 3, pr=2); add(tg, 'two arguments, all forms', np=2, rot=1, callee=99, argf=99, retu=99, rt=-3, pr=6, j=2)
        add(tg, 'argument conversions', np=1, conv=1, argf=99, tm=0xff); add(tg, 'two argument conversions', np=2, conv=1, tm=0x7f if not q or tg == tgts[0] else (0, 0x25, 0x1a, 0x46, 0x25)[tg], rot=1, callee=99, rt=-3, pr=5)
        for n in (3, 4, 6): add(tg, '%d arguments' % n, np=n, rot=1, callee=99, rt=-3, argf=99 if n < 6 else 3)
        add(tg, 'variadic', np=2, varg=1, rt=-3, callee=99, rot=int(q and tg != tgts[0])); add(tg, 'variadic, more', np=4, varg=1, rot=1, rt=-3, argf=99); add(tg, 'unsigned char', np=2, conv=1, uchar=1, rot=1, tm=0x7f, rt=-3)
        if not q: add(tg, 'three arguments, all types', np=3, rt=-1, j=4, pr=9); add(tg, 'all types, forms and uses', np=2, callee=99, retu=99, rt=-3, j=4, pr=9); add(tg, 'variadic, all types', np=3, varg=1, argf=99, j=4, pr=8)
    return r
@prop('C07')
def c07(tier): return call_jobs([0, 1, 2, 3], tier == 'quick')

B_CEXPR = 'constant expressions generated from symbolic literals (every value of the literal kinds octal, negated octal, unsigned-suffixed, unsigned by magnitude, sizeof), listed operator shapes and contexts'
def cexpr_jobs(tgts, q):
    r = []; T = 240 if q else 850
    def add(tg, nm, j=1, pr=0, qt_=8000, **p):
        p['tgt'] = tg; r.append(Job('%s/%s' % (('32', '16', 'huge', 'unreal', 'mips')[tg], nm), ccmods('cc_expr.c', *(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=['defined'], time=T, j=j, prio=pr, bound=B_CEXPR, qt=qt_, aqt=90000))
    ND = 0xffe3
    for i, tg in enumerate(tgts):
        add(tg, 'A op B initializer', symk=63, shape=199, ctx=6, digs=2 if not q else 1 if i == 0 else 0, om=ND, j=2, pr=5)
        add(tg, 'A * B', qt_=60000, symk=15, shape=199, ctx=6, om=4, j=2 if i == 0 else 1, pr=9); add(tg, 'A / B, A % B', digs=0 if i == 0 else 1, symk=47, shape=199, ctx=6, om=0x18, j=3 if i == 0 else 1, pr=9); add(tg, 'sizeof, mul div', symk=24 if q else 31, shape=199, ctx=13, om=0x1c if not q else 4)
        for c in (7, 8, 9, 10, 11, 12, 13): add(tg, 'A op B context %d' % c, symk=15 if not q or c != 8 else 9, shape=199, ctx=c, om=(0x00e3, 0xffe0, 0xfc00, 0x03e3, 0x7fe3, 0xffe3, 0x0de0)[c - 7] if q else ND, pr=3)
        add(tg, 'op A', symk=47, shape=39, ctx=6, digs=3, rtm=0x7f); add(tg, 'op A in code', symk=15, shape=39, ctx=11, digs=3); add(tg, 'casts', symk=63, shape=69, ctx=6, cm=0x7f, rtm=0x7f); add(tg, 'casts in code', symk=15, shape=69, ctx=11, cm=0x7f); add(tg, 'casts in case labels', symk=15, shape=69, ctx=8, cm=0x7f)
        add(tg, '?:', symk=15, shape=5999, ctx=6); add(tg, '?: enum', symk=15, shape=5999, ctx=7); add(tg, '?: code', symk=15, shape=5999, ctx=11); add(tg, '&& ||', symk=15, shape=799, ctx=6, digs=1); add(tg, '&& || code', symk=15, shape=799, ctx=11, digs=0); add(tg, '&& || label', symk=15, shape=799, ctx=9)
        for c in (6, 7, 8, 10, 11, 13): add(tg, 'literal context %d' % c, symk=15, shape=9, ctx=c, digs=3, rtm=0x7f if c in (6, 10, 13) else 32)
        add(tg, '(A op B) op C', symk=9, shape=11999, ctx=6, om=ND if not q else 0xe6e3, j=2, pr=6); add(tg, 'A op (B op C)', symk=9, shape=19199, ctx=6, om=ND if not q else 0xd5e3, j=2, pr=6)
        add(tg, 'op (A op B)', symk=9, shape=3199, ctx=6, om=ND, rtm=32 + 64); add(tg, '(A op B) ? C : D', symk=9, shape=519999, ctx=6, rtm=32) if not q else None; add(tg, '(T)(A op B)', symk=9, shape=6199, ctx=6, om=ND if not q else 0xe3, cm=0x7f); add(tg, '(T)A op (T)B', symk=9, shape=16969, ctx=6, om=ND if not q else 0x8c63, cm=0x2f if q else 0x7f, pr=4, j=2)
        add(tg, 'A op B && C', symk=9, shape=71999, ctx=12, om=ND if not q else 0xfc00)
        # constants inside run-time expressions
        add(tg, 'a op (B op C) partial folding', symk=9, shape=10199, tm=0x7f, rot=1, rt=7, rp=1, pm=1, om=0x23 if q else ND, pr=4); add(tg, '(a op B) op C partial folding', symk=9, shape=11099, tm=0x7f, rot=1, rt=7, rp=1, pm=1, om=0x3e3 if q else ND, pr=4); add(tg, 'a op B', symk=15, shape=109, tm=0x7f, pm=1, om=ND, pr=2)
        if not q: add(tg, 'deep ((A op B) op C) op D', symk=1, shape=1119999, ctx=6, om=0x7e3, j=4, pr=9); add(tg, '(A op B) op (C op D)', symk=9, shape=1199199, ctx=6, om=0xff63, j=4, pr=9); add(tg, 'mul div nested', symk=1, shape=11999, ctx=6, om=0x1f, j=4, pr=9)
    return r
@prop('C01')
def c01(tier): return cexpr_jobs([0, 1], tier == 'quick')

def lit_jobs(q, which):
    r = []; T = 240 if q else 850
    def add(tg, nm, cov, j=1, **p):
        p['tgt'] = tg; r.append(Job('%s/%s' % (('32', '16', 'huge', 'unreal', 'mips')[tg], nm), ccmods('cc_lit.c'), target='x64', params=p, covers=cov, time=T, j=j, bound='literals of the listed lengths with every character symbolic within its class', qt=8000))
    for tg in (0, 1):
        if which == 11:
            add(tg, 'integer literals', ['literal', 'rejected'], mode=0, maxd=12, j=4 if tg == 0 else 2); add(tg, 'malformed numbers', ['rejected'], mode=1)
        else:
            for uc in (0, 1): add(tg, 'character constants%s' % (', unsigned' if uc else ''), ['char', 'rejected'], mode=2, uchar=uc)
            add(tg, 'strings of one element, all forms', ['string', 'rejected'], mode=3, pieces=1, j=4 if tg == 0 else 2); add(tg, 'strings of three elements', ['string'], mode=3, pieces=3, few=2, j=2); add(tg, 'strings of two elements', ['string', 'rejected'], mode=3, pieces=2, few=1); add(tg, 'unterminated, mixed and other fixed forms', ['accepted', 'rejected'], mode=4)
            if not q: add(tg, 'strings of two elements, all forms', ['string'], mode=3, pieces=2, j=8); add(tg, 'strings of four elements', ['string'], mode=3, pieces=4, few=2, j=4)
    return r
@prop('C10')
def c10(tier): return lit_jobs(tier == 'quick', 10)
@prop('C11')
def c11(tier): return lit_jobs(tier == 'quick', 11)

B_INIT = 'generated declarations: object types up to the given nesting depth over the listed kinds and scalar types, with every brace, elision, partial-list and string form selected by the parameters; one initializer value symbolic, storage duration and #pragma pack as listed'
def init_jobs(tgts, q):
    r = []; T = 240 if q else 850
    def add(tg, nm, j=1, pr=0, **p):
        p['tgt'] = tg; p['sm'] = p.get('sm', 0x7f) & (~0x1000 if tg == 1 else ~0)
        r.append(Job('%s/%s' % (('32', '16', 'huge', 'unreal', 'mips')[tg], nm), ccmods('cc_init.c', *(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=['checked'], time=T, j=j, prio=pr, bound=B_INIT, qt=8000))
    for tg in tgts:
        full = tg == 0 or not q
        S = (0x1fff | 3 << 15) & (~0 if tg != 1 else ~(1 << 12)); I = 0x7f
        add(tg, 'scalars', depth=0, km=1, sm=S, rt=15, rv=9, place=9, j=2, pr=3)
        add(tg, 'one level, partial', depth=1, bf=0, km=0x1ff, rk=4, sm=S, rt=3 if full else 1, place=0, pr=5, j=2 if full else 1); add(tg, 'one level, braces', depth=1, stops=0, km=0x1ff, rk=4, sm=S, rt=3 if full else 2, rv=1 if q else 3, place=9, j=2, pr=6)
        add(tg, 'one level, mixed types', depth=1, stops=0, bf=0, km=0x98 if q else 0x9e, rk=1, sm=S, rt=16, rv=5, place=9 if not q else 0, j=2, pr=4)
        add(tg, 'strings', depth=1, km=0x140, rk=1, sm=I, frk=1, rt=2, rv=1, place=9, pr=2); add(tg, 'arrays of strings', depth=1, km=0x346 if full else 0x342, stops=0, bf=0, frk=0, rk=8, sm=0x1025, rt=1, rv=5, pr=2, place=0)
        add(tg, 'inferred bounds', depth=1, km=0x201, rk=1, sm=S, rt=5, rv=3 if full else 1, place=9, j=2, pr=4); add(tg, 'inferred bounds, nested', depth=2, km=0x21e if full else 0x20e, rk=4, bf=0, sm=0x1025, rt=1, rv=1, place=0, j=2 if full else 1, pr=6)
        add(tg, 'two levels, braces', depth=2, km=0xbf, rk=8 if full else 4, stops=0, sm=0x75 if tg != 1 else 0x75, rt=2, rv=1, j=2, pr=5); add(tg, 'two levels, partial', depth=2, km=0xbf, rk=8 if full else 4, bf=0, sm=0x75, rt=2, rv=1, place=3 if not full else 9, j=2, pr=6)
        add(tg, 'packed', depth=1, km=0xbf, rk=4, pack=9, rt=3, rv=1, sm=0x1ff, stops=0, bf=0, j=1, pr=3); add(tg, 'packed, nested', depth=2, km=0xbb, rk=6, pack=9, rt=3, rv=1, sm=0x1ff, stops=0, bf=0, j=1, pr=3)
        add(tg, 'uninitialized', depth=2, km=0xbe, rk=8, noinit=1, rt=6, sm=S, place=9, pr=1); add(tg, 'three levels', depth=3, km=0xba, rk=24 if full else 8, stops=0, bf=0, rt=2, rv=2, sm=S, pr=4)
        if not q: add(tg, 'two levels, all forms', depth=2, km=0x1bf, rk=8, sm=S, rt=5, rv=2, j=4, pr=9); add(tg, 'three levels, partial', depth=3, km=0xbf, rk=12, bf=0, sm=S, rt=3, rv=2, j=4, pr=8); add(tg, 'all symbolic positions', depth=1, km=0x1f, rk=4, sym=9, stops=0, bf=0, sm=I, rt=7, rv=2, j=2, pr=7)
    return r
@prop('C08')
def c08(tier): return init_jobs([0, 1, 2], tier == 'quick')

# ---- floats
CCNI = CC + ('-fno-inline',)
def fmods(*fl): return [V('cc_expr.c', '-I@V/harness', *fl), ('V:lib/vlibc.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib')), ('smlrc.c', CCNI + (('-DMIPS',) if '-DUSE_MIPS' in fl else ()))]
D2F = [('V:harness/d2f_stub.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib'))]
B_FC = 'constant expressions over symbolic float literals (every non-negative finite value and infinity; the decimal conversion is replaced by a stub here and checked by the literal jobs) and symbolic integer literals'
B_FL = 'literals with the listed number of symbolic digits over decimal exponents -10..10 in every written form; exact midpoints between neighbouring floats over the whole range with symbolic digits at and after the end, up to 112 significant digits'
FLT = 1 << 12
@prop('C02')
def c02(tier):
    q = tier == 'quick'; r = []; T = 240 if q else 850
    def lit(nm, j=1, pr=0, **p): r.append(Job('lit/' + nm, ccmods('cc_flit.c'), target='x64', params=p, covers=['literal'], time=T, j=j, prio=pr, bound=B_FL, qt=20000))
    def add(nm, j=1, pr=0, tg=0, qt_=20000, **p): p['tgt'] = tg; r.append(Job('fold%s/%s' % ('' if tg == 0 else str(tg), nm), fmods(*(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=['defined'], time=T, j=j, prio=pr, bound=B_FC, qt=qt_, aqt=90000, over=D2F))
    lit('midpoints', j=2, pr=2, mode=1); lit('limits', mode=2); lit('two digits, all forms', mode=0, nd=2, lo=3, hi=3, j=2, pr=5); lit('three digits', mode=0, nd=3, lo=10 if not q else 5, hi=10, forms=1, j=4, pr=9); lit('eight digits', mode=0, nd=8, conc=6, lo=10 if not q else 6, hi=10, forms=1, pr=6); lit('nine digits', mode=0, nd=9, conc=8, lo=10, hi=8, forms=1)
    if not q: lit('four digits', mode=0, nd=4, lo=10, hi=10, forms=1, j=8, pr=9); lit('three digits, all forms', mode=0, nd=3, lo=10, hi=10, j=8, pr=9); lit('eight digits, three symbolic', mode=0, nd=8, conc=5, lo=10, hi=10, forms=1, j=4, pr=8)
    OPS = 0xfc0f
    add('A op B', symk=64, shape=199, ctx=6, rtm=FLT, om=OPS, pr=3); add('int op B', symk=65, shape=199, ctx=6, rtm=FLT, om=0xc07 if q else OPS, pr=3); add('unsigned op B', symk=72, shape=199, ctx=6, rtm=FLT, om=0x303 if q else OPS, pr=3); add('compare', symk=64, shape=199, ctx=6, rtm=32, om=0xfc00); add('A op B in code', symk=64, shape=199, ctx=11, om=0xfc00); add('A op B condition', symk=64, shape=199, ctx=12, om=OPS if not q else 0xfc03); add('aggregate', symk=64, shape=199, ctx=13, rtm=FLT, om=3); add('static local', symk=64, shape=199, ctx=10, rtm=FLT, om=5)
    add('op A', symk=64, shape=39, ctx=6, rtm=0x107f); add('casts', symk=79, shape=69, ctx=6, rtm=0x107f, cm=0x107f, pr=2); add('casts in code', symk=79, shape=69, ctx=11, cm=0x107f); add('?:', symk=73, shape=5999, ctx=6, rtm=FLT | 32); add('&& ||', symk=64, shape=799, ctx=11, digs=1); add('literals', symk=64, shape=9, ctx=6, rtm=0x107f); add('(A op B) op C', symk=64, shape=11999, ctx=6, rtm=FLT, om=3, pr=6); add('op (A op B)', symk=64, shape=3199, ctx=6, rtm=FLT, om=3); add('(T)(A op B)', symk=64, shape=6199, ctx=6, rtm=32, cm=0x1060, om=3 if q else 7, pr=5); add('conditions in code', symk=64, shape=71999, ctx=12, om=0xfc00); add('A op -B', symk=64, shape=1939, ctx=6, rtm=FLT, om=OPS & ~12)
    for tg in (2, 3): add('A op B', tg=tg, symk=64, shape=199, ctx=6, rtm=FLT, om=0xfc03)
    if not q: add('deep (A op B) op C', symk=73, shape=11999, ctx=6, rtm=FLT, om=0xf, j=4, pr=9, qt_=60000); add('(A op B) op (C op D)', symk=64, shape=1199199, ctx=6, rtm=FLT, om=3, j=4, pr=9, qt_=60000)
    return r
B_FR = 'generated programs over float and integer operands of every width and placement; every operand bit pattern symbolic; helper calls replaced by their IEEE single-precision meaning'
def float_jobs(tgts, q):
    r = []; T = 240 if q else 850; nm_ = ('32', '16', 'huge', 'unreal', 'mips')
    def add(tg, nm, j=1, pr=0, lit=False, cov=('defined', 'helper'), **p):
        p['tgt'] = tg; fl = ('-DUSE_MIPS',) if tg == 4 else (); r.append(Job('%s/%s' % (nm_[tg], nm), fmods(*fl) if lit else ccmods('cc_expr.c', *fl), target='x64', params=p, covers=list(cov), time=T, j=j, prio=pr, bound=B_FR, qt=20000, aqt=60000, over=D2F if lit else ()))
    def call(tg, nm, j=1, pr=0, **p):
        p['tgt'] = tg; r.append(Job('%s/%s' % (nm_[tg], nm), ccmods('cc_call.c', STD, *(('-DUSE_MIPS',) if tg == 4 else ())), target='x64', params=p, covers=['called'], time=T, j=j, prio=pr, bound=B_FR, qt=20000))
    F = FLT; OPS = 0xfc0f
    for i, tg in enumerate(tgts):
        main = i == 0 or not q
        add(tg, 'float op float, all places', shape=100, tm=F, pm=ALLP if main else 0x1f, om=OPS if main else 0xac0a, rtm=F, j=2 if main else 1, pr=4)
        add(tg, 'float op integer', shape=100, tm=0x107f if main else 0x1021, pm=1, om=0xa40a if q else OPS, rtm=F, j=2, pr=6); add(tg, 'arithmetic to integer', shape=100, tm=F, pm=1, om=3, rtm=0x7f & ~(1 << 6), pr=3); add(tg, 'comparison to integer', shape=100, tm=0x1021, pm=1, om=0xfc00, rtm=0x21)
        add(tg, 'op A', shape=300, tm=F, pm=ALLP, rtm=F | 32); add(tg, 'assignments', shape=200, tm=0x107f, pm=5, am=1, rtm=0x1021, pr=2); add(tg, 'casts', shape=600, tm=0x107f, pm=3 if main else 4, cm=0x107f, rtm=0x1021, pr=2, cov=('defined', 'helper'))
        add(tg, '&& ||', shape=700, tm=0x1020, pm=1, ctx=99); add(tg, '?:', shape=5000, tm=0x1021, pm=1, rtm=0x1020, pr=1); add(tg, 'conditions', shape=100, tm=F, pm=7, om=0xfc00, ctx=1); add(tg, 'while conditions', shape=100, tm=F, pm=1, om=0xfc00, ctx=5); add(tg, 'truth', shape=0, tm=F, pm=ALLP, ctx=1); add(tg, 'truth in loops', shape=0, tm=F, pm=ALLP, ctx=5)
        add(tg, 'returned', shape=0, tm=0x107f, pm=1, ctx=2, rtm=0x107f); add(tg, 'initializers', shape=0, tm=0x107f, pm=4, ctx=3, rtm=0x107f)
        add(tg, '(A op B) op C', shape=11000, tm=F, rot=1, rt=1, rp=2, pm=ALLP, om=OPS, rtm=F, pr=4); add(tg, 'A op (B op C)', shape=10100, tm=F, rot=1, rt=1, rp=2, pm=ALLP, om=OPS, rtm=F, pr=4); add(tg, 'A op B op C, mixed', shape=11000, tm=0x1061, rot=1, rt=4, pm=1, om=0x40b if q else 0xcf, rtm=F, pr=5); add(tg, 'A op (B op C), mixed', shape=10100, tm=0x1061, rot=1, rt=4, pm=1, om=0x409 if q else 0xcf, rtm=F, pr=5)
        add(tg, '(A op B) op (C op D)', shape=1100100, tm=F, rot=1, rt=1, rp=1, pm=7, om=3 if q else 0xf, rtm=F, pr=4); add(tg, 'A op B && C', shape=71000, tm=0x1020, pm=1, om=0xc400 if q else 0xfc00, ctx=1, pr=2); add(tg, 'A = B op C', shape=20100, tm=0x1021, pm=4, om=0x409, am=1, rtm=F, pr=2); add(tg, 'A op B ? C : D', shape=510000, tm=F, pm=1, om=0xfc00, rtm=F); add(tg, 'A, B op C', shape=80100, tm=F, pm=1, om=9, rtm=F); add(tg, '(T)(A op B)', shape=6100, tm=F, pm=1, om=9, cm=0x7f & ~64, rtm=32)
        add(tg, 'A op constant', lit=True, symk=64 if q else 73, shape=109, tm=0x1020, pm=5, om=0x7c0b if q else OPS, rtm=F, pr=3); add(tg, 'constant op A', lit=True, symk=64 if q else 73, shape=190, tm=0x1020, pm=1, om=OPS if not q else 0xa403, rtm=F, pr=3); add(tg, 'A == constant condition', lit=True, symk=65, shape=109, tm=F, pm=1, om=0xfc00, ctx=1); add(tg, 'constants assigned', lit=True, symk=73, shape=209, tm=0x107f, pm=2, am=1, rtm=F, cov=('defined',))
        call(tg, 'argument conversions', np=1, conv=2, tm=0x17f, rt=-3, argf=3, callee=99); call(tg, 'two arguments', np=2, conv=2, tm=0x104, rot=1, rt=12, retu=99, pr=2); call(tg, 'variadic', np=3, varg=1, tm=0x105, rt=-3, rot=1)
        if not q: add(tg, 'float op integer, all places', shape=100, tm=0x107f, rot=1, rt=8, rp=15, pm=ALLP, om=OPS, rtm=F, j=4, pr=9); add(tg, 'deep (A op B) op C', shape=11000, tm=0x107f, rot=1, rt=8, rp=4, pm=ALLP, om=OPS, rtm=0x1020, j=4, pr=9); add(tg, 'four operands', shape=1110000, tm=F, rot=1, rt=1, rp=2, pm=ALLP, om=0xf, rtm=F, j=4, pr=9)
    return r
@prop('C09')
def c09(tier): return float_jobs([0, 2, 3], tier == 'quick')

@prop('C05')
def c05(tier):
    q = tier == 'quick'; r = []
    for nm, js in (('expressions', expr_jobs([4], q)), ('statements', stmt_jobs([4], q, True)), ('calls', call_jobs([4], q)), ('objects', [j for j in init_jobs([4], q) if 'packed' not in j.name]), ('floats', float_jobs([4], q))):
        for j in js: j.name = nm + '/' + j.name
        r += js
    return r
