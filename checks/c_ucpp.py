from jobs import *
UCPP = ('-DSTAND_ALONE', '-DUCPP_CONFIG', '-Dmain=ucpp_main', '-nostdinc', '-I@V/vinc', '-I@V/lib', '-w')
def pmods(h, *fl): return [V(h, '-I@V/harness', *fl), ('V:lib/vlibc.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib'))] + [('ucpp/%s.c' % x, UCPP) for x in ('arith', 'assert', 'cpp', 'eval', 'lexer', 'macro', 'mem', 'nhash')]
B_IF = '#if/#elif expressions: every combination of the listed operators (shape = prefix tree: 1 binary, 3 unary, 5 conditional, 0 literal; om/om0 operator masks), literal kinds (km: octal, hex, decimal, character, undefined name, defined, limits, macros), suffixes (suf -1 = all); all values of the dg digits (0 = full 64 bits)'
@prop('P01')
def p01(tier):
    q = tier == 'quick'; r = []
    def add(nm, j=1, pr=0, cov=('selected',), **p): r.append(Job(nm, pmods('pp_if.c'), target='x64', params=p, covers=list(cov), time=240 if q else 850, j=j, prio=pr, bound=B_IF, qt=30000, aqt=120000))
    C = 0x1f80; NE = 0x1000; EQ = 0x800; LIM = 0xd1 & ~1
    add('malformed', mal=1, cov=('malformed',)); add('literals', shape=0, km=0xff)
    add('literals compared', shape=100, km=0x5, om0=C, suf=0, pr=3); add('hex compared', shape=100, km=2, om0=C, dg=0, pr=3, suf=-1 if not q else 1); add('limits', shape=100, km=0xd0, om0=C, j=2, pr=3); add('characters', shape=100, km=0x88, om0=0x380)
    add('+ all suffixes', shape=1100, km=1, om0=NE | 128 if q else C, om=8, pr=6, j=2 if q else 4); add('-', shape=1100, km=1, om0=NE | 128 if q else C, om=16, pr=6, j=2 if q else 4); add('& ^ |', shape=1100, km=1, om0=NE if q else C, om=0xe000, pr=5, j=2 if q else 4)
    add('shifts', shape=1100, km=1, om0=C, om=0x60, suf=0, pr=3); add('shifts unsigned', shape=1100, km=1, om0=NE, om=0x60, suf=1, pr=3); add('shifts of negatives', shape=1100, km=0xc0, om0=EQ if q else C, om=0x60, sp=0, pr=6)
    add('* /', shape=1100, km=1, om0=NE, om=2, suf=0, cov=('selected', 'error')); add('/ %', shape=1100, km=1, om0=NE, om=6, suf=0, dg=8 if q else 12, cov=('selected', 'error')); add('* small', shape=1100, km=1, om0=NE, om=1, suf=0, dg=3 if q else 4); add('/ unsigned', shape=1100, km=1, om0=NE, om=6, suf=1, dg=7 if q else 10, cov=('selected', 'error'))
    add('all operators, limits', shape=1100, om0=EQ if q else EQ | 128, sp=0, km=0x40, j=2, pr=6, cov=('selected',)); add('comparisons nested', shape=1100, om0=C, om=C, km=0x80 if q else 0xc0, sp=0, j=1, pr=4)
    add('+ decimal', shape=1100, km=4, om0=NE | 0x400, om=0x18, suf=0, dg=9 if q else 12); add('+ hex', shape=1100, km=2, om0=EQ, om=8, suf=0, dg=4 if q else 8, pr=2)
    add('unary', shape=30, km=0xff, um=15, dg=4); add('unary compared', shape=1300, km=0x11, om0=C, suf=0, pr=2); add('unary chain', shape=1330, km=0x80, om0=C, suf=0, pr=1); add('unary precedence', shape=11300, km=0x81, suf=0, om0=NE, om=0x3fff8, dg=2, sp=0, pr=2, cov=('selected',))
    add('?: types', shape=15000, km=0x81, om0=0x780, suf=1 if q else -1, dg=3, pr=3); add('?: operands', shape=15000, km=0x40 if q else 0xc0, om0=0x180, sp=1, pr=4); add('?: nested', sp=0 if q else 2, shape=1505000, km=0x80, om0=0x180, pr=4); add('?: arms', sp=0 if q else 2, shape=1501000, km=0x80, om0=0x80, pr=5, j=2, om=0xffff if not q else 0xa0eb); add('?: arms right', sp=0 if q else 2, shape=1500100, km=0x80, om0=0x80, pr=5, j=2, om=0x3ffff if not q else 0x2a1d8, cov=('selected',)); add('?: condition', sp=0 if q else 2, shape=510000, km=0x80, om0=0x3ffff, pr=3); add('?: unary arms', shape=1503000, km=0x80, om0=0x180, pr=3)
    add('precedence left', shape=11000, km=0x80, sp=0 if q else 2, j=2, pr=6); add('precedence right', shape=10100, km=0x80, sp=0 if q else 2, j=2, pr=6, cov=('selected', 'error')); add('precedence symbolic', shape=1110000, km=1, dg=1, suf=0, om=0xe098, om0=0x31000, pr=5, j=2, **({} if not q else dict())); add('parentheses', sp=0 if q else 2, shape=11000, km=0x1, dg=2, suf=0, om=0xfff8 & ~0x60, om0=0xfff8 & ~0x60, paren=1, pr=5, j=2)
    add('logical', shape=1101100, km=1, suf=0, dg=4, om0=0x30000, om=C, pr=3); add('short circuit', shape=10100, km=0x81, dg=2, suf=0, om0=0x30000, om=6, pr=2, cov=('selected', 'error'))
    add('overflow + - <<', shape=1100, km=0x81, om0=128, om=0x78, suf=0, ovf=1, pr=3, cov=('selected', 'overflow')); add('overflow negation', shape=130, km=0x51, om0=128, um=8, suf=0, ovf=1, cov=('selected', 'overflow'))
    add('#elif', shape=100, km=1, suf=0, om=0x3fff8, dir=1); add('defined and macros', shape=11000, sp=0 if q else 2, km=0xa0, om=0x31800, om0=0x31800, pr=2)
    if not q: add('deep precedence', shape=1110000, km=0x80, j=4, pr=9, om=0x2f0d9); add('deep ?:', shape=1501010000, km=0x80, om0=0x180, om=0x5021a & 0x3ffff, j=4, pr=9, cov=('selected', 'error')); add('three operators', shape=1101100, km=1, dg=6, suf=0, om=0xfff8 & ~0x60, om0=0x3fff8 & ~0x60, j=4, pr=9)
    return r

B_COND = 'every sequence of n lines chosen from the kinds in mask (0 if, 1 ifdef, 2 ifndef, 3 elif, 4 else, 5 endif, 6 text, 7 define, 8 undef, 9 #if with a macro, 10 invalid directive, 11 include, 12 malformed elif; then endifs and text if close), all condition values, all spacing/comment/splice styles if sty = 9; hist: behind three levels of finished groups; mode 1: n nested groups of the given form'
@prop('P02')
def p02(tier):
    q = tier == 'quick'; r = []
    def add(nm, j=1, pr=0, cov=('valid',), **p): r.append(Job(nm, pmods('pp_cond.c'), target='x64', params=p, covers=list(cov), time=240 if q else 850, j=j, prio=pr, bound=B_COND))
    E = ('valid', 'error')
    add('sequences', n=4, mask=0xfff, close=1, text=1, j=3, pr=5, cov=E + ('skipped error',)); add('unclosed', n=4 if q else 5, mask=0x1fff, j=3, pr=5, cov=E)
    add('chains', n=6 if q else 7, mask=0x79, close=1, text=1, j=2 if q else 4, pr=4, cov=E + ('skipped error',)); add('chains with names', n=5 if q else 6, mask=0x7f, close=1, text=1, j=2, pr=4, cov=E); add('definitions inside', n=5 if q else 6, mask=0x1f6, close=1, pr=4, j=2, text=1, cov=E)
    add('spacing', n=3 if q else 4, mask=0x1fff, sty=9, close=1, pr=3, j=2, cov=E); add('balance', n=5 if q else 7, mask=0x39, text=1, pr=4, j=2, cov=E)
    add('after other groups', n=5 if q else 6, mask=0x39, close=1, text=1, hist=1, j=2, pr=4, cov=E + ('skipped error',)); add('elif after other groups', n=4 if q else 6, mask=0x79, close=1, text=1, hist=1, j=2, pr=4, cov=E + ('skipped error',))
    for f in range(3): add('nested %d' % f, mode=1, n=63, form=f); add('nested too deep %d' % f, mode=1, n=64, form=f, cov=('error',))
    if not q: add('long sequences', n=5, mask=0x1fff, close=1, text=1, j=8, pr=9, cov=E + ('skipped error',)); add('long chains', n=9, mask=0x39, close=1, text=1, j=6, pr=9, cov=E)
    return r
B_LEX = 'every text of n characters over the alphabet alph of pp_lex.c (50 = all printable ASCII and white space, 51 = all bytes but CR, LF and NUL), symbolic, in the given context (100 = all 16 prefixes x 10 suffixes); texts in which # begins a line, and malformed numbers such as 1ee, are left out'
@prop('P04')
def p04(tier):
    q = tier == 'quick'; r = []
    def add(nm, j=1, pr=0, cov=('valid',), **p): r.append(Job(nm, pmods('pp_lex.c'), target='x64', params=p, covers=list(cov), time=240 if q else 850, j=j, prio=pr, bound=B_LEX))
    U = ('valid', 'unterminated')
    for a in range(15):
        add('contexts %d' % a, n=1 if a in (0, 8) else 2, alph=a, pre=100, post=100, cov=U, pr=3, j=1 if q else 2)
        n = {0: 2, 8: 3, 2: 4, 10: 3, 12: 3, 5: 4, 4: 4, 6: 4}.get(a, 4) if q else {0: 4, 8: 4, 10: 5, 2: 5, 12: 5, 5: 6}.get(a, 6)
        add('text %d' % a, n=n, alph=a, cov=('valid',), pr=4 if a in (0, 8) else 2, j=1 if q else 2)
    for a, al in (('line ends', 13), ('trigraphs', 2), ('comments', 1), ('splices', 3)): add('buffer end, ' + a, n=2 if q else 3, alph=al, pre=11, post=0, pad=1, pr=4); add('buffer end after text, ' + a, n=2 if q else 3, alph=al, pre=0, post=0, pad=2, pr=4)
    add('all characters', n=2, alph=50, cov=U, j=2, pr=5); add('all bytes', n=2, alph=51, cov=U, j=2, pr=5); add('in a comment', n=2 if q else 3, alph=50, pre=3, post=1, cov=U, pr=3); add('in a string', n=2 if q else 3, alph=51, pre=2, post=2, cov=U, pr=3); add('in a character constant', n=2, alph=50, pre=8, post=3, cov=U, pr=3); add('after //', n=2, alph=51, pre=6, post=0, pr=3); add('at the line start', n=2, alph=50, pre=11, post=0, cov=U, pr=3)
    if not q: add('three characters', n=3, alph=50, cov=U, j=6, pr=9); add('three bytes', n=3, alph=51, cov=U, j=6, pr=9); add('line start, three', n=3, alph=50, pre=11, cov=U, j=6, pr=9); add('contexts quotes', n=2, alph=0, pre=100, post=100, cov=U, j=6, pr=9); add('contexts L', n=2, alph=8, pre=100, post=100, cov=U, j=6, pr=9)
    return r
B_MAC = 'macro definitions and invocations from template t of pp_macro.c: every combination of the alternatives of each hole (cut: at most so many per hole, starting at rot), all values of the digits and of the characters in literals; results the standard leaves unspecified or undefined are only checked for memory safety'
@prop('P03')
def p03(tier):
    q = tier == 'quick'; r = []
    def add(nm, t, cut=99, rot=0, j=1, pr=2, cov=('valid',)): r.append(Job(nm, pmods('pp_macro.c'), target='x64', params=dict(t=t, cut=cut, rot=rot), covers=list(cov), time=240 if q else 850, j=j, prio=pr, bound=B_MAC))
    E = ('valid', 'error')
    N = ['object-like', 'one parameter', 'nested one parameter', 'pasting', '# and ## in bodies', 'stringizing', 'variadic', 'argument counts', 'invocations over lines', 'definitions', 'redefinition', 'pasted names', 'undef', 'nested calls', 'pasting three', 'unbalanced', 'calls across bodies', 'stringizing literals', 'names in literals', 'digraphs', 'commas from arguments', 'numbers', 'merging around a macro', 'merging in a body', 'merging around calls', 'pasting or merging of arguments', 'stringizing quotes']
    Q = {0: [(4, 0), (4, 4)], 1: [(4, 0), (3, 3)], 2: [(4, 0), (4, 2)], 3: [(6, 0)], 4: [(6, 0)], 5: [(6, 0), (4, 6)], 6: [(4, 0), (4, 4)], 8: [(4, 0), (4, 4)], 10: [(7, 0), (7, 5)], 11: [(3, 0), (3, 2)], 12: [(4, 0), (3, 4)], 13: [(6, 0)], 14: [(4, 0), (4, 3)], 16: [(4, 0), (4, 3)], 17: [(4, 0), (4, 7)], 20: [(3, 0), (3, 3)], 24: [(8, 0), (8, 8)], 26: [(7, 0), (5, 6)]}
    T = {0: [(6, 0), (6, 4)], 1: [(6, 0), (5, 3)], 6: [(7, 0), (7, 5)], 8: [(6, 0), (6, 4)], 12: [(6, 0), (6, 4)], 20: [(5, 0), (5, 3)]}
    for t, n in enumerate(N):
        for c, ro in (Q if q else T).get(t, [(99, 0)]): add('%s%s' % (n, '' if not ro else ' (from %d)' % ro), t, c, ro, cov=('error',) if t in (15, 20) else E if t in (7, 9, 10, 21) else ('valid',), pr=1 if t in (7, 9, 15, 18, 19, 21) else 4, j=1 if q else 4)
    return r
