from jobs import *
BN = 'n2f main with -f asm, elf and bin: up to n lines, each a section switch (8 names), a directive or other text, with the listed separators, comments and line ends; short texts of arbitrary bytes behind the listed prefixes; 30-34 distinct sections, names of 30-35 characters, 2998-3001 fragments; mixed blanks and tabs in front of a line and 8 or more blanks (only the width is kept) left out; FASM itself is a stand-in'
@prop('N01')
def n01(tier):
    q = tier == 'quick'; r = []; M = [V('n01.c', '-I@V/harness'), ('n2f.c', ('-Dmain=n2f_main', '-nostdinc', '-I@V/vinc', '-I@V/lib', '-w')), ('V:lib/vlibc.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib'))]
    def a(nm, cov=('converted',), j=1, pr=3, **p): r.append(Job(nm, M, target='x64', params=p, covers=list(cov), time=300 if q else 850, j=j, prio=pr, bound=BN))
    a('one line', n=1, crlf=1, sty=1); a('two lines', n=2, sty=2, fmt=0) if q else a('two lines', n=2, sty=1, fmt=0, j=8, pr=9); a('line ends', n=3, crlf=1, sty=0, names=3); a('sections', n=4 if q else 5, sty=0, fmt=0, names=4 if q else 6, j=1 if q else 3); a('many switches', n=3, sty=0, names=8)
    for al in range(5): a('text %d' % al, mode=1, n=(2 if al == 0 else 3) if q else (3 if al == 0 else 5), alph=al, j=1 if q else 2, cov=('converted', 'beyond a limit') if al in () else ('converted',))
    a('number of sections', mode=2, cov=('converted', 'beyond a limit')); a('name lengths', mode=3, cov=('converted', 'beyond a limit')); a('number of fragments', mode=4, fmt=0, cov=('converted', 'beyond a limit'))
    return r
