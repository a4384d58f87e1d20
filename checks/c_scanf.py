from jobs import *
@prop('S04')
def s04(tier):
    q = tier == 'quick'; r = []; T = 250 if q else 850
    M = [V('s04.c')] + lib('doscan', 'strchr', 'ctype', 'isspace', 'isdigit', 'isalpha', 'toupper')
    B = 'every input of up to n characters (any byte), widths none/1/2/3/5, suppressed or not, length modifiers none/hh/h/j/z/t/l; followed by a literal and %n; conversion of digits to float bits (__cvtfd) replaced by a recorder. Not covered: scan set ranges, nan(...), values out of range of the target type'
    def a(nm, cov, **p): r.append(Job(nm, M, params=p, covers=cov, time=T, bound=B, nonative=True))
    S = ['stored', 'suppressed', 'n', 'no match', 'input failure']
    for c in 'duioxp': a('int %s' % c, S, conv=ord(c), n=(4 if c in 'ix' else 3) + (not q), lm=2 if c != 'd' else 4)
    for c in 'cs[': a('text %s' % c, [x for x in S if c != 's' or x != 'no match'], conv=ord(c), n=4 if q else 5)
    a('float', S + ['number', 'zero'], conv=101, n=5 if q else 6, letters=1, nw=1); a('float width', S + ['number'], conv=101, n=4, letters=6 if not q else 2)
    for k in (110, 114): a('float, %d digits' % k, ['stored', 'number'], conv=101, n=3, digits=k, letters=1, nw=1)
    a('literals', ['n', 'failure'], mode=2, n=4, nw=1)
    for c in 'dxcs[e': a('after a number, %s' % c, ['stored'] + ['n'] * (c != 's'), mode=3, conv=ord(c), n=5 if c != 'e' else 4, nw=1, lm=1, letters=1)
    return r
