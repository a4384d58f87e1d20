from jobs import *
@prop('S02')
def s02(tier):
    q = tier == 'quick'; r = []; M = [V('s02.c')] + lib('strtol', 'strtoul', 'atoi', 'atol', 'errno', 'ctype', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'tolower', 'toupper', 'isxdigit')
    T = 100 if q else 800
    for fn, nm in ((0, 'strtol'), (1, 'strtoul'), (2, 'atoi')):
        cov = ['none', 'value', 'negative']
        r.append(Job(nm + '/text', M, params={'mode': 0, 'fn': fn, 'N': 3 if q else 4, 'nb': 1 if fn == 2 else 6 if q else 10}, covers=cov, time=T, j=2, prio=5, bound='every text of up to N bytes, bases 0,10,16,8,2,36 (thorough 10 bases)'))
        for base, alpha, digits in ((10, 0, (9, 10, 11)), (16, 0, (8, 9)), (16, 1, (7, 8, 9)), (16, 2, (8,)), (8, 0, (10, 11, 12)), (36, 1, (5, 7) if q else (5, 6, 7)), (36, 2, (5, 7) if q else (5, 6, 7)), (2, 0, (31, 32)), (7, 0, (11, 12)), (0, 0, ())):
            if fn == 2 and base != 10: continue
            for d in digits: r.append(Job('%s/base%d.%d.%d' % (nm, base, alpha, d), M, params={'mode': 1, 'fn': fn, 'base': base, 'alpha': alpha, 'digits': d}, covers=['value'] if (base, alpha) == (10, 0) else [], time=T, bound='every string of exactly this many digits of the base, with every sign and prefix'))
        if fn < 2: r.append(Job(nm + '/allbases', M, params={'mode': 2, 'fn': fn, 'digits': 2 if q else 3}, covers=['value'], time=T, j=2, bound='every base 2..36, every text of 2 (thorough 3) bytes'))
    return r
@prop('S06')
def s06(tier):
    q = tier == 'quick'; r = []; M = [V('s06.c')] + lib('qsort', 'bsearch'); T = 100 if q else 800
    for sz in (1, 2, 3, 4, 7):
        for n in range(0, 6 if q else 7):
            if n == 5 and q and sz not in (2, 4): continue
            r.append(Job('qsort/sz%d/n%d' % (sz, n), M, params={'fn': 0, 'sz': sz, 'n': n}, covers=['sorted'] if n > 2 else [], time=T, j=2 if n > 4 else 1, prio=n, bound='every array contents of n elements of this size, every consistent ordering by key'))
        r.append(Job('bsearch/sz%d' % sz, M, params={'fn': 1, 'sz': sz, 'N': 7 if q else 12}, covers=['found', 'absent'], time=T, bound='every sorted array of up to N elements'))
    return r
CT = ['isalnum', 'isalpha', 'isblank', 'iscntrl', 'isdigit', 'isgraph', 'islower', 'isprint', 'ispunct', 'isspace', 'isupper', 'isxdigit', 'tolower', 'toupper', 'ctype']
@prop('S10')
def s10(tier): return [Job('ctype', [V('s10.c')] + lib(*CT), covers=['all', 'EOF'], time=100, bound='every int from EOF to 255: complete')]
LNG = ['lngadd', 'lngsub', 'lngeq', 'lngltz', 'lngsl', 'lngul', 'lngfs', 'lngfu', 'lngts', 'lngtu', 'abs', 'div']
@prop('S11')
def s11(tier):
    f16 = [x if x != '-D__SMALLER_C_32__' else '-D__SMALLER_C_16__' for x in LIBF]
    return [Job('lng32', [V('s11.c')] + lib(*LNG), covers=['lng', 'div'], time=300, bound='all operand values (32-bit int build)'),
            Job('lng16', [V('s11.c')] + [('srclib/%s.c' % n, tuple(f16)) for n in LNG], target='msp430', covers=['lng', 'div'], time=300, bound='all operand values (16-bit int build)')]
