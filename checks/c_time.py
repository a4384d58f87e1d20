from jobs import *
@prop('S07')
def s07(tier):
    q = tier == 'quick'; r = []
    L = [x for x in LIBF if x != '-D_LINUX'] + ['-D_DOS']   # the _DOS localtime/mktime have no inline assembly
    M = [V('s07.c')] + [('srclib/%s.c' % n, tuple(L)) for n in ('brktime', 'bldtime', 'time1', 'gmtime', 'mktime', 'localtim', 'strftime', 'asctime', 'sprintf', 'vsprintf', 'doprint')]
    T = 200 if q else 800
    for a in range(1970, 2106, 17): r.append(Job('break/%d' % a, M, params={'mode': 0, 'ylo': a, 'yhi': a + 17, 'local': a // 17 & 1}, covers=['converted'], time=T, bound='every 32-bit time in the years'))
    r.append(Job('break/end', M, params={'mode': 6}, covers=['rejected'], time=T, bound='every 32-bit time from 2105 on'))
    for a in range(1970, 2106, 34): r.append(Job('build/%d' % a, M, params={'mode': 1, 'ylo': a, 'yhi': a + 33}, covers=['built'], time=T, bound='every valid calendar time in the years'))
    r.append(Job('build/bad', M, params={'mode': 2}, covers=['refused'], time=T, bound='every int in every field, some field impossible'))
    r.append(Job('strftime/one', M, params={'mode': 3}, covers=['formatted'], time=T, j=4, bound='every conversion, every in-range field value'))
    r.append(Job('strftime/size', M, params={'mode': 4}, covers=['fits', 'too small'], time=T, j=2, bound='8 formats, every size 0..10'))
    r.append(Job('asctime', M, params={'mode': 5}, covers=['asctime'], time=T, j=2, nonative=True, bound='every in-range field value'))
    return r
