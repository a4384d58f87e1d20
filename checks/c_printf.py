from jobs import *
@prop('S03')
def s03(tier):
    q = tier == 'quick'; r = []; T = 250 if q else 850
    M = [V('s03.c')] + lib('vsprintf', 'vsnprint', 'sprintf', 'snprintf', 'doprint', 'fputc', 'strlen', 'strchr', 'isdigit', 'toupper')
    for c in 'duxXo': r.append(Job('int/%s' % c, M, params={'mode': 0, 'conv': ord(c), 'lm': 4}, covers=['number'], time=T, j=3, prio=5, nonative=False, bound='every flag combination, widths and precisions literal and from arguments (positive, zero, negative), length modifiers, every int value'))
    for c in 'pcs': r.append(Job('int/%s' % c, M, params={'mode': 0, 'conv': ord(c)}, covers=['number' if c == 'p' else c], time=T, bound='as above; every string of up to 4 bytes'))
    r.append(Job('size', M, params={'mode': 1}, covers=['fits', 'truncated'], time=T, bound='6 formats, every size 0..19'))
    r.append(Job('two', M, params={'mode': 2, 'nw': 3 if q else 5, 'np': 1, 'lm': 1}, covers=['two'], time=T, j=2, bound='two directives in sequence'))
    r.append(Job('varargs', M, params={'mode': 3}, covers=['sprintf'], time=T, nonative=True, bound='every int'))
    return r
