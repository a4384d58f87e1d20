from jobs import *
FNS = [('memset', 8, 10, ['memset'], ['memset']), ('memcpy', 5, 9, ['memcpy'], ['memcpy']), ('memmove', 0, 0, ['overlap-up', 'overlap-down'], ['memmove']), ('memchr', 6, 10, ['found', 'absent'], ['memchr']), ('memcmp', 6, 10, ['differ', 'equal'], ['memcmp']),
 ('strcpy', 6, 10, ['strcpy'], ['strcpy']), ('strncpy', 5, 8, ['pad', 'trunc'], ['strncpy']), ('strxfrm', 5, 8, ['fits', 'too long'], ['strxfrm']), ('strcat', 5, 8, ['strcat'], ['strcat']), ('strncat', 5, 7, ['cut', 'whole'], ['strncat']), ('strlen', 8, 14, ['strlen'], ['strlen']),
 ('strchr', 6, 10, ['found', 'absent', 'nul'], ['strchr']), ('strrchr', 6, 10, ['found', 'absent', 'nul'], ['strrchr']), ('strstr', 5, 7, ['found', 'absent'], ['strstr']), ('strspn', 4, 5, ['span', 'cspan'], ['strspn', 'strcspn', 'strpbrk']), ('strtok', 4, 5, ['null', 'token2'], ['strtok']), ('strcmp', 5, 8, ['differ', 'equal'], ['strcmp', 'strcoll']), ('strncmp', 4, 6, ['differ', 'equal'], ['strncmp']), ('strerror', 0, 0, ['strerror'], ['strerror'])]
ORDER = ['memset', 'memcpy', 'memmove', 'memchr', 'memcmp', 'strcpy', 'strncpy', 'strxfrm', 'strcat', 'strncat', 'strlen', 'strchr', 'strrchr', 'strstr', 'strspn', 'strpbrk', 'strtok', 'strcmp', 'strncmp', 'strerror']
ALL = ['memset', 'memcpy', 'memmove', 'memchr', 'memcmp', 'strcpy', 'strncpy', 'strxfrm', 'strcat', 'strncat', 'strlen', 'strchr', 'strrchr', 'strstr', 'strspn', 'strcspn', 'strpbrk', 'strtok', 'strcmp', 'strcoll', 'strncmp', 'strerror']
@prop('S01')
def s01(tier):
    q = tier == 'quick'; r = []
    for n, a, b, cov, mods in FNS:
        p = {'fn': ORDER.index(n), 'N': a if q else b}
        if n == 'memmove': p['T'] = 8 if q else 14
        if n == 'strstr': p['M'] = 3 if q else 4
        if n == 'strtok': p['T'] = 3 if q else 4
        r.append(Job(n, [V('s01.c')] + lib(*ALL), params=p, covers=cov, time=60 if q else 700, bound='objects of at most N bytes (memmove: every n, source and destination offset inside T bytes), every byte symbolic'))
    return r
