from jobs import *
import jobs as J
@prop('S05')
def s05(tier):
    q = tier == 'quick'; r = []; T = 200 if q else 850
    cov = ['malloc', 'calloc', 'free', 'realloc moved', 'realloc in place', 'calloc overflow', 'coalesced']
    dp = tuple(x for x in LIBF if x != '-D_LINUX') + ('-D_DOS', '-D_DPMI')
    d16 = tuple(x if x != '-D__SMALLER_C_32__' else '-D__SMALLER_C_16__' for x in LIBF if x != '-D_LINUX') + ('-D_DOS', '-D_stop_alldata__=(*h_lo)', '-D_start_stack__=(*h_hi)')
    def mods(fl, tgt): return [(J.asmfree(n), tuple(fl)) for n in ('malloc', 'free', 'realloc', 'calloc')]
    for nm, fl, tgt, hf in (('dpmi', dp, 'm32', ()), ('dos16', d16, 'msp430', ()), ('linux', tuple(LIBF), 'm32', ('-DLINUXV',))):
        M = [V('s05.c', *hf)] + mods(fl, tgt); a = 8 if tgt == 'msp430' else 16
        for K in (2, 3) if q else (3, 4):
            for off, off2 in ((0, 0), (a // 2, 1), (a - 1, a // 2), (1, 0)) if K == 2 or not q else ((a // 2, 0),):
                r.append(Job('%s/K%d/o%d' % (nm, K, off), M, target=tgt, params={'K': K, 'off': off, 'off2': off2, 'region': a * 13 if K < 4 else a * 15, 'maxsz': 2 * a + a // 2}, covers=cov if K > 2 else [], time=T, j=2 if K > 2 else 1, prio=K, bound='every sequence of K operations, sizes 0..2.5 blocks and one impossible size'))
        for pre, K in ((3, 5), (4, 6)) if q else ((3, 6), (4, 7)): r.append(Job('%s/pre%d/K%d' % (nm, pre, K), M, target=tgt, params={'pre': pre, 'K': K, 'off': a // 2, 'off2': 0, 'region': a * 18, 'maxsz': a + a // 2, 'huge': 0}, covers=['free', 'coalesced'], time=T, j=2, prio=6, bound='pre blocks, then every sequence of K-pre operations'))
    return r
