from jobs import *
LD = ('-Dmain=smlrl_main', '-nostdinc', '-I@V/vinc', '-I@V/lib', '-w')
VL = ('V:lib/vlibc.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib'))
def lmods(h): return [V(h, '-I@V/harness'), VL, ('smlrl.c', LD)]
FM = ['', 'tiny', 'small', 'huge', 'unreal', 'flat16', 'flat32', 'pe', 'elf', 'aout', 'mach']
B_LD = 'smlrl main on one or two objects (up to 4 sections each of the listed sizes/alignments: bit i of a mask = i-th entry of sizes[]/aligns[] in harness/ld.c), symbol values, relocated fields, load addresses, bss sizes (<256 MB, 1 MB for the DOS formats) and stack sizes symbolic'
B_SYM = 'smlrl -flat32 on n objects or archive members with up to the stated number of global symbols each (names, defined/undefined, values and reference addends symbolic), one local symbol each'
def bits(*k): return sum(1 << i for i in k)
ABS, Z, S1, S4, S7, S16, S31, S1021, S1024, S1027, S4092, S4096, S4100, S30K, S65K, S300K = range(16)
class A:
    def __init__(s, tier): s.q = tier == 'quick'; s.r = []
    def __call__(s, nm, h='ld.c', cov=('linked',), j=1, pr=0, bound=B_LD, **p): s.r.append(Job(nm, lmods(h), target='x64', params=p, covers=list(cov), time=300 if s.q else 850, j=j, prio=pr, bound=bound))
@prop('L01')
def l01(tier):
    a = A(tier); q = a.q
    for f in range(1, 11):
        n = FM[f]; ld = ('linked', 'field') + (('moved',) if f in (4, 7, 9) else ()); rj = ('rejected',) if f == 7 else ()
        a('%s kinds' % n, fmt=f, chk=1, fsec=7, fobj=3, main=3, st=bits(S4), sr=bits(S16), sd=bits(S16), s1=bits(S16), rt2=15 if not q else 1, tg2=31 if not q else 2, tp2=15 if not q else 4, foff=bits(1) if q else bits(0, 1), cov=ld + rj, pr=3, j=1 if q else 4)
        a('%s offsets' % n, fmt=f, chk=1, fsec=bits(0, 2), foff=0x7fff, tg=bits(0, 1) if q else 15, tp=4, rt=3 if q else 15, sd=bits(S4100), st=bits(S1027), sr=bits(S7) if q else bits(ABS, S7), sb=bits(ABS, S4) if not q else bits(S4), early=0, cov=ld, pr=4 if f in (7, 8, 9, 10) else 2, j=1 if q else 3)
        if f in (5, 6, 7, 8, 10): a('%s origins' % n, fmt=f, chk=1, org=bits(0, 1, 2, 3, 4, 5, 9) if f != 5 else bits(0, 1, 2), eoff=3, fsec=4, sr=bits(ABS, S4), sb=bits(ABS), s1=bits(S4), sd=bits(S16), tg=7, rt=3, tp=4, nf=1, cov=ld + rj, nobss=3, pr=2)
    a('pe without relocations', fmt=7, chk=1, norel=2, fsec=5, sd=bits(S16), st=bits(S4), cov=('linked', 'field')); a('aout with stub', fmt=9, chk=1, stub=2, fsec=5, sd=bits(S16), st=bits(S4), cov=('linked', 'field', 'moved'))
    a('aout boundary symbols', fmt=9, chk=1, fsec=4, sd=bits(S16), tg=8, tp=0x3fff, cov=('field', 'moved')); a('pe boundary symbols', fmt=7, chk=1, fsec=4, sd=bits(S16), tg=8, tp=0x3fff, cov=('field', 'moved')); a('flat boundary symbols', fmt=6, chk=1, fsec=4, sd=bits(S16), tg=8, tp=0x3fff, cov=('field',)); a('unreal boundary symbols', fmt=4, chk=1, fsec=4, sd=bits(S16), tg=8, tp=0x3fff, cov=('field', 'moved'))
    return a.r
@prop('L02')
def l02(tier):
    a = A(tier); q = a.q; E = ('linked', 'undefined', 'duplicate')
    def s(nm, cov=E, **p): a(nm, h='ld_sym.c', bound=B_SYM, cov=cov, **p)
    for m, n in enumerate(['objects', 'object and archive', 'archive', 'archive first']): s(n, arch=m, form=9 if m else 0, entry=9, cov=E + ('jump',)); s(n + ' with four', n=4, arch=m, local=0, slots=2, j=1 if q else 2, pr=2); s(n + ' with five', n=5, slots=1, local=0, arch=m, dupstart=1, early=0, names=4); 
    for m in (0, 1): s('long names %d' % m, cov=E if m else E[:2], arch=m, nl=2, names=2, slots=2 if m else 1, n=2 if m else 3, local=0, early=0)
    if not q:
        for m in range(4): s('three symbols each %d' % m, n=3, slots=3, local=0, arch=m, pr=4, j=2); s('five objects %d' % m, n=5, slots=2, local=0, arch=m, pr=9, j=3); s('long names with two %d' % m, arch=m, nl=2, names=2, slots=2, local=0, pr=6, j=3)
    else: s('three symbols each', n=3, slots=3, local=0, pr=3, j=2)
    return a.r
@prop('L03')
def l03(tier):
    a = A(tier); q = a.q
    for f in range(1, 11):
        n = FM[f]; m = bits(ABS, Z, S7) if q else bits(ABS, Z, S7, S1021)
        a('%s layout' % n, fmt=f, chk=2, st=bits(S7), sr=m, sd=m, sb=m, s1=bits(ABS, S7), nobss=3, main=3, eoff=1 if q else 3, pr=5, j=1 if q else 4)
        a('%s alignment' % n, fmt=f, chk=2, at=bits(0, 5) if q else bits(0, 3, 5, 6, 7, 8), a1t=bits(0, 3), ad=bits(1, 6, 8) if q else bits(1, 4, 6, 8, 9), ab=bits(0, 3), ar=2, sd=bits(S7), s1=bits(S4), cov=('linked', 'rejected'), pr=4, j=1 if q else 4)
        a('%s any bss' % n, fmt=f, chk=2, objs=1, symbss=1, sb=2, eoff=3, sr=bits(ABS, S16), sd=bits(ABS, S16), pr=3, **(dict(bmax=0xfffff) if f <= 5 else {}))
        a('%s boundaries' % n, fmt=f, chk=2, objs=2, st=bits(S1021, S1024), sd=bits(S4092, S4096, S4100), sr=bits(ABS, S1027), sb=bits(ABS, S4100), s1=bits(S1), pr=4, early=0, nobss=3)
    return a.r
@prop('L04')
def l04(tier):
    a = A(tier); q = a.q
    for f in range(1, 11):
        n = FM[f]; x = dict(bmax=0xfffff) if f <= 5 else {}; sk = dict(stack=4) if f <= 4 else {}
        a('%s any bss' % n, fmt=f, chk=4, objs=1, symbss=1, sb=2, eoff=3, sr=bits(ABS, S16), sd=bits(ABS, S16), st=bits(S1, S4092) if f > 6 else bits(S1), pr=3, cov=('linked',) + (('rejected',) if f <= 5 else ()), **x)
        if f <= 4: a('%s any stack' % n, fmt=f, chk=4, objs=1, symbss=1, sb=2, sr=bits(S16), sd=bits(ABS, S16), stack=4, bmax=0xfffff, pr=5, j=2, cov=('linked', 'rejected'))
        a('%s sizes' % n, fmt=f, chk=4, objs=2, st=bits(S1, S1024), sd=bits(ABS, S4092, S4100), sr=bits(ABS, S7, S4096), sb=bits(ABS, S4, S4096), s1=bits(ABS, S1), main=1 if q else 3, nobss=3, pr=4, norel=3, j=1 if q else 3)
        a('%s large' % n, fmt=f, chk=4, objs=1 if q else 2, st=bits(S4, S30K, S65K), sd=bits(S4, S30K, S65K), sr=bits(S4) if q else bits(S4, S30K), sb=bits(S4, S65K) if q else bits(S4, S30K, S65K, S300K), nobss=3, s1=1, pr=5, j=1 if q else 4, cov=('linked',) + (('rejected',) if f in (1, 2, 5) else ()))
        if f in (5, 6, 7, 8, 10): a('%s origins' % n, fmt=f, chk=4, org=0x3ff, eoff=3, sd=bits(S7, S4100), sb=1, nobss=3, cov=('linked', 'rejected'))
    a('aout with stub', fmt=9, chk=4, stub=3, sb=bits(ABS, S16), sd=bits(S16, S4096), nobss=3); a('aout stub and stack', fmt=9, chk=4, stub=2, stack=5, objs=1, sb=bits(ABS, S16), sd=bits(S16))
    a('mz too big', fmt=3, chk=4, objs=1, st=bits(S4, S300K), sd=bits(S4, S300K), sb=bits(S4, S300K), nobss=3, cov=('linked', 'rejected')); a('unreal too big', fmt=4, chk=4, objs=1, st=bits(S4, S300K), sd=bits(S4, S300K), sb=bits(S4, S300K), nobss=3, cov=('linked', 'rejected'))
    return a.r
