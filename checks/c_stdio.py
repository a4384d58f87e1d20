from jobs import *
DOSF = tuple(x for x in LIBF if x != '-D_LINUX') + ('-D_DOS', '-D_DPMI')
D16 = tuple(x if x != '-D__SMALLER_C_32__' else '-D__SMALLER_C_16__' for x in LIBF if x != '-D_LINUX') + ('-D_DOS',)
SRC = 'fopen fclose fread fwrite fgetc fputc fgets fputs puts putchar ungetc setvbuf setbuf fillbuf flushbuf fflush %s rewind fgetpos fsetpos feof ferror clearerr stdio1 stdio2 stdin stdout stderr'
def smods(fl):
    six = '-D__SMALLER_C_16__' in fl; n = (SRC % ('fseek16 ftell16 lngadd lngsub lngfs lngfu lngts lngtu lngsl lngul lngltz lngeq' if six else 'fseek ftell')).split()
    return [('V:harness/s08.c', tuple(fl) + ('-idirafter@V/vinc',))] + [('srclib/%s.c' % x, tuple(fl)) for x in n]
BD = 'one stream on a file of up to the stated size (contents symbolic), every sequence of K operations over fgetc, fread, fgets, ungetc, fputc, fwrite, fputs, puts, fseek, rewind, ftell, fgetpos/fsetpos, fflush, clearerr with small counts, buffers of 1-4 bytes, 1024 bytes or none; short reads, one failing read, one failing or short write where stated'
@prop('S08')
def s08(tier):
    q = tier == 'quick'; r = []; T = 300 if q else 850
    def a(nm, fl=LIBF, tgt='m32', cov=(), j=1, pr=0, **p): r.append(Job(nm, smods(tuple(fl)), target=tgt, params=p, covers=list(cov), time=T, j=j, prio=pr, bound=BD))
    R = ('read', 'eof', 'pushback', 'seek', 'tell', 'line'); W = ('write', 'seek', 'flush', 'tell')
    for nm, fl, tgt in (('', LIBF, 'm32'), ('dos ', DOSF, 'm32'), ('16-bit ', D16, 'msp430')):
        b = 5 if nm else 0   # the binary modes where text is translated
        def x(n, **p): a(nm + n, fl, tgt, **p)
        z = dict(K=3 if q else 4, pr=6 if nm else 5, j=1 if q else 3); x('read', mode=b, size=5, nl=1, cov=R, **z); x('write', mode=b + 1, cov=W, **z); x('append', mode=10 if nm else 4, size=2, cov=('write', 'seek', 'flush'), K=3 if q else 4)
        x('update', mode=7 if nm else 2, size=3, cov=R + ('write', 'flush'), nbuf=5 if not nm or not q else 2, **z)
        x('read then write', mode=b + 3 if b + 3 < 9 else 9, K=(3 if nm else 4) if q else 5, nbuf=2, ops=0x1e33, size=2, nsz=2, cov=('write', 'read', 'seek'), pr=4)
        x('reads only', mode=b, K=(4 if nm else 5) if q else 6, nbuf=2, ops=0x080f, size=4, anysize=1, short=1, nsz=2, cov=('read', 'eof', 'pushback'), pr=4)
        x('seeks after ungetc', mode=b, K=4 if q else 5, nbuf=2, ops=0x209, size=4, cov=('read', 'pushback', 'seek'), pr=4); x('repositioning after ungetc', mode=b, K=5 if q else 6, nbuf=2, ops=0x4c09, size=4, cov=('read', 'pushback', 'seek', 'tell'), pr=4)
        x('failing reads', mode=b, K=3 if q else 4, nbuf=2, ops=0x080f, size=4, rfail=1, short=1, cov=('read', 'read error'), pr=3)
        x('failing writes', mode=b + 1, K=4 if q else 5, nbuf=5, ops=0x1070, wfail=1, nsz=2, cov=('write', 'write error'), pr=3)
        x('modes', anymode=1, K=1, size=3, nbuf=2, cov=('write', 'read', 'tell') if not nm else ('write', 'read'))
        x('no memory', mode=b + 2 + (b > 0) * 0, K=2, size=3, nbuf=1, nomem=1, cov=('write', 'read'))
        x('stdout', tty=2, K=3 if q else 4, nbuf=5, cov=('write',), ops=0x31f0, wfail=0); x('stdout failing', tty=2, K=3, nbuf=5, cov=('write', 'write error'), ops=0x31f0, wfail=1); x('stdin', tty=1, K=3 if q else 4, nbuf=2, cov=('read',), ops=0x200f, size=4, nl=1, short=1)
        if nm: x('text read', mode=0, K=3 if q else 4, nbuf=4, ops=0x0c0f, size=4, nl=1, nsz=3, cov=('read', 'eof', 'tell'), pr=4); x('text write', mode=1, K=3 if q else 4, nbuf=5, ops=0x1c70, nsz=3, cov=('write', 'flush', 'tell'), pr=4); x('text failing writes', mode=1, K=3, nbuf=5, ops=0x1070, wfail=1, nsz=2, cov=('write', 'write error'), pr=3)
    return r
