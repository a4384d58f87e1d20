from jobs import *
import jobs as J, subprocess, tempfile
CC = ('-DHOST_LINUX', '-DPATH_PREFIX="/usr/local"', '-Dmain=smlrcc_main', '-nostdinc', '-I@V/vinc', '-I@V/lib', '-w')
LDF = ('-Dmain=smlrl_main', '-nostdinc', '-I@V/vinc', '-I@V/lib', '-w')
VLB = ('V:lib/vlibc.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib'))
def both():
    """smlrcc.c and smlrl.c in one program: names that both define get a prefix in the driver"""
    syms = []
    for f, fl in (('smlrcc.c', ['-DHOST_LINUX', '-Dmain=smlrcc_main']), ('smlrl.c', ['-Dmain=smlrl_main'])):
        with tempfile.TemporaryDirectory() as d:
            subprocess.run(['clang', '-w', '-c'] + fl + [J.REPO + '/v0100/' + f, '-o', d + '/x.o'], check=True); o = subprocess.run(['nm', '-g', '--defined-only', d + '/x.o'], capture_output=True, text=True, check=True).stdout
            syms.append({l.split()[-1] for l in o.splitlines() if l.strip()})
    return [('smlrcc.c', CC + tuple('-D%s=cc_%s' % (s, s) for s in sorted(syms[0] & syms[1]))), ('smlrl.c', LDF)]
BA = 'smlrcc -c -o lib.a on 1-3 members: sizes 0-4096 around the copy buffer, contents symbolic, short, 14-16 character and long names with and without directories; one failing file operation; smlrl -flat32 on the result for every subset of referenced members'
@prop('D02')
def d02(tier):
    q = tier == 'quick'; r = []; M = [V('d02.c', '-I@V/harness')] + both() + [VLB]
    def a(nm, cov=('archived',), j=1, **p): r.append(Job(nm, M, target='x64', params=p, covers=list(cov), time=300 if q else 850, j=j, bound=BA))
    a('small members', cov=('archived', 'long name', 'short name', 'padded'), n=2); a('any number', forms=0x21, cov=('archived', 'padded')); a('large members', n=1 if q else 2, big=1, forms=0xe1, cov=('archived', 'padded', 'long name', 'short name')); a('round trip', mode=1, n=2, cov=('archived', 'linked', 'long name', 'short name', 'padded')); a('round trip of three', mode=1, n=3, forms=0x85, cov=('archived', 'linked')); a('faults', mode=2, n=2, forms=0x81, cov=('archived', 'fault'))
    if not q: a('three small members', n=3, j=3)
    return r
BD = 'smlrcc main with 1-3 inputs of every kind (.c .i .asm .o .a), every output mode and target, the listed options and installations, every stage succeeding or failing (with or without a partial output); special characters: any byte except / and NUL in names, macro values and option values; the commands are read by a model of /bin/sh'
@prop('D01')
def d01(tier):
    q = tier == 'quick'; r = []; M = [V('d01.c', '-I@V/harness'), ('smlrcc.c', CC + ('-Dgetenv=h_getenv',)), VLB]
    def a(nm, cov=('linked', 'archived', 'object', 'assembly', 'failure'), j=1, **p): r.append(Job(nm, M, target='x64', params=p, covers=list(cov), time=300 if q else 850, j=j, bound=BD))
    a('stages', target=0, n=2, late=1); a('stages of one', target=0, n=1, pp=9); a('stages of three', target=0, n=3, kinds=0x0d, cov=('linked', 'archived', 'object', 'assembly', 'failure'))
    a('targets', n=1, kinds=9, opts=20, pp=9, j=1 if q else 2); a('options', n=1, target=0, mode=0, opts=47, kinds=9, pp=9, cov=('linked', 'failure')); a('options of dosp', n=1, target=11, mode=0, opts=50, kinds=9, cov=('linked', 'failure')); a('installations', n=1, mode=0, opts=16, kinds=1, pp=9, cov=('linked', 'failure'))
    a('argument file', target=3, n=1, opts=1, kinds=9, mode=0, at=1, cov=('linked', 'failure'))
    for s, o, m in ((1, 0, 0), (2, 0, 0), (3, 1, 0), (4, 2, 0), (5, 0, 0)): a('special characters %d' % s, special=s, opts=o, mode=m, target=0, n=1, kinds=3 if s < 3 else 1, pp=0 if s != 3 else 9, nl=1, cov=('linked', 'failure'))
    a('special characters in objects', special=2, mode=1, target=0, n=1, kinds=7, nl=1, cov=('object', 'failure')); a('special characters in archives', special=5, mode=3, target=0, n=1, kinds=1, cov=('archived', 'failure'))
    return r
