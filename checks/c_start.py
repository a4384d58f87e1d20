from jobs import *
import jobs as J
REN = tuple('-D%s=s_%s' % (x, x) for x in 'atexit exit _Exit getenv calloc malloc free realloc strlen strncmp memcpy clock fclose'.split()) + ('-Dmain=user_main', '-D_start=s_start', '-fno-builtin', '-D__interrupt=')
B = 'start-up, getenv, atexit and exit around a program: every command line of n characters (any byte but NUL, for DOS also CR; long fixed patterns with a symbolic last character), environments of up to env variables with symbolic names and values, gets symbolic lookups, up to 34 registered functions, return/exit/_Exit with every status; the heap may fail where nomem. Names containing = and empty names are left out; Windows: an empty value may be reported as absent; the inline-assembly system calls are modelled'
@prop('S12')
def s12(tier):
    q = tier == 'quick'; r = []
    nl = [x for x in LIBF if x != '-D_LINUX']
    six = tuple(x if x != '-D__SMALLER_C_32__' else '-D__SMALLER_C_16__' for x in nl) + ('-D_DOS',)
    for v, nm, fl, tgt in ((0, 'linux', tuple(LIBF), 'm32'), (1, 'dpmi', tuple(nl) + ('-D_DOS', '-D_DPMI'), 'm32'), (2, 'windows', tuple(nl) + ('-D_WINDOWS',), 'm32'), (3, 'dos', six, 'msp430')):
        M = [('V:harness/s12.c', ('-nostdinc', '-I@V/vinc', '-I@V/lib', '-DV=%d' % v, '-fno-builtin'))] + [(J.asmfree(n), fl + REN) for n in ('c0', 'getenv', 'exit', 'atexit')]
        def a(what, cov=('exit',), **p): r.append(Job(nm + ' ' + what, M, target=tgt, params=p, covers=list(cov), time=240 if q else 850, bound=B))
        C = ('arguments',)
        if v: 
            a('command line', n=7 if q else 8, anylen=1, env=0, cov=C + ('exit', '_Exit'))
            for alt in (1, 2, 3): a('long command line %d' % alt, n=127, alt=alt, env=0, cov=C)
        g = ('found', 'absent', 'exit')
        a('environment', n=1, env=2 if q else 3, gets=1, namelen=2, vallen=2, noeq=1 if v != 2 else 0, cov=g); a('environment, repeated', n=0, env=2, gets=3, namelen=1, vallen=1, cov=g)
        if v: a('no memory', n=1, env=1, gets=3, namelen=1, nomem=1, cov=g + ('no memory',))
        if v == 2: a('long values', n=1, env=1, gets=2, namelen=1, longval=1, cov=g)
        a('exit', n=2, env=0, handlers=4, nest=1, anystatus=1, cov=('exit', '_Exit')); a('many functions', n=0, env=0, handlers=99, cov=('exit', '_Exit'))
    return r
