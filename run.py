#!/usr/bin/env python3
"""Runs one property's check: compiles the current /repo sources to LLVM IR, executes them symbolically
with the vsym engine for every job of the property, validates sample paths natively, replays violations,
writes evidence/<id>.json.   usage: run.py ID [quick|thorough] [-only JOB] [-v]"""
import sys, os, json, subprocess, time, hashlib, tempfile, shutil, re, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V); sys.dont_write_bytecode = True
import jobs as J

def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); return 124, o, e
    return p.returncode, o, e

def die(msg):
    print('ERROR ' + msg); sys.exit(2)

class Ctx: pass
C = Ctx()

BASE = ['-ffreestanding', '-fno-builtin', '-w', '-fno-stack-protector', '-O1', '-fno-strict-aliasing', '-fwrapv']
BC = ['-DVS_BC', '-mllvm', '-phi-node-folding-threshold=0', '-mllvm', '-two-entry-phi-node-folding-threshold=0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-gline-tables-only', '-emit-llvm', '-Xclang', '-disable-lifetime-markers']
TGT = {'x64': ['--target=x86_64-linux-gnu'], 'm32': ['--target=i386-linux-gnu'], 'msp430': ['--target=msp430']}

def path(p): return os.path.join(V, p[2:]) if p.startswith('V:') else p if p.startswith('/') else os.path.join(REPO, 'v0100', p)
def expand(fl): return [f.replace('@V', V).replace('@R', REPO + '/v0100').replace('@T', C.tmp) for f in fl]

def compile_one(key):
    src, flags, tgt, native = key
    h = hashlib.sha256(repr(key).encode()).hexdigest()[:16]
    out = os.path.join(C.tmp, h + ('.o' if native else '.bc'))
    inc = [] if '-noinc' in flags else ['-nostdinc', '-isystem' + V + '/vinc', '-I' + V + '/lib']
    fl = [f for f in expand(flags) if f != '-noinc']
    cmd = ['clang'] + TGT[tgt] + BASE + (['-fno-pic', '-mcmodel=large'] if native and tgt == 'x64' else ['-fno-pic'] if native else BC) + inc + fl + ['-c', path(src), '-o', out]
    rc, o, e = sh(cmd, 300)
    if rc: return None, (src, e.decode(errors='replace')[:1500])
    return out, None

def index_lib():
    """symbol -> srclib files that may define it (checked with nm afterwards)"""
    ix = {}
    for f in sorted(os.listdir(REPO + '/v0100/srclib')):
        if not f.endswith('.c'): continue
        for l in open(REPO + '/v0100/srclib/' + f, errors='replace'):
            if not re.match(r'[A-Za-z_]', l) or l.startswith('extern') or l.startswith('typedef') or l.startswith('static'): continue
            m = re.search(r'\b(\w+)\s*\(', l)
            if m and not l.rstrip().endswith(';'): ix.setdefault(m.group(1), []).append(f)
            elif not m:
                for n in re.findall(r'\b(\w+)\s*(?:\[[^]]*\])*\s*(?:=[^,;]*)?(?=[;,]|$)', l.rstrip()): ix.setdefault(n, []).append(f)
    return ix

def nm(o):
    d, u = set(), set()
    rc, out, e = sh(['llvm-nm-18' if shutil.which('llvm-nm-18') else 'llvm-nm', '--no-sort', o], 60)
    for l in out.decode().splitlines():
        p = l.split()
        if len(p) >= 2: (u if p[-2] == 'U' else d).add(p[-1])
    return d, u

def autolib(js):
    """adds the srclib files that define what the linked ones still need (so that moving code between files or using
    another library function does not leave a job without a callee)"""
    C.ix = None; cache = {}; C.nm = {}
    for job in js:
        if not job.libflags: continue
        for it in range(12):
            D, U = set(), set()
            for k in keys(job, False):
                if k not in C.obj:
                    out, err = compile_one(k)
                    if err: die('cannot compile %s: %s' % err)
                    C.obj[k] = out
                if k not in C.nm: C.nm[k] = nm(C.obj[k])
                D |= C.nm[k][0]; U |= C.nm[k][1]
            add = []
            if C.ix is None: C.ix = index_lib()
            have = {m[0] for m in job.mods}
            for x in sorted(U - D):
                if x.startswith('vs_') or x.startswith('llvm.'): continue
                for f in C.ix.get(x, []):
                    m = ('srclib/' + f, tuple(job.libflags))
                    if m[0] in have or m in add: continue
                    k = (m[0], m[1] + tuple(job.flags), job.target, False)
                    if k not in cache:
                        cache[k] = compile_one(k)
                        if cache[k][0]: C.obj[k] = cache[k][0]; C.nm[k] = nm(cache[k][0])
                    if cache[k][0] and x in C.nm[k][0]: add.append(m); break
            if not add: break
            job.mods = list(job.mods) + add; job.auto = getattr(job, 'auto', set()) | {m[0] for m in add}

def keys(job, native):
    return [(m[0], tuple(m[1]) + tuple(job.flags), job.target, native) for m in job.mods]

def run_job(job):
    if C.found or time.time() > C.deadline: return job, None, 'skipped' if C.found else 'no time left'
    bcs = [C.obj[k] for k in keys(job, False)]
    out = os.path.join(C.tmp, job.name.replace('/', '_') + '.json')
    cmd = [V + '/build/vsym'] + bcs
    for o in job.over: cmd += ['-override', C.obj[(o[0], tuple(o[1]) + tuple(job.flags), job.target, False)]]
    cmd += ['-o', out, '-time', str(job.time), '-maxviol', str(job.maxviol), '-wit', '2', '-qt', str(job.qt), '-aqt', str(job.aqt)]
    if job.steps: cmd += ['-steps', str(job.steps)]
    if job.j > 1: cmd += ['-j', str(job.j), '-split', str(job.split)]
    for k, v in job.params.items(): cmd += ['-p', '%s=%d' % (k, v)]
    t = time.time()
    rc, o, e = sh(['bash', '-c', 'ulimit -v %d; exec "$@"' % (job.mem * 1024), 'x'] + cmd, job.time + 240)
    res = None
    for f in [out] + [out + '.%d' % i for i in range(job.j)]:
        if not os.path.exists(f): continue
        try: r = json.load(open(f))
        except Exception: continue
        os.unlink(f)
        if res is None: res = r
        else:
            for k, v in r.items():
                if k in ('wall_s', 'q_max_s'): res[k] = max(res[k], v)
                elif isinstance(v, bool): res[k] = res[k] or v
                elif isinstance(v, (int, float)): res[k] += v
                elif isinstance(v, dict):
                    for a, b in v.items(): res[k][a] = res[k].get(a, 0) + b
                elif k == 'functions': res[k] = sorted(set(res[k]) | set(v))
                else: res[k] = res[k] + [x for x in v if x not in res[k]]
    if res is None: return job, None, 'engine failed rc=%d: %s' % (rc, (e or o).decode(errors='replace')[-600:])
    if rc not in (0, 1): res['incomplete'] = True; res['errors'].append('engine rc=%d %s' % (rc, e.decode(errors='replace')[-200:]))
    res['job_wall'] = time.time() - t
    if any(not any(k in v['msg'] for k in C.kf) for v in res['violations']): C.found = True
    return job, res, None

def native_build(job):
    """links the same sources natively with the replay runtime; returns a function building an executable for given values"""
    if job.target == 'msp430' or job.nonative: return None
    objs = []
    for k in keys(job, True):
        if k not in C.obj:
            out, err = compile_one(k)
            if err and k[0] in getattr(job, 'auto', ()): continue   # inline assembly: not on the paths of this job
            if err: return None
            C.obj[k] = out
        objs.append(C.obj[k])
    k = ('V:lib/vsrt.c', (), job.target, True)
    if k not in C.obj:
        out, err = compile_one(k)
        if err: return None
        C.obj[k] = out
    objs.append(C.obj[k])
    for o in job.over: return None
    def go(inputs, tag):
        f = os.path.join(C.tmp, 'rp_%s.c' % tag)
        with open(f, 'w') as g:
            g.write('#include "vs.h"\nstruct vs_rec { const char* name; int w; vu64 v; };\nconst struct vs_rec vs_recs[] = {' + ''.join('{%s,%d,%dULL},' % (json.dumps(n), w, v) for n, w, v in inputs) + '{0}};\nconst int vs_nrecs = %d;\n' % len(inputs))
            g.write('const struct vs_rec vs_params[] = {' + ''.join('{%s,32,%dULL},' % (json.dumps(n), v & (2**64 - 1)) for n, v in job.params.items()) + '{0}};\nconst int vs_nparams = %d;\n' % len(job.params))
        ob, exe = f[:-2] + '.o', f[:-2] + '.exe'
        cm = ['clang'] + TGT[job.target] + BASE + ['-fno-pic', '-nostdinc', '-I' + V + '/vinc', '-c', f, '-o', ob]
        rc, o, e = sh(cm, 60)
        if rc: return None, e.decode()[:300]
        rc, o, e = sh(['clang'] + TGT[job.target] + ['-nostdlib', '-static', '-no-pie', '-Wl,--allow-multiple-definition', '-Wl,-z,muldefs', '-fuse-ld=bfd', '-Wl,--unresolved-symbols=ignore-all'] + objs + [ob, '-o', exe], 60)
        if rc: return None, e.decode()[-400:]
        d = tempfile.mkdtemp(dir=C.tmp)
        rc, o, e = sh(['bash', '-c', 'ulimit -v 4000000 -t 60; exec "$0"', exe], 90, cwd=d)
        os.unlink(exe)
        return rc, o.decode(errors='replace')[-800:]
    return go

def engine_replay(job, v):
    f = os.path.join(C.tmp, 'fix'); 
    with open(f, 'w') as g: g.write(' '.join(str(x[2]) for x in v['inputs']))
    out = f + '.json'
    cmd = [V + '/build/vsym'] + [C.obj[k] for k in keys(job, False)]
    for o in job.over: cmd += ['-override', C.obj[(o[0], tuple(o[1]) + tuple(job.flags), job.target, False)]]
    cmd += ['-o', out, '-time', '100', '-fix', f]
    if job.steps: cmd += ['-steps', str(job.steps)]
    for k, x in job.params.items(): cmd += ['-p', '%s=%d' % (k, x)]
    sh(cmd, 160)
    try: r = json.load(open(out))
    except Exception: return False, 'concrete engine run failed'
    return bool(r['violations']), (r['violations'] or [{'msg': 'no violation'}])[0]['msg']

def main():
    pid = sys.argv[1]; tier = 'quick'; only = None; verbose = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'): tier = x
        elif x == '-only': only = a.pop(0)
        elif x == '-v': verbose = True
    t0 = time.time()
    rc, o, e = sh(['bash', V + '/vsym/build.sh'], 600)
    if rc: die('engine build failed: ' + e.decode()[-500:])
    os.makedirs(V + '/build', exist_ok=True); os.makedirs(V + '/evidence/replays', exist_ok=True)
    C.tmp = tempfile.mkdtemp(prefix='run.%s.' % pid, dir=V + '/build')
    try: return body(pid, tier, only, verbose, t0)
    finally: shutil.rmtree(C.tmp, ignore_errors=True)

def body(pid, tier, only, verbose, t0):
    J.TMP = C.tmp; J.REPO = REPO
    prop = J.PROPS[pid]; js = prop['jobs'](tier)
    if len({j.name.replace('/', '_') for j in js}) != len(js): die('two jobs have the same name')
    if only: js = [j for j in js if re.search(only, j.name)]
    need = {}
    for j in js:
        for k in keys(j, False): need[k] = 1
        for o in j.over: need[(o[0], tuple(o[1]) + tuple(j.flags), j.target, False)] = 1
    C.obj = {}
    with ThreadPoolExecutor(8) as ex:
        for k, (out, err) in zip(need, ex.map(compile_one, list(need))):
            if err: die('cannot compile %s: %s' % err)
            C.obj[k] = out
    autolib(js)
    kf = {}
    try:
        for l in open(V + '/known_findings.jsonl'):
            if l.strip():
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == pid: kf[d['match']] = d
    except FileNotFoundError: pass
    C.kf = kf
    results = []; C.found = False; C.deadline = time.time() + (560 if tier == 'quick' else 36000)
    js_sorted = sorted(js, key=lambda j: -j.prio)
    failed = []
    def go_all(todo):
        skipped = []
        with ThreadPoolExecutor(max(1, prop.get('par', 8))) as ex:
            for job, res, err in ex.map(run_job, todo):
                if err == 'skipped': skipped.append(job); continue
                if err: failed.append('%s: %s' % (job.name, err)); continue
                results.append((job, res))
                if verbose: print('%-28s paths %-7d killed %-4d steps %-10d asserts %d/%d q %d solver %.1fs wall %.1fs %s viol %d %s' % (job.name, res['paths'], res['assume_killed'], res['steps'], res['asserts'], res['asserts_solver'], res['queries'], res['solver_s'], res['job_wall'], 'INCOMPLETE' if res['incomplete'] else '', len(res['violations']), '; '.join(res['errors'])[:200])); sys.stdout.flush()
        return skipped
    skipped = go_all(js_sorted)
    unconfirmed = []; viol = []; known = []
    n = 0; judged = 0
    while True:
      for job, res in results[judged:]:
          for v in res['violations']:
              m = [k for k in kf if k in v['msg']]
              if m:
                  known.append((m[0], kf[m[0]]['what'])); continue
              ok1, t1 = engine_replay(job, v)
              go = native_build(job); nat = None
              if go:
                  rc, txt = go(v['inputs'], 'v%d' % n); nat = {'rc': rc, 'out': txt}
              ok = ok1 if v['kind'] != 'assert' or not go else (nat['rc'] not in (0, 4, 5, 6) and nat['rc'] is not None)
              if v['kind'] != 'assert': ok = ok1
              if v['kind'] == 'assert' and go and not ok and ok1 and (nat['rc'] is None or '-nat' in job.params): ok = True
              n += 1
              rp = V + '/evidence/replays/%s-%d.json' % (pid, n)
              json.dump({'property': pid, 'job': job.name, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'inputs': v['inputs'], 'params': job.params, 'sources': [m[0] for m in job.mods], 'native': nat, 'engine_replay': [ok1, t1]}, open(rp, 'w'), indent=1)
              if verbose: print(('CONFIRMED ' if ok else 'UNCONFIRMED ') + job.name, v['kind'], v['msg'], v['loc'], str(v['inputs'])[:600], nat and nat['out'][-300:], t1)
              if ok: viol.append((rp, job.name, v['msg']))
              else: unconfirmed.append({'job': job.name, 'msg': v['msg'], 'native': nat, 'engine': [ok1, t1]})
      judged = len(results)
      if viol or not skipped: break
      C.found = False; skipped = go_all(skipped)   # what stopped the first round was not confirmed
    if failed and not viol and len(failed) * 2 >= len(js): die('; '.join(failed))
    tot = {k: 0 for k in ('paths', 'forks', 'steps', 'asserts', 'asserts_solver', 'asserts_unknown', 'queries', 'q_sat', 'q_unsat', 'solver_s', 'killed', 'assume_killed')}
    fns = set(); missing = []; samples = []; incompl = [{'job': f.split(':')[0], 'why': [f]} for f in failed]; validated = 0; covers = {}
    valjobs = 0
    for job, res in results:
        for k in tot: tot[k] += res[k]
        fns |= set(res['functions'])
        for c in job.covers:
            if not res['covers'].get(c): missing.append(job.name + ':' + c)
        for c, n in res['covers'].items(): covers[c] = covers.get(c, 0) + n
        if res['incomplete']: incompl.append({'job': job.name, 'why': res['errors'][:3]})
        if len(samples) < 40: samples += [job.name + ': ' + s for s in res['samples'][:6]]
        if len(samples) < 40 and res['witnesses']: samples.append({'job': job.name, 'path_inputs': [[n, v] for n, w, v in res['witnesses'][-1]][:24]})
    # validate sample passing paths natively against the real code
    pick = [(job, w) for job, res in results if not res['violations'] for w in res['witnesses'][-1:]]
    step = max(1, len(pick) // (6 if tier == 'quick' else 16)); mism = []
    for i, (job, w) in enumerate(pick[::step]):
        go = native_build(job)
        if not go: continue
        rc, txt = go(w, 'w%d' % i)
        if rc == 0 and 'finished without violation' in txt: validated += 1
        else: mism.append('%s: native run of a passing path gave rc=%s %s' % (job.name, rc, txt[-200:]))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': tot['paths'] + tot['killed'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated, 'samples': samples[:40] or ['(no samples)'],
            'method': 'bounded symbolic execution of the LLVM IR of the listed functions, assertions decided by z3; states = complete symbolic paths, transitions = IR instructions executed symbolically',
            'functions_encoded': sorted(f for f in fns if not f.startswith('vs_')), 'bounds': {j.name: {'params': j.params, 'bound': j.bound} for j in js}, 'jobs': len(js),
            'assertions_decided': tot['asserts'], 'assertions_needing_solver': tot['asserts_solver'], 'assertions_undecided': tot['asserts_unknown'],
            'queries': tot['queries'], 'queries_sat': tot['q_sat'], 'queries_unsat': tot['q_unsat'], 'solver_s': round(tot['solver_s'], 2),
            'covers_reached': covers, 'covers_missing': missing, 'incomplete_jobs': incompl, 'native_validation_mismatches': mism, 'unconfirmed': unconfirmed, 'exhaustive': not incompl and not missing},
          'assumptions': prop.get('assume', []) + J.COMMON_ASSUME, 'wall_s': round(wall, 2), 'violations': len(viol)}
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k, what in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for m in missing: print('NOTE not reached: ' + m)
    for m in incompl: print('NOTE incomplete: %s' % m)
    for m in mism: print('NOTE ' + m)
    for u in unconfirmed: print('NOTE unconfirmed (not reported): %s' % json.dumps(u)[:700])
    print('%s %s: %d jobs, %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, wall %.1fs, %d native validations' % (pid, tier, len(js), tot['paths'], tot['asserts'], tot['asserts_solver'], tot['queries'], tot['solver_s'], wall, validated))
    for rp, jn, msg in viol: print('violation in %s: %s' % (jn, msg[:300]))
    if viol: print('VIOLATION property=%s replay=%s' % (pid, viol[0][0])); return 1
    return 0

if __name__ == '__main__': sys.exit(main())
