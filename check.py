#!/usr/bin/env python3
"""Decides one property: compiles its harnesses together with /repo's current sources to LLVM bitcode, runs the
symbolic executor on them, replays counterexamples natively, and writes evidence/<id>.json.
usage: check.py <property> [--tier quick|thorough] [--unit NAME] [--keep]"""
import sys, os, re, json, subprocess, time, shutil, tempfile, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KSE_REPO', '/repo')
sys.path.insert(0, HERE)
import specs
ENG = HERE + '/engine'
NPROC = min(8, os.cpu_count() or 8)
CXX = 'clang++-18'

def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace')

def ensure_engine():
    kse = HERE + '/build/kse'
    srcs = [ENG + '/src/' + f for f in os.listdir(ENG + '/src')]
    if os.path.exists(kse) and all(os.path.getmtime(s) <= os.path.getmtime(kse) for s in srcs if not s.endswith('runtime.cc')):
        return kse
    rc, out = sh(['bash', ENG + '/build.sh', HERE + '/build'])
    if rc or not os.path.exists(kse):
        print(out); print('engine does not build'); sys.exit(2)
    return kse

def cflags(u, tier, work=None):
    f = ['-std=c++20', '-w', '-g0', '-msse4.1', '-mcx16', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DKSE']
    if not u.get('real_env'): f += ['-I' + ENG + '/stubs/env']
    if not u.get('real_random'): f += ['-I' + ENG + '/stubs/rnd']
    if work and u.get('rewrite'): f += ['-I' + shadow(u, work)]
    for d in u.get('stubs', []): f += ['-I' + ENG + '/stubs/' + d]
    f += ['-I' + ENG + '/stubs', '-I' + ENG + '/include', '-I' + HERE + '/harness', '-I' + REPO, '-isystem', REPO + '/external/growt', '-I' + REPO + '/external/growt',
          '-DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING', '-DKAMINPAR_COMPRESSION_INTERVAL_ENCODING', '-DKAMINPAR_SPARSEHASH_FOUND', '-DKAMINPAR_USES_GROWT',
          '-DKASSERT_ASSERTION_LEVEL=%d' % u.get('kassert', 10)]
    f += ['-D' + d for d in u.get('defs', [])]
    f += ['-DTIER=%d' % (1 if tier == 'thorough' else 0)]
    f += ['-D' + d for d in (u.get('tdefs', []) if tier == 'thorough' else u.get('qdefs', []))]
    return f

IRFLAGS = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-emit-llvm', '-c']

def shadow(u, work):
    """directory with copies of /repo files in which size constants are scaled down (rewrite rules of the unit)"""
    if not u.get('rewrite'): return None
    d = '%s/shadow_%s' % (work, hashlib.md5(json.dumps(u['rewrite']).encode()).hexdigest()[:8])
    if os.path.exists(d): return d
    miss = u.setdefault('rewrite_missed', [])
    for f, pat, rep in u['rewrite']:
        dst = d + '/' + f
        if not os.path.exists(REPO + '/' + f): miss.append(f); continue
        t = open(dst if os.path.exists(dst) else REPO + '/' + f).read()
        t2, n = re.subn(pat, rep, t)
        if not n: miss.append('%s: %s' % (f, pat))
        os.makedirs(os.path.dirname(dst), exist_ok=True); open(dst, 'w').write(t2)
    return d

def tus(u, work):
    d = shadow(u, work)
    r = [('h', HERE + '/harness/' + u['src'])]
    for s in u.get('repo', []): r.append(('r', d + '/' + s if d and os.path.exists(d + '/' + s) else REPO + '/' + s))
    for s in u.get('extra', []): r.append(('x', HERE + '/harness/' + s))
    r.append(('rt', ENG + '/src/runtime.cc'))
    return r

def modkey(u, tier):
    return hashlib.md5(json.dumps([u['src'], u.get('repo', []), u.get('extra', []), cflags(u, tier), u.get('ubsan', ''), u.get('irflags', []), u.get('rewrite', []), *(['mt'] if u.get('mt') else [])]).encode()).hexdigest()[:10]

def compile_tu(fl, src, o):
    cache = os.environ.get('KSE_CACHE')   # development only: reuse bitcode of identical preprocessed sources
    if not cache: return sh([CXX] + fl + [src, '-o', o], 600)
    pp = [f for f in fl if f not in ('-emit-llvm', '-c')]
    try: t = subprocess.run([CXX] + pp + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600).stdout
    except Exception: t = b''
    h = cache + '/' + hashlib.sha256(t + ' '.join(f for f in fl if not f.startswith('-I')).encode()).hexdigest() + '.bc'
    if t and os.path.exists(h): shutil.copy(h, o); return 0, ''
    rc, out = sh([CXX] + fl + [src, '-o', o], 600)
    if rc == 0 and t: os.makedirs(cache, exist_ok=True); shutil.copy(o, h + '.%d' % os.getpid()); os.replace(h + '.%d' % os.getpid(), h)
    return rc, out

def compile_module(pool, u, tier, work):
    """submit compile jobs of the module of u; returns a function that links and gives the path (or None, log)"""
    k = modkey(u, tier); jobs = []
    for i, (kind, src) in enumerate(tus(u, work)):
        o = '%s/%s_%d.bc' % (work, k, i)
        fl = cflags(u, tier, work) + IRFLAGS + u.get('irflags', [])
        if kind == 'rt': fl += ['-fno-builtin']
        elif u.get('ubsan'): fl += ['-fsanitize=' + u['ubsan'], '-fsanitize-trap=' + u['ubsan']]
        jobs.append((o, pool.submit(compile_tu, fl, src, o)))
    def link():
        log = ''
        for o, j in jobs:
            rc, out = j.result()
            if rc: log += out[-3000:]
        if log: return None, log
        m = '%s/%s.bc' % (work, k)
        rc, out = sh(['llvm-link-18'] + [o for o, _ in jobs] + ['-o', m])
        if rc: return None, out
        keep = sorted({x['entry'] for x in specs.UNITS[u['pid']] if modkey(x, tier) == k})
        sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(keep), m, '-o', m + '.o.bc'])
        if os.path.exists(m + '.o.bc'): os.replace(m + '.o.bc', m)
        return m, ''
    return link

def native_build(pool, u, tier, work):
    """native build of the module's sources with AddressSanitizer, for replaying counterexamples"""
    k = modkey(u, tier) + '_s'; jobs = []
    sf = ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-ffunction-sections', '-fdata-sections']
    if u.get('ubsan'): sf += ['-fsanitize=' + u['ubsan'], '-fno-sanitize-recover=all']
    fl = [f for f in cflags(u, tier, work) if f != '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + ['-DKSE_NATIVE', '-c'] + sf
    for i, (kind, src) in enumerate(tus(u, work)):
        o = '%s/%s_%d.o' % (work, k, i)
        jobs.append((o, pool.submit(sh, [CXX] + fl + [src, '-o', o], 600)))
    return lambda: native_link(jobs, '%s/%s.exe' % (work, k), sf)

def native_from_bc(pool, u, tier, work):
    """native code generated from the very bitcode the engine executed, for validating explored paths"""
    k = modkey(u, tier); jobs = []
    for i, (kind, src) in enumerate(tus(u, work)):
        o = '%s/%s_%d.vo' % (work, k, i)
        if kind == 'rt': cmd = [CXX] + cflags(u, tier, work) + ['-DKSE_NATIVE', '-O1', '-c', src, '-o', o]
        else: cmd = [CXX, '-w', '-O1', '-msse4.1', '-mcx16', '-ffunction-sections', '-fdata-sections', '-c', '%s/%s_%d.bc' % (work, k, i), '-o', o]
        if kind != 'rt' and u.get('mt'): # follow schedules: calls at the engine's scheduling points
            b = '%s/%s_%d.bc' % (work, k, i); rc, out = sh([HERE + '/build/kse', '--instrument', b, b[:-3] + '_i.bc'])
            if rc == 0: cmd[cmd.index(b)] = b[:-3] + '_i.bc'
        jobs.append((o, pool.submit(sh, cmd, 600)))
    return lambda: native_link(jobs, '%s/%s.vexe' % (work, k), [])

def native_link(jobs, b, sf):
    log = ''
    for o, j in jobs:
        rc, out = j.result()
        if rc: log += out[-3000:]
    if log: return None, log
    rc, out = sh([CXX] + sf + [o for o, _ in jobs] + ['-o', b, '-lpthread', '-rdynamic', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'])
    return (b, '') if rc == 0 else (None, out)

def run_native(exe, entry, seq, work, timeout=60):
    fn = tempfile.mktemp(dir=work)
    with open(fn, 'w') as f: f.write('\n'.join(str(x) for x in seq) + '\n')
    env = dict(os.environ, KSE_SEQ=fn, KSE_ENTRY=entry, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=79', MALLOC_PERTURB_='85')
    return sh([exe], timeout, env)

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--unit': only = a[i + 1]; i += 1
        elif a[i] == '--keep': keep = True
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); kse = ensure_engine()
    units = [u for u in specs.UNITS[prop] if (only is None or u['name'] == only) and (tier == 'thorough' or not u.get('thorough_only'))]
    work = tempfile.mkdtemp(prefix='kse_%s_' % prop, dir=os.environ.get('TMPDIR', '/tmp'))
    budget = 780 if tier == 'quick' else 6 * 3600
    known = []
    kf = HERE + '/known_findings.json'
    if os.path.exists(kf): known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == prop]
    pool = cf.ThreadPoolExecutor(NPROC); vpool = cf.ThreadPoolExecutor(3)
    links = {}; natives = {}; sanbuild = {}; vlink = {}
    for u in units:
        k = modkey(u, tier)
        if k not in links: links[k] = compile_module(pool, u, tier, work)
    mods = {}; results = []; viol = None; log = []; knownhit = {}
    def say(s): print(s); sys.stdout.flush(); log.append(s)
    for u in units:
        k = modkey(u, tier)
        if k not in mods:
            mods[k] = links[k]()
            if mods[k][0] is None: say('note: harness %s does not build against this tree:\n%s' % (u['src'], mods[k][1][:1500]))
        m = mods[k][0]
        if m is None: results.append((u, None)); continue
        if u.get('replay') != 'kse' and u.get('validate', True) and k not in natives: natives[k] = native_from_bc(vpool, u, tier, work)
        tl = u.get('timeout', (40, 600))[1 if tier == 'thorough' else 0]
        tl = min(tl, max(5, budget - (time.time() - t0)))
        out = '%s/%s.json' % (work, u['name'])
        cmd = [kse, '--module', m, '--entry', u['entry'], '--timeout', str(tl), '--procs', str(NPROC), '--out', out] + u.get('kse', [])
        for kn in known:
            if kn.get('unit') in (None, u['name']): cmd += ['--known', kn['match']]
        rc, o = sh(cmd, tl + 120)
        if rc or not os.path.exists(out): say('note: engine failed on %s: %s' % (u['name'], o[-500:])); results.append((u, None)); continue
        r = json.load(open(out)); results.append((u, r))
        say('%s: %s paths=%d infeasible=%d queries=%d (sat %d, unsat %d) assertions=%d symbolic + %d concrete, solver %.1fs, wall %.1fs%s' % (
            u['name'], 'complete' if r['complete'] else 'INCOMPLETE' + (' (deadline)' if r['deadline'] else ''), r['paths'], r['paths_infeasible'], r['queries'], r['sat'], r['unsat'],
            r['assertions_symbolic'], r['assertions_concrete'], r['solver_us'] / 1e6, r['wall_s'], ''.join('\n   engine: ' + e for e in r['errors'])))
        for lbl in u.get('reach', []):
            if not r['reach'].get(lbl): say('   note: label %s not reached' % lbl)
        for kh in r['known']:
            for kn in known:
                if kn['match'] in kh: knownhit[kn['match']] = kn
        for v in r['violations']:
            if viol: break
            if u.get('ignore_kinds') and v['kind'] in u['ignore_kinds']: continue
            # replay
            ok = False; rep = ''
            if u.get('replay') == 'kse':
                rc2, o2 = sh([kse, '--module', m, '--entry', u['entry'], '--timeout', '120', '--procs', '1', '--replay', ' '.join(str(x) for x in v['seq'])] + u.get('kse', []), 200)
                try: ok = len(json.loads(o2.strip().split('\n')[-1])['violations']) > 0
                except Exception: ok = False
                rep = 'replayed on the bitcode of the real code: ' + ('violation reproduced' if ok else 'not reproduced')
            else:
                for san in ((False,) if u.get('mt') else (False, True) if k in natives else (True, False)):
                    if san: exe, lg = sanbuild.get(k) or sanbuild.setdefault(k, native_build(pool, u, tier, work)())
                    else: exe, lg = (vlink.get(k) or vlink.setdefault(k, (natives.get(k) or native_from_bc(vpool, u, tier, work))()))
                    if exe is None: rep += 'native build failed: ' + lg[:500]; continue
                    rc2, o2 = run_native(exe, u['entry'], v['seq'], work)
                    rep += '[%s] exit %d\n%s\n' % ('asan' if san else 'plain', rc2, o2[-1500:])
                    if 'REPLAY-ASSUME-FALSE' in o2 or 'REPLAY-DIVERGED' in o2: continue
                    if rc2 != 0: ok = True; break
            if not ok and u.get('mt') and v['kind'] == 'memory':
                rc2, o2 = sh([kse, '--module', m, '--entry', u['entry'], '--timeout', '120', '--procs', '1', '--replay', ' '.join(str(x) for x in v['seq'])] + u.get('kse', []), 200)
                try: ok = len(json.loads(o2.strip().split('\n')[-1])['violations']) > 0
                except Exception: ok = False
                rep += 'replayed on the bitcode of the real code: ' + ('violation reproduced' if ok else 'not reproduced')
            v['reproduced'] = ok; v['replay_log'] = rep
            if ok: viol = (u, v)
            else: say('note: counterexample in %s did not reproduce against the real build (inconclusive): %s: %s\n   inputs %s\n%s' % (u['name'], v['kind'], v['msg'], str(v['inputs'])[:400], rep[-600:]))
        if viol: break
    # validate sampled paths against the native build
    validated = 0; mism = []; samples = []
    if not viol:
        for u, r in results:
            if not r: continue
            for s in r['samples'][:3]: samples.append({'unit': u['name'], 'inputs': s.get('inputs', s.get('seq'))})
            k = modkey(u, tier)
            if k not in natives: continue
            exe, lg = vlink.get(k) or vlink.setdefault(k, natives[k]())
            if exe is None: say('note: native build of %s failed: %s' % (u['name'], lg[:400])); continue
            for s in r['samples'][:16]:
                rc2, o2 = run_native(exe, u['entry'], s['seq'], work, 30)
                if rc2 == 0 and ('REPLAY-OK' in o2 or 'REPLAY-END' in o2): validated += 1
                else: mism.append((u['name'], s['seq'][:60], rc2, o2[-300:]))
        for mm in mism[:5]: say('note: path of %s behaves differently in the native build: %s' % (mm[0], mm[1:]))
    pool.shutdown(wait=False, cancel_futures=True); vpool.shutdown(wait=False, cancel_futures=True)
    good = [(u, r) for u, r in results if r]
    S = lambda k: sum(r[k] for _, r in good)
    fns = sorted({f for _, r in good for f in r['functions']})
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
          'assumptions': specs.ASSUME.get(prop, []) + specs.ASSUME_COMMON,
          'coverage': {
              'states': S('paths') + S('paths_infeasible'), 'transitions': S('forks'), 'traces_validated_against_impl': validated, 'samples': samples[:12],
              'exhaustive': bool(good) and all(r['complete'] for _, r in good) and len(good) == len(units),
              'states_meaning': 'execution paths of the real code explored symbolically (each covers every input satisfying its path condition); transitions = solver-decided forks',
              'queries_discharged': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'), 'solver_seconds': round(S('solver_us') / 1e6, 2),
              'z3_crosschecks': S('z3_crosschecks'), 'z3_disagreements': S('z3_disagree'), 'assertions_decided_symbolically': S('assertions_symbolic'), 'assertions_decided_concretely': S('assertions_concrete'), 'instructions_interpreted': S('instructions'),
              'functions_encoded': len(fns), 'functions_encoded_names': fns[:400],
              'harnesses': [{'name': u['name'], **({'constants_scaled_down': ['%s: %s -> %s' % tuple(x) for x in u['rewrite']], 'rewrites_without_effect': u.get('rewrite_missed', [])} if u.get('rewrite') else {}), 'bounds': u.get('bounds', {}).get(tier, '') if isinstance(u.get('bounds'), dict) else u.get('bounds', ''), 'complete': bool(r and r['complete']), 'deadline_hit': bool(r and r['deadline']),
                             **({k: r[k] for k in ('paths', 'paths_infeasible', 'paths_fuel', 'paths_unsupported', 'paths_cut', 'queries', 'solver_us', 'wall_s', 'reach', 'errors')} if r else {'error': 'not built or not run'})} for u, r in results],
              'path_replay_mismatches': [str(m)[:400] for m in mism[:5]], 'log': log[-60:]}}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for m, kn in knownhit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, kn['what']))
    rc = 0
    if viol:
        u, v = viol; d = HERE + '/evidence/replay'; os.makedirs(d, exist_ok=True); p = '%s/%s.json' % (d, prop)
        json.dump({'property': prop, 'unit': u['name'], 'harness': u['src'], 'entry': u['entry'], 'violation': v, 'how': 'KSE_SEQ=<file with seq> against the native build of the harness'}, open(p, 'w'), indent=1)
        print('counterexample (%s): %s: %s\n  inputs: %s\n  %s' % (u['name'], v['kind'], v['msg'], ', '.join('%s=%s' % tuple(x) for x in v['inputs'])[:1500], v['replay_log'].strip()[-800:]))
        print('VIOLATION property=%s replay=%s' % (prop, p)); rc = 1
    elif not good: print('no harness of %s could be built against this tree' % prop); rc = 2
    else: print('OK %s: held on everything explored (%.1fs)' % (prop, time.time() - t0))
    if not keep: shutil.rmtree(work, ignore_errors=True)
    else: print('work dir ' + work)
    sys.stdout.flush(); os._exit(rc)
main()
