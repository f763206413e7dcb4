#!/usr/bin/env python3
"""Runs the symbolic checks of one property: check.py PROP [--tier quick|thorough] [--unit NAME] [-v]
Every unit compiles a harness together with the current sources under /repo to LLVM IR, explores it with
build/symx, replays sample paths on the natively compiled code and replays every counterexample."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo'); B = V + '/build'
sys.path.insert(0, V)
import units as UNITS
INC = ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + V + '/harness/shim', '-I' + REPO]
BCF = ['-march=native', '-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-gline-tables-only', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSX_SYMBOLIC=1', '-fno-threadsafe-statics']
LOG = []; T0 = time.time()
def log(*a):
    s = '[%6.1f] ' % (time.time() - T0) + ' '.join(str(x) for x in a); LOG.append(s)
    if ARGS.v: print(s, file=sys.stderr, flush=True)
def run(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd, errors='replace'); return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return 'timeout', d(x.stdout), d(x.stderr)
class Fail(Exception): pass
def lang(src): return 'c' if src.endswith('.c') else 'c++'
def srcpath(s): return s if s.startswith('/') else (V + '/harness/' + s if os.path.exists(V + '/harness/' + s) else REPO + '/' + s)
def cflags(u, src, native=False):
    f = (['-std=' + u.get('cstd', 'gnu11')] if lang(src) == 'c' else ['-std=' + u.get('std', 'gnu++17')]) + INC
    if src in u.get('repo_only_defs', {}): f += u['repo_only_defs'][src]
    if u.get('adapt'): f += ['-I' + REPO + '/' + u['adapt'][1]] if native and u.get('ncc', 'gcc') == 'gcc' else ['-I' + ADAPTED + '/' + u['adapt'][0]] + u['adapt'][2]
    return f + ['-I' + srcpath(i) if not i.startswith('/') else '-I' + i for i in u.get('incs', [])] + u['defs'] + u.get('cflags', [])
SH = {}; SHL = threading.Lock()
def shared(u, s, cmd, ext, d):
    """sources that do not look at the unit's macros are compiled once per run"""
    import hashlib
    k = hashlib.sha1(' '.join(cmd).encode()).hexdigest()[:16]; sd = os.path.dirname(d) + '/shared'; o = '%s/%s.%s' % (sd, k, ext)
    with SHL: os.makedirs(sd, exist_ok=True); l = SH.setdefault(o, threading.Lock())
    with l:
        if not os.path.exists(o):
            rc, _, err = run(cmd + ['-o', o + '.tmp'])
            if rc != 0: raise Fail('compile ' + s + ': ' + err[-3000:])
            os.rename(o + '.tmp', o)
    return o
def nodefs(u): return dict(u, defs=[])
def sources(u): return [u['src']] + u.get('srcs', [])
def build_bc(u, d):
    outs = []
    for i, s in enumerate(sources(u)):
        o = '%s/m%d.bc' % (d, i); cc = 'clang-18' if lang(s) == 'c' else 'clang++-18'
        if i and u.get('shared'): outs.append(shared(u, s, [cc] + cflags(nodefs(u), s) + BCF + [srcpath(s)], 'bc', d)); continue
        rc, _, err = run([cc] + cflags(u, s) + BCF + [srcpath(s), '-o', o]);
        if rc != 0: raise Fail('compile ' + s + ': ' + err[-3000:])
        outs.append(o)
    p = d + '/p.bc'; rc, _, err = run([B + '/symx', '--prep', p] + outs)
    if rc != 0: raise Fail('prep: ' + err[-2000:])
    if u.get('thr'):
        q = d + '/i.bc'; rc, _, err = run([B + '/symx', '--instrument', p, q])
        if rc != 0: raise Fail('instrument: ' + err[-2000:])
        return q
    return p
def build_native(u, d, kind):
    """kind: plain, asan, pattern, zero.  Sequential units are compiled from source by g++, concurrent ones from the instrumented IR."""
    exe = d + '/native-' + kind
    if os.path.exists(exe): return exe
    tmp = exe + '.tmp'
    if u.get('thr'):
        san = ['-fsanitize=address'] if kind == 'asan' else []
        rc, _, err = run(['clang++-18', '-O1', '-march=native', '-w', '-x', 'ir', d + '/i.bc', '-x', 'none', B + '/rtt.o', B + '/sx_native.o', '-o', tmp, '-lpthread'] + san + u.get('libs', []))
    else:
        fl = {'plain': ['-O1', '-g0'], 'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,nonnull-attribute,shift,signed-integer-overflow,pointer-overflow', '-fno-omit-frame-pointer'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern'], 'zero': ['-O1', '-ftrivial-auto-var-init=zero'], 'dbg': ['-O1', '-g1']}[kind]
        objs = []; procs = []
        for i, s in enumerate(sources(u)):
            o = '%s/n%d-%s.o' % (d, i, kind); cc = ('gcc' if lang(s) == 'c' else 'g++') if u.get('ncc', 'gcc') == 'gcc' else ('clang-18' if lang(s) == 'c' else 'clang++-18')
            if i and u.get('shared'): objs.append(shared(u, s, [cc] + cflags(nodefs(u), s, True) + ['-march=native', '-w', '-fpermissive' if lang(s) == 'c++' else '-w'] + fl + ['-c', srcpath(s)], 'o', d)); continue
            procs.append((s, subprocess.Popen([cc] + cflags(u, s, True) + ['-march=native', '-w', '-fpermissive' if lang(s) == 'c++' else '-w'] + fl + ['-c', srcpath(s), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE))); objs.append(o)
        for s, p in procs:
            err = p.communicate()[1].decode(errors='replace')
            if p.returncode: raise Fail('native compile ' + s + ': ' + err[-1500:])
        rc, _, err = run([('g++' if u.get('ncc', 'gcc') == 'gcc' else 'clang++-18')] + fl + objs + [B + '/sx_native.o', '-o', tmp, '-lpthread'] + u.get('libs', []))
    if rc != 0: raise Fail('native build: ' + err[-1500:])
    os.rename(tmp, exe); return exe
def obs_of(txt): return [l.split()[1:] for l in txt.splitlines() if l.startswith('obs ')]
def native_run(u, d, kind, inp, timeout=30, env=None, pre=[]):
    exe = build_native(u, d, kind); e = {'SX_INPUT': inp, 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:detect_odr_violation=0', 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=78', 'SX_SPIN': str(u.get('spin', 4000))}; e.update(env or {})
    return run(pre + [exe], timeout=timeout, env=e, cwd=d)
def validate(u, d, r):
    """native replay of sampled paths: the real build must observe what the symbolic path predicted"""
    ok = bad = 0; r['mismatch'] = []; sm = sorted(glob.glob(d + '/sample-*.txt'))
    if not sm or u.get('native') is False: return
    step = max(1, len(sm) // u.get('nsamples', 10)); sm = sm[::step][:u.get('nsamples', 10)]
    for s in sm:
        txt = open(s).read(); want = obs_of(txt); rc, out, err = native_run(u, d, 'plain', s); got = obs_of(out)
        # observations that depend on uninitialised bytes are absent from the prediction
        gi = 0; good = rc == 0
        for w in want:
            while gi < len(got) and got[gi][0] != w[0]: gi += 1
            if gi >= len(got) or int(got[gi][1], 16) != int(w[1], 16): good = False; break
            gi += 1
        if good: ok += 1; r['samples'].append({'unit': u['name'], 'inputs': [l for l in txt.splitlines() if l[:3] == 'in '][:40], 'schedule': [l for l in txt.splitlines() if l[:6] == 'sched '][:20], 'observed': [' '.join(w) for w in want][:20]})
        else: bad += 1; r['mismatch'].append({'sample': os.path.basename(s), 'rc': rc, 'err': err[-300:], 'want': want[:12], 'got': got[:12]}); log('MISMATCH', u['name'], s, rc, err[-300:])
    r['validated'] = ok; r['mismatches'] = bad
def confirm(u, d, vf, info):
    kind = info['kind']; un = info.get('uninit') == '1'; tries = []
    def t(bk, env=None, pre=[], label=None, timeout=30):
        try: rc, out, err = native_run(u, d, bk, vf, timeout=timeout, env=env, pre=pre)
        except Fail as x: tries.append((label or bk, 'build failed: ' + str(x)[-200:])); return False
        tries.append((label or bk, rc, err.strip()[-400:]))
        if 'SX-DIVERGED' in err or 'SX-ASSUME' in err or rc in (90, 91, 92): return False
        if rc == 'timeout': return kind == 'hang'
        if rc == 42 or 'SX-ASSERT' in err: return True
        if rc in (77, 78) or 'AddressSanitizer' in err or 'runtime error' in err: return True
        if isinstance(rc, int) and rc < 0: return True   # killed by a signal
        if pre and 'sx_assert' in err and 'uninitialised' in err: return True
        return False
    order = ['plain', 'asan'] if kind in ('assert', 'hang', 'abort', 'arith') else ['asan', 'plain']
    for k in order:
        if t(k): return True, tries
    if un or kind == 'memory':
        for p in ('165', '90', '255', '1'):
            if t('plain', env={'MALLOC_PERTURB_': p}, label='plain perturb ' + p): return True, tries
        if not u.get('thr'):
            for k in ('pattern', 'zero'):
                if t(k): return True, tries
            if t('dbg', pre=['valgrind', '-q', '--error-exitcode=0'], label='valgrind', timeout=120): return True, tries
    return False, tries
def read_viol(f):
    r = {'inputs': [], 'sched': [], 'trace': []}; tr = False
    for l in open(f, errors='replace').read().splitlines():
        if tr: r['trace'].append(l)
        elif l.startswith('in '): r['inputs'].append(l[3:])
        elif l.startswith('sched '): r['sched'].append(l[6:])
        elif l == 'trace': tr = True
        else:
            k, _, v = l.partition(' '); r[k] = v
    return r
def do_unit(prop, u, work, jobs):
    d = work + '/' + u['name']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); t0 = time.time()
    r = {'name': u['name'], 'samples': [], 'validated': 0, 'mismatches': 0, 'viol': [], 'unconfirmed': [], 'error': None, 'stats': {}, 'summary': {}, 'covers': {}, 'why': {}, 'funcs': [], 'mismatch': []}
    try:
        bc = build_bc(u, d); t1 = time.time(); r['build_s'] = round(t1 - t0, 2)
        files = [bc, B + '/rt.bc', B + '/rts.bc'] + ([B + '/rtt.bc'] if u.get('thr') else [])
        lim = u['time'] * (1 if ARGS.tier == 'quick' else 1)
        for attempt in (0, 1):
            for f in glob.glob(d + '/stat-*') + glob.glob(d + '/viol-*') + glob.glob(d + '/sample-*'): os.unlink(f)
            rc, out, err = run([B + '/symx', '--out', d, '--jobs', str(jobs), '--time', str(lim), '--samples', '4', '--spin', str(u.get('spin', 4000))] + u.get('opts', []) + files, timeout=lim + 120)
            if rc in (0, 1): break
            log('symx rc', rc, err[-500:]); jobs = max(1, jobs // 2)
        r['symx_s'] = round(time.time() - t1, 2)
        if rc not in (0, 1): raise Fail('symx ended with %s: %s' % (rc, err[-800:]))
        r['summary'] = json.load(open(d + '/summary.json'))
        fs = set()
        for f in glob.glob(d + '/stat-*.json'):
            try: j = json.load(open(f))
            except Exception as x: log('bad stat', f, x); continue
            for k, v in j.items():
                if k in ('maxDepth', 'maxq'): r['stats'][k] = max(r['stats'].get(k, 0), v)
                elif k == 'covers':
                    for a, b in v.items(): r['covers'][a] = r['covers'].get(a, 0) + b
                elif k == 'why':
                    for a, b in v.items(): r['why'][a] = r['why'].get(a, 0) + b
                elif k == 'funcs': fs.update(v)
                else: r['stats'][k] = r['stats'].get(k, 0) + v
        r['funcs'] = sorted(fs)
        for f in sorted(glob.glob(d + '/viol-*.txt')):
            info = read_viol(f); good, tries = confirm(u, d, f, info); info['file'] = f; info['tries'] = [list(x) for x in tries]
            log('violation', u['name'], info.get('kind'), info.get('msg'), info.get('loc'), 'confirmed' if good else 'NOT confirmed', tries if not good else tries[-1])
            (r['viol'] if good else r['unconfirmed']).append(info)
        try: validate(u, d, r)
        except Fail as x: r['mismatch'].append({'error': str(x)}); log('native', u['name'], str(x)[-1500:])
    except Fail as x: r['error'] = str(x)
    r['wall_s'] = round(time.time() - t0, 2)
    log('unit', u['name'], 'wall', r['wall_s'], 'build', r.get('build_s'), 'symx', r.get('symx_s'), 'paths', r['stats'].get('paths'), 'completed', r['stats'].get('completed'), 'z3', r['stats'].get('z3'), 'order', r['stats'].get('order'), 'solver_s', round(r['stats'].get('solver_s', 0), 1), 'timedOut', r['summary'].get('timedOut'), 'rounds', r['summary'].get('rounds'), 'confl', r['summary'].get('conflicts'), 'valid', r['validated'], 'mism', r['mismatches'], 'covers', r['covers'], 'why', r['why'], 'killed', r['stats'].get('assumeKilled'), 'error' if r['error'] else '', r['error'] or '')
    return r
def known(prop):
    res = []; p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) unit=(\S+) kind=(\S+) loc=(\S+) msg="(.*?)"\s*(.*)', l)
            if m and m.group(1) == prop: res.append(m.groups())
    return res
def main():
    global ARGS
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--unit'); ap.add_argument('-v', action='store_true'); ap.add_argument('--par', type=int); ap.add_argument('--keep', action='store_true'); ARGS = ap.parse_args()
    prop = ARGS.prop; P = UNITS.PROPS[prop]; us = [u for u in P['units'](ARGS.tier)]
    if ARGS.unit: us = [u for u in us if re.fullmatch(ARGS.unit, u['name'])]
    for u in us: u.setdefault('defs', []); u.setdefault('time', 20); 
    work = V + '/work/' + prop + '-' + ARGS.tier; os.makedirs(work, exist_ok=True); shutil.rmtree(work + '/shared', ignore_errors=True)
    # sources clang does not take as they stand are copied in a spelling it takes; replays use the originals and gcc
    global ADAPTED; ADAPTED = work + '/adapted'; shutil.rmtree(ADAPTED, ignore_errors=True)
    for a in {u['adapt'][0] for u in us if u.get('adapt')}:
        rc, _, err = run([sys.executable, V + '/tools/' + a + '.py', REPO, ADAPTED + '/' + a])
        if rc != 0: print('adapt ' + a + ': ' + err[-2000:]); sys.exit(2)
    if not os.path.exists(B + '/symx'): subprocess.run(['make', '-s', '-C', V + '/engine', '-j8'], check=True)
    n = ARGS.par or min(len(us), P.get('par', 4)); jobs = max(2, 8 // max(1, n))
    with cf.ThreadPoolExecutor(n) as ex: res = list(ex.map(lambda u: do_unit(prop, u, work, u.get('jobs', jobs)), us))
    kn = known(prop); nviol = 0; hit = set(); errs = []; lines = []
    for r in res:
        if r['error']: errs.append(r['name'] + ': ' + r['error'])
        for v in r['viol']:
            k = next((x for x in kn if re.fullmatch(x[1], r['name']) and x[2] == v.get('kind') and re.search(x[3], v.get('loc', '')) and x[4] in v.get('msg', '')), None)
            if k:
                if k not in hit: hit.add(k); lines.append('KNOWN-FINDING: property=%s %s' % (prop, k[5] or k[4]))
                continue
            nviol += 1; lines.append('  %s: %s: %s at %s' % (r['name'], v.get('kind'), v.get('msg'), v.get('loc'))); lines.append('VIOLATION property=%s replay=%s' % (prop, v['file']))
    tot = lambda k: sum(int(r['stats'].get(k, 0)) for r in res)
    funcs = sorted({f for r in res for f in r['funcs']})
    ev = {'property': prop, 'tier': ARGS.tier if ARGS.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': nviol,
      'coverage': {'states': tot('paths'), 'transitions': tot('forks') + tot('steps'), 'traces_validated_against_impl': sum(r['validated'] for r in res), 'samples': [s for r in res for s in r['samples'][:2]][:8] or [{'unit': r['name'], 'covers': r['covers']} for r in res][:4],
        'meaning': 'states = symbolic paths explored (each stands for every input satisfying its path condition), transitions = executed IR instructions plus forks; traces = sampled paths whose observations the natively compiled code reproduced',
        'exhaustive': all(not r['error'] and not r['summary'].get('timedOut') and not r['why'] and not r['stats'].get('left') for r in res),
        'assertions_checked': tot('asserts'), 'assertions_proved': tot('assertsProved'), 'queries': tot('queries'), 'queries_z3': tot('z3'), 'queries_order_closure': tot('order'), 'queries_cached': tot('cacheHits'), 'queries_brute_force': tot('bruteForce'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'solver_s': round(sum(r['stats'].get('solver_s', 0) for r in res), 2),
        'functions_encoded': len(funcs), 'functions': [f[:100] for f in funcs if 'St' not in f[:6]][:150],
        'units': [{'name': r['name'], 'bounds': u.get('bounds', ' '.join(u['defs'])), 'paths': r['stats'].get('paths', 0), 'completed': r['stats'].get('completed', 0), 'time_limit_hit': bool(r['summary'].get('timedOut')), 'paths_left_at_least': r['stats'].get('left', 0), 'incomplete': r['why'], 'rounds': r['summary'].get('rounds'), 'conflict_granules': r['summary'].get('conflicts'), 'covers': r['covers'], 'max_fork_depth': r['stats'].get('maxDepth'), 'wall_s': r['wall_s'], 'validated': r['validated'], 'mismatches': r['mismatches'], 'unconfirmed': [{'msg': x.get('msg'), 'loc': x.get('loc')} for x in r['unconfirmed']][:4], 'error': (r['error'] or '')[:300]} for r, u in zip(res, us)]},
      'assumptions': P.get('assumptions', []) + ['sequential consistency of memory accesses', 'clang-18 IR at -O1 with explicit uninitialised locals is taken as the semantics of the source', 'libc/libstdc++ binaries are replaced by models in rt/ and engine/builtins.inc', 'allocation never fails']}
    os.makedirs(V + '/evidence', exist_ok=True); s = json.dumps(ev, indent=1)
    while len(s) > 60000 and ev['coverage']['functions']: ev['coverage']['functions'] = ev['coverage']['functions'][:len(ev['coverage']['functions']) // 2]; ev['coverage']['samples'] = ev['coverage']['samples'][:3]; s = json.dumps(ev, indent=1)
    if not ARGS.unit: open(V + '/evidence/' + prop + '.json', 'w').write(s)
    for l in lines: print(l)
    if not nviol:
        for e in errs: print('ERROR', e)
    print('%s %s: %d units, %d paths, %d queries, %.1f s%s' % (prop, ARGS.tier, len(us), tot('paths'), tot('queries'), time.time() - T0, '' if ev['coverage']['exhaustive'] else ' (some bounds not exhausted)'))
    if not ARGS.keep and not nviol:
        for r in res:
            d = work + '/' + r['name']
            for f in glob.glob(d + '/*'):
                if not f.endswith('.txt') and os.path.isfile(f): os.unlink(f)
    sys.exit(1 if nviol else 2 if errs or any(not r['stats'].get('completed') for r in res) else 0)
main()
