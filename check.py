#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Compiles /repo's current sources together with the property's harnesses to LLVM
bitcode, executes them symbolically (build/symex) and reports what the solvers
decided.  A counterexample is replayed on a native build of the same sources and
reported as VIOLATION only when it reproduces there."""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = '/repo'
BUILD = V + '/build'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['make', '-C', V + '/engine', '-j8'])
        if r.returncode:
            print(r.stdout[-3000:]); sys.exit(2)

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf-')
        self.jobs = []; self.viol = []; self.unconf = []; self.notes = []; self.functions = set()
        self.traces = 0; self.trace_bad = []; self.samples = []; self.known = []
    # one harness group: dict(h=file, flags=[], env={}, init=bool, jobs=[(name, entry, secs, params, need_reach)])
    def group(self, g, gi):
        h = V + '/harness/' + g['h'] if not g['h'].startswith('/') else g['h']
        env = dict(os.environ, **g.get('env', {}))
        bc = '%s/g%d.bc' % (self.tmp, gi)
        flags = g.get('flags', [])
        r = sh([V + '/tools/bc.sh', bc, h] + flags, env=env)
        if r.returncode:
            print(r.stdout[-3000:]); print('harness %s does not compile with the current sources' % g['h'])
            self.notes.append('harness %s does not compile' % g['h']); self.broken = True
            return
        nat = '%s/n%d' % (self.tmp, gi)
        native = None
        if g.get('native', True):
            native = subprocess.Popen([V + '/tools/native.sh', nat, h, 'plain'] + g.get('nflags', flags), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        jf = '%s/jobs%d' % (self.tmp, gi)
        byname = {}
        with open(jf, 'w') as f:
            if g.get('init', True): f.write('init\tsym_init\n')
            for j in g['jobs']:
                name, entry, secs, params = j[:4]
                byname[name] = j
                f.write('%s\t%s\t%d\t%s\n' % (name, entry, secs, ','.join([params] * bool(params) + ['@seed=%d' % SEED])))
        out = '%s/out%d' % (self.tmp, gi)
        try:
            p = sh([BUILD + '/symex', bc, jf, out, '-j', str(g.get('par', 8))], timeout=g.get('timeout', 800))
            log = p.stdout
        except subprocess.TimeoutExpired:
            log = 'engine timeout'
        if native: natlog = native.communicate()[0]
        res = {}
        if os.path.exists(out):
            for l in open(out):
                try: d = json.loads(l)
                except ValueError: continue
                res.setdefault(d['job'], []).append(d)
        else:
            self.notes.append('engine: ' + log[-400:])
        todo = list(byname.items())
        if 'init' in res and (res['init'][0]['incomplete'] or res['init'][0]['candidates']):
            todo.append(('init', ('init', 'sym_init', 0, '')))
        elif g.get('init', True) and 'init' in res:
            self.functions |= set(res['init'][0].get('functions', []))
        # validate sampled witnesses natively
        if native and os.path.exists(nat):
            for name, j in todo:
                if name == 'init': continue
                for d in res.get(name, []):
                    for s in d.get('samples', []):
                        rc, o = self.replay(nat, j[1], j[3], s['model'], plain=True, noinit=not g.get('init', True))
                        self.traces += 1
                        if rc != 0 or 'REACHED ' + s['reach'] not in o:
                            self.trace_bad.append((name, rc, o[-200:], s['model']))
                        elif len(self.samples) < 12:
                            self.samples.append({'job': name, 'input': dict(list(s['model'].items())[:40]), 'native': 'agrees'})
        for name, j in todo:
            ds = res.get(name, [])
            agg = {'job': name, 'params': j[3], 'entry': j[1], 'complete': bool(ds) and not any(d['incomplete'] for d in ds), 'why': '; '.join({d['why'] for d in ds if d.get('why')})}
            for k in ('steps', 'paths', 'forks', 'merges', 'z3_checks', 'z3_sat', 'z3_unsat', 'z3_unknown', 'z3_time', 'vc_total', 'vc_const', 'vc_z3', 'bdd_only', 'opaque'):
                agg[k] = sum(d.get(k, 0) for d in ds)
            agg['seconds'] = max([d.get('seconds', 0) for d in ds] or [0])
            agg['input_bits'] = max([d.get('input_bits', 0) for d in ds] or [0])
            ck, rc = {}, {}
            for d in ds:
                for k, v in d.get('checks', {}).items(): ck[k] = ck.get(k, 0) + v[0]
                for k, v in d.get('reach', {}).items(): rc[k] = rc.get(k, 0) + v
                self.functions |= set(d.get('functions', []))
            agg['checks'] = ck; agg['reach'] = rc
            cands = []
            for d in ds: cands += [c for c in d['candidates'] if not (g.get('ub') and c['kind'] == 'check')]
            agg['candidates'] = len(cands)
            need = j[4] if len(j) > 4 else None
            if need and agg['complete'] and not cands:
                for r in need:
                    if not rc.get(r): self.notes.append('%s: never reached %s' % (name, r)); agg['complete'] = False; agg['why'] += ' vacuous: %s' % r
            self.jobs.append(agg)
            seen = set()
            for c in cands[:6]:
                key = (c['kind'], c['msg'])
                if key in seen: continue
                seen.add(key)
                self.confirm(g, h, gi, j, c, env, flags)
    def write_replay(self, path, h, entry, params, model, extra='', noinit=False):
        with open(path, 'w') as f:
            f.write('harness %s\nentry %s\n' % (h, entry))
            if noinit: f.write('noinit\n')
            for kv in params.split(','):
                if '=' in kv and kv[0] not in '@=': f.write('param %s %d\n' % (kv.split('=')[0], int(kv.split('=')[1], 0)))
            for k, v in model.items(): f.write('value %s %d\n' % (k, v))
            f.write(extra)
    def replay(self, exe, entry, params, model, plain=False, valgrind=False, noinit=False):
        rf = self.tmp + '/r.txt'
        self.write_replay(rf, '-', entry, params, model, noinit=noinit or entry == 'sym_init')
        env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0', UBSAN_OPTIONS='exitcode=99')
        cmd = [exe, rf]
        if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
        try:
            r = sh(cmd, env=env, timeout=60)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 98, 'timeout'
    def engine_replay(self, bc, g, j, model):
        # the compiled code cannot run on this machine: the executor runs it with the counterexample's values
        jf, out = self.tmp + '/cj', self.tmp + '/co'
        with open(jf, 'w') as f:
            if g.get('init', True): f.write('init\tsym_init\n')
            f.write('c\t%s\t100\t%s\n' % (j[1], ','.join([j[3]] * bool(j[3]) + ['@concrete=1'] + ['=%s=%d' % kv for kv in model.items()])))
        sh([BUILD + '/symex', bc, jf, out, '-j', '1'])
        c = [json.loads(l) for l in open(out)][-1]['candidates']
        return (1, 'concrete execution: ' + '; '.join('%s %s' % (x['kind'], x['msg']) for x in c)) if c else (0, '')
    def confirm(self, g, h, gi, j, c, env, flags):
        exe = '%s/%s%d' % (self.tmp, 'a', gi)
        if g.get('native', True) and not os.path.exists(exe):
            r = sh([V + '/tools/native.sh', exe, h, 'asan'] + g.get('nflags', flags), env=env)
            if r.returncode:
                self.notes.append('native build failed: ' + r.stdout[-300:]); return
        ni = not g.get('init', True)
        rc, o = self.replay(exe, j[1], j[3], c['model'], noinit=ni) if g.get('native', True) else self.engine_replay('%s/g%d.bc' % (self.tmp, gi), g, j, c['model'])
        ok = rc not in (0, 3, 4)
        if not ok and c['kind'] == 'uninit':
            ex2 = '%s/v%d' % (self.tmp, gi)
            if not os.path.exists(ex2): sh([V + '/tools/native.sh', ex2, h, 'plain'] + g.get('nflags', flags), env=env)
            rc, o = self.replay(ex2, j[1], j[3], c['model'], valgrind=True, noinit=ni)
            ok = rc not in (0, 3, 4)
        rec = {'job': j[0], 'kind': c['kind'], 'msg': c['msg'], 'where': c['where'][:300], 'model': dict(list(c['model'].items())[:200]), 'native_exit': rc, 'native': o[-400:]}
        if ok:
            d = BUILD + '/replays'; os.makedirs(d, exist_ok=True)
            path = '%s/%s-%s-%d.txt' % (d, self.prop, j[0], len(self.viol))
            self.write_replay(path, h, j[1], j[3], c['model'], '# %s %s\n# at %s\n# native exit %d: %s\n' % (c['kind'], c['msg'], c['where'][:300], rc, ' '.join(o[-300:].split())), noinit=ni)
            rec['replay'] = path
            self.viol.append(rec)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  %s %s in %s' % (c['kind'], c['msg'], c['where'][:200])); sys.stdout.flush()
        else:
            self.unconf.append(rec)
            print('UNCONFIRMED %s %s %s (native exit %d)' % (j[0], c['kind'], c['msg'], rc))

def threads(tier, R, ops, atomics, secs):
    """C23: per-thread event sequences from the symbolic executor, all interleavings and reads decided by z3"""
    h, fl = V + '/harness/h_thread.cpp', ['-include', V + '/harness/fault_pre.h']
    bc, jf, out = R.tmp + '/t.bc', R.tmp + '/tj', R.tmp + '/to'
    r = sh([V + '/tools/bc.sh', bc, h] + fl, env=dict(os.environ, RT='-DNO_THREADS'))
    if r.returncode:
        print(r.stdout[-3000:]); R.notes.append('harness h_thread.cpp does not compile'); R.broken = True
        return
    exe = R.tmp + '/tsan'
    nat = subprocess.Popen(['clang++-18', '-std=c++20', '-O1', '-g', '-fsanitize=thread', '-pthread', '-Wl,--allow-multiple-definition', '-DTHREAD_MAIN', '-Wno-everything', '-I/repo/include', '-I/repo/src', '-I' + V + '/harness'] + fl + [h, '/repo/src/idna.cpp', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(jf, 'w') as f:
        f.write('init\tsym_init\n')
        for k in ops: f.write('op%d\tone_thread\t%d\top=%d,@record=1,@atomics=%d,@seed=%d\n' % (k, secs, k, atomics, SEED))
    try: sh([BUILD + '/symex', bc, jf, out, '-j', '8'], timeout=secs * 3 + 100)
    except subprocess.TimeoutExpired: R.notes.append('engine timeout')
    natlog = nat.communicate()[0]
    agg0 = dict(complete=True, why='', steps=0, paths=0, forks=0, merges=0, z3_checks=0, z3_sat=0, z3_unsat=0, z3_unknown=0, z3_time=0, vc_total=0, vc_const=0, vc_z3=0, bdd_only=0, opaque=0, seconds=0, input_bits=0, checks={}, reach={}, candidates=0)
    for l in open(out) if os.path.exists(out) else []:
        d = json.loads(l)
        R.functions |= set(d.get('functions', []))
        a = dict(agg0, job=d['job'], entry='one_thread', params='@record=1', complete=not d['incomplete'], why=d.get('why', ''), steps=d.get('steps', 0), paths=d.get('paths', 0), forks=d.get('forks', 0), seconds=d.get('seconds', 0), input_bits=d.get('input_bits', 0))
        R.jobs.append(a)
        if d['job'] == 'init' and d['incomplete']: R.notes.append('set-up: ' + d['why'])
    t0 = time.time()
    try:
        p = subprocess.run(['python3-vt', V + '/threads.py', out, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700 if tier == 'quick' else 20000)
        d = json.loads(p.stdout)
    except (subprocess.TimeoutExpired, ValueError) as e:
        R.jobs.append(dict(agg0, job='interleavings', entry='', params='', complete=False, why='interleaving analysis gave no answer'))
        if not isinstance(e, subprocess.TimeoutExpired): R.notes.append('threads.py: ' + (p.stderr or p.stdout)[-300:])
        return
    R.jobs.append(dict(agg0, job='interleavings', entry='threads.py', params=json.dumps({k: d[k] for k in ('groups', 'jobs', 'paths', 'accepted', 'atomics')}), complete=not d['unknown'] and d['queries'] > 0, why='' if d['queries'] else 'no atomic operations found',
        vc_total=d['jobs'], vc_const=d['trivial'], vc_z3=d['queries'], z3_checks=d['queries'], z3_unsat=d['unsat'], z3_sat=len(d['violations']), z3_unknown=d['unknown'], z3_time=d['solver_seconds'], seconds=time.time() - t0))
    tsan = lambda args: subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=30, env=dict(os.environ, TSAN_OPTIONS='exitcode=66 halt_on_error=0'))
    if not os.path.exists(exe): R.notes.append('native threads: ' + natlog[-300:])
    elif not d['violations']:
        for args in (['0,0,5,0', '4,0,5,0', '3,2,5,0'], ['2,0,0,0', '1,40,0,0', '0,0,0,0'], ['0,0,5,1', '4,3,5,0']):
            r = tsan(args)
            R.traces += 1
            if r.returncode: R.trace_bad.append((args, r.returncode, r.stdout[-300:], ''))
    seen, tries = set(), {}
    for v in d['violations']:
        key = v['why'].split(' on ')[0]
        if key in seen or not os.path.exists(exe) or tries.get(key, 0) > 2 or (R.viol and tries.get(key, 0)): continue
        tries[key] = tries.get(key, 0) + 1
        ok, how, txt = False, None, ''
        o = [int(x[2:]) for x in v['ops']]
        f = [p['fault'] or 0 for p in v['paths']]
        sched = [(0, 0), (0, 60), (60, 0), (0, 3), (3, 0), (0, 20), (20, 0), (0, 150)]
        plans = [['%d,%d,%d,%d' % (o[i], (da, db, db)[i], nap, fl_[i]) for i in range(len(o))] for nap in (10, 0, 40) for da, db in sched for fl_ in [f, [0] * len(o)]]
        plans += [['%d,-1,%d,%d' % (o[i % len(o)], nap, f[i % len(o)]) for i in range(k)] for r_ in range(12) for k in (2 * len(o), 8) for nap in (0, 5)]
        for args in plans:
            if True:
                if True:
                    try:
                        r = tsan(args)
                        bad, txt = r.returncode != 0, r.stdout
                    except subprocess.TimeoutExpired: bad, txt = True, 'threads do not finish'
                    if bad: ok, how = True, args
            if ok: break
        rec = {'job': 'interleavings', 'kind': 'concurrency', 'msg': v['why'], 'where': 'threads', 'model': {}, 'paths': v['paths'], 'ops': v['ops']}
        if ok:
            seen.add(key)
            dd = BUILD + '/replays'; os.makedirs(dd, exist_ok=True)
            path = '%s/%s-threads-%d.txt' % (dd, R.prop, len(R.viol))
            with open(path, 'w') as fo:
                fo.write('# %s\n# build: clang++-18 -std=c++20 -fsanitize=thread -pthread -DTHREAD_MAIN -I/repo/include -I/repo/src -I%s/harness -include %s/harness/fault_pre.h %s /repo/src/idna.cpp\n# run with arguments (operation,start delay ms,delay inside set-up ms,fault): %s\n%s\n# execution found by the solver:\n%s\n' % (v['why'], V, V, h, ' '.join(how), txt[:3000], json.dumps(v, indent=1)))
            rec['replay'] = path
            R.viol.append(rec)
            print('VIOLATION property=%s replay=%s' % (R.prop, path))
            print('  ' + v['why']); sys.stdout.flush()
        else:
            R.unconf.append(rec)
            print('UNCONFIRMED ' + v['why'])

def known(R):
    mine = [l.split(' ', 4) for l in open(V + '/known_findings.txt') if l.startswith('known: property=%s ' % R.prop)]
    if not mine: return
    exe = R.tmp + '/known'
    if sh([V + '/tools/native.sh', exe, V + '/harness/h_known.cpp', 'plain']).returncode: return
    for l in mine:
        rc, o = R.replay(exe, l[3].split('=')[1], '', {}, noinit=True)
        if rc == 1:
            print('KNOWN-FINDING: property=%s %s' % (R.prop, l[4].strip()))
            R.known.append(l[4].strip())

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    import props
    P = props.PROPS[prop]
    build_engine()
    R = Run(prop, tier)
    R.broken = False
    try:
        groups = P['groups'](tier, R) if callable(P['groups']) else P['groups'][tier]
        for i, g in enumerate(groups):
            if only:
                g = dict(g, jobs=[j for j in g['jobs'] if j[0] in only])
                if not g['jobs']: continue
            R.group(g, i)
        if 'threads' in P: threads(tier, R, *P['threads'][tier])
        known(R)
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)
    own = sorted(f for f in R.functions if 'ada::idna' in f.split('(')[0] and not f.startswith('std::'))
    inc = [(j['job'], j['why']) for j in R.jobs if not j['complete']]
    J = R.jobs
    tot = lambda k: sum(j.get(k, 0) for j in J)
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
          'coverage': {
              'explanation': P['what'], 'bounds': P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'],
              'outside': P.get('outside', ''), 'stubs': P.get('stubs', props.STUBS),
              'states': tot('paths') + tot('forks'), 'transitions': tot('steps'),
              'traces_validated_against_impl': R.traces,
              'samples': R.samples[:8] or [{'job': j['job'], 'params': j['params']} for j in J][:4],
              'functions_encoded': own, 'functions_encoded_total': len(R.functions),
              'queries': {'assertions': tot('vc_total'), 'constant_after_encoding': tot('vc_const'), 'sent_to_solver': tot('vc_z3'),
                          'z3_checks': tot('z3_checks'), 'z3_unsat': tot('z3_unsat'), 'z3_sat': tot('z3_sat'), 'z3_unknown': tot('z3_unknown'), 'decided_by_bdd_alone': tot('bdd_only')},
              'solver_seconds': round(tot('z3_time'), 2), 'jobs': J,
              'complete': not inc and not R.broken, 'incomplete_jobs': inc, 'unconfirmed': R.unconf, 'sample_mismatches': R.trace_bad[:5], 'notes': R.notes, 'known_findings': R.known},
          'assumptions': P.get('assumptions', []) + props.TRUST, 'wall_s': round(time.time() - R.t0, 2), 'violations': len(R.viol)}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d complete, %d assertions, %d paths, %d unsat, z3 %.1fs, %d traces validated, wall %.1fs' % (
        prop, tier, len(J), len(J) - len(inc), tot('vc_total'), tot('paths'), tot('z3_unsat'), tot('z3_time'), R.traces, time.time() - R.t0))
    for n, w in inc: print('  incomplete: %s (%s)' % (n, w))
    for n in R.notes: print('  note: ' + n)
    for t in R.trace_bad[:3]: print('  SAMPLE MISMATCH', t)
    if R.viol: sys.exit(1)
    if R.broken: sys.exit(2)
    sys.exit(0)
main()
