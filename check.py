#!/usr/bin/env python3
# check.py <property> : decides one property by symbolic execution of /repo/src (see DESIGN.md).
import json, os, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); SRC = os.environ.get('CFT_SRC', '/repo/src')
sys.path.insert(0, HERE)
from jobs import JOBS
pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
if tier not in ('quick', 'thorough'): tier = 'quick'
only = sys.argv[2:]
t0 = time.time()
BUILD = os.path.join(HERE, 'build'); WORK = os.path.join(BUILD, 'run-%s' % pid)
def die(msg): print('check error: ' + msg, file=sys.stderr); sys.exit(2)
def sh(cmd, env=None, timeout=None): return subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, timeout=timeout)
r = sh(['bash', HERE + '/engine/build.sh', BUILD])
if r.returncode: die('engine build failed\n' + r.stderr[-2000:])
shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
jobs = [dict(j) for j in JOBS[pid] if (not only or j['name'] in only) and (tier == 'thorough' or not j.get('thorough_only'))]
def wrapper(j, native):   # Python under test: a script executes it symbolically; the names of the bindings come from _bindings.cpp
    out = os.path.join(WORK, j['name'] + ('.nat' if native else '.sym')); names = os.path.join(WORK, j['name'] + '.names')
    if native:
        d = os.path.join(WORK, j['name'] + '.dump'); r = sh(['bash', HERE + '/engine/symcc.sh', BUILD, HERE + '/harness/' + j['names'], d, SRC, '-DDUMP', '-DHT=0'], env=dict(os.environ, SXNATIVE='1'))
        if r.returncode: return die_later(j, native, r.stderr)
        open(names, 'w').write(sh([d, '/dev/null']).stdout)
    open(out + '.funcs', 'w').write('\n'.join(j['functions']))
    env = j.get('tenv', '') if tier == 'thorough' else ''
    open(out, 'w').write('#!/bin/bash\n%s exec python3-vt %s %s %s %s "$@"\n' % (env, HERE + '/harness/' + j['harness'], 'nat' if native else 'sym', SRC, names)); os.chmod(out, 0o755); return out
def compile(j, native):
    if 'names' in j: return wrapper(j, native)
    flags = ['-DSXP=%d' % int(pid[1:])] + j.get('flags', []) + (j.get('tflags', []) if tier == 'thorough' else j.get('qflags', []))
    env = dict(os.environ); env.pop('SXNATIVE', None)
    if native: env['SXNATIVE'] = '1'
    out = os.path.join(WORK, j['name'] + ('.nat' if native else '.sym'))
    r = sh(['bash', HERE + '/engine/symcc.sh', BUILD, HERE + '/harness/' + j['harness'], out, SRC] + flags, env=env)
    return out if r.returncode == 0 else die_later(j, native, r.stderr)
errors = []
def die_later(j, native, msg): errors.append('%s (%s): %s' % (j['name'], 'native' if native else 'symbolic', msg[-3000:])); return None
with ThreadPoolExecutor(8) as ex:
    for native in (False, True):
        for j in jobs: j['fut%d' % native] = ex.submit(compile, j, native)
    for j in jobs: j['sym'] = j['fut0'].result(); j['nat'] = j['fut1'].result()
if errors: die('harness does not build:\n' + '\n'.join(errors))
tcompile = time.time() - t0
def native(j, inp, tag):
    f = os.path.join(WORK, '%s.%s.in' % (j['name'], tag)); open(f, 'w').write(' '.join(map(str, inp)) + '\n')
    env = dict(os.environ); env['SX_ALARM'] = str(j.get('alarm', 20))
    try: r = sh([j['nat'], f], env=env, timeout=60)
    except subprocess.TimeoutExpired: return 'FAIL', 'timeout', f
    last = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else ''
    if r.returncode == 0 and last.startswith('OBS'): return 'OBS', last[4:], f
    if last.startswith('PRUNE'): return 'PRUNE', '', f
    if last.startswith('FAIL'): return 'FAIL', last[5:], f
    e = [l for l in r.stderr.split('\n') if 'ERROR' in l or 'runtime error' in l]
    return 'CRASH', (e[0] if e else 'signal/exit %d' % r.returncode)[:300], f
known = []
kf = os.path.join(HERE, 'known_findings.txt')
if os.path.exists(kf):
    for l in open(kf):
        if l.startswith('finding: property=%s ' % pid): known.append(l.split(' ', 2)[2].strip())
viols, unconf, knownhit, results, samples = [], [], [], [], []
nval = nagree = 0; fns = set()
for j in jobs:
    out = os.path.join(WORK, j['name'] + '.json'); env = dict(os.environ)
    lim = j.get('ttime', 200) if tier == 'thorough' else j.get('qtime', 20)
    env.update(SX_TIME=str(lim), SX_OUT=out, SX_WORKERS=str(j.get('workers', 8)))
    env.setdefault('SX_QTIMEOUT', '10000')
    if known: env['SX_KEEP_GOING'] = '1'
    try: r = sh([j['sym']], env=env, timeout=lim + 120)
    except subprocess.TimeoutExpired: r = None
    if r is None or not os.path.exists(out):
        die('%s: symbolic run gave no report: %s' % (j['name'], '' if r is None else r.stderr[-500:]))
    d = json.load(open(out)); names = open(j['sym'] + '.funcs').read().split('\n')
    j['fns'] = sorted({names[i] for i in d['fns'] if i < len(names)}); fns.update(j['fns'])
    for v in d['violations']:
        st, msg, f = native(j, v['input'], 'v%d' % len(viols))
        if st in ('FAIL', 'CRASH'):
            k = [x for x in known if x and x in v['msg']]
            if k: knownhit.append((k[0], v['msg'])); continue
            viols.append((j, v, st, msg, f))
        else: unconf.append(dict(job=j['name'], msg=v['msg'], native=st, input=v['input'][:200]))
    def val(s): return s, native(j, s['input'], 's' + hashlib.md5(str(s['input']).encode()).hexdigest()[:8])
    mism = []
    with ThreadPoolExecutor(8) as ex:
        for s, (st, msg, f) in ex.map(val, d['samples']):
            nval += 1
            if st == 'OBS' and msg == s['obs']: nagree += 1
            elif st == 'CRASH' or (st == 'FAIL'):
                if any(x and x in msg for x in known): knownhit.append((msg, msg)); continue
                viols.append((j, dict(msg='path input fails natively: ' + msg, kind='native', input=s['input']), st, msg, f))
            else: mism.append(dict(input=s['input'][:100], native=st + ' ' + msg, symbolic=s['obs']))
    missing = [c for c in j.get('covers', []) if not d['covers'].get(c)]
    if missing and not d['violations']: errors.append('%s: reachability witnesses not reached: %s' % (j['name'], missing))
    for s in d['samples'][:2]: samples.append(dict(harness=j['name'], input=s['input'][:120]))
    results.append(dict(harness=j['harness'], job=j['name'], bounds=j['bounds'], exhaustive=d['incomplete'] == 0, incomplete_flags=d['incomplete'],
        paths=d['completed'], pruned=d['pruned'], diverged=d['diverged'], branch_decisions=d['branches'], implied_without_query=d['implied'], queries=d['queries'], sat=d['sat'], unsat=d['unsat'], unknown=d['unknown'],
        solver_s=d['solver_s'], wall_s=d['wall_s'], witnesses=d['covers'], native_samples=len(d['samples']), native_mismatch=mism[:5], functions=j['fns']))
    print('%-22s %s paths=%d pruned=%d diverged=%d queries=%d unknown=%d solver=%.1fs wall=%.1fs samples=%d mismatch=%d viol=%d' % (j['name'], 'complete' if d['incomplete'] == 0 else 'bounded(%d)' % d['incomplete'], d['completed'], d['pruned'], d['diverged'], d['queries'], d['unknown'], d['solver_s'], d['wall_s'], len(d['samples']), len(mism), len(d['violations'])))
    if os.environ.get('SX_VERBOSE'): print('   covers', d['covers'], 'mism', mism[:3])
    if viols: break
S = lambda k: sum(r[k] for r in results)
rep = None
if viols:
    j, v, st, msg, f = viols[0]
    rep = os.path.join(HERE, 'evidence', 'replay-%s.txt' % pid); os.makedirs(os.path.dirname(rep), exist_ok=True)
    tr = sh([j['nat'], f], env=dict(os.environ, SX_TRACE='1')).stderr
    with open(rep, 'w') as o:
        o.write('%s\n# property %s, harness %s, job %s: %s\n# native replay: %s %s\n# first line: input values of the path (run replay.sh %s %s <this file>)\n# named inputs:\n' % (' '.join(map(str, v['input'])), pid, j['harness'], j['name'], v['msg'], st, msg, pid, j['name']))
        o.write('\n'.join('# ' + l for l in tr.split('\n')[:400]) + '\n')
ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viols),
  coverage=dict(states=S('paths'), transitions=S('branch_decisions'), traces_validated_against_impl=nagree, samples=samples[:12] or [dict(note='no completed path')],
    exhaustive=all(r['exhaustive'] for r in results), queries=S('queries'), unsat=S('unsat'), sat=S('sat'), unknown=S('unknown'), solver_s=round(S('solver_s'), 2), compile_s=round(tcompile, 1),
    native_samples_run=nval, functions_encoded=sorted(fns), jobs=results, unconfirmed_counterexamples=unconf, tree=SRC,
    explanation='states = symbolic paths completed (each stands for all inputs satisfying its path condition); transitions = symbolic branch decisions; every unexplored side of a branch is an SMT query; traces_validated = path models re-run natively (ASan/UBSan build of the same harness and source) with identical observations'),
  assumptions=sorted({a for j in jobs for a in j.get('assumes', [])}))
os.makedirs(HERE + '/evidence', exist_ok=True)
json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
for k, m in dict(knownhit).items(): print('KNOWN-FINDING: property=%s %s' % (pid, k))
if not os.environ.get('SX_KEEP'): shutil.rmtree(WORK, ignore_errors=True)
if viols:
    print('%s: %s [%s] native: %s %s' % (viols[0][0]['name'], viols[0][1]['msg'], viols[0][1]['kind'], viols[0][2], viols[0][3]))
    print('VIOLATION property=%s replay=%s' % (pid, rep)); sys.exit(1)
for u in unconf: print('unconfirmed counterexample (encoding imprecision, not reported):', u)
if errors: die('; '.join(errors))
print('%s held on everything explored (%.1fs)' % (pid, time.time() - t0))
