#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property of /repo's current working tree.

1. Deductive step: every contract of the property, and every contract those proofs use, is verified against the code
   extracted from the working tree on this run.
2. Replay step: the executable reading of the property (harness/) runs the real code; it supplies the failing input
   of a failed obligation, and stands in, labelled bounded, where the verifier cannot follow a changed function.
"""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, multiprocessing, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('QK_REPO', '/repo')
EVID = os.path.join(HERE, 'evidence')
os.makedirs(EVID, exist_ok=True)
REPLAY = os.path.join(EVID, PROP + '.replay.txt')
if os.path.exists(REPLAY): os.remove(REPLAY)
CASES = {'quick': 1500, 'thorough': 20000}[TIER]
BUDGET = {'quick': 60, 'thorough': 600}[TIER]
PROOF_BUDGET = {'quick': 420, 'thorough': 2400}[TIER]
SCRATCH = tempfile.mkdtemp(prefix='qkv_')
os.environ['HARNESS_TMP'] = SCRATCH

from qkv import frontend, smt, verify as V
from contracts import load_contracts
R = load_contracts()

# ------------------------------------------------------------------ replay harness
def start_build():
    if PROP == 'C25':
        cmd = 'bash %s/harness/build_tsan.sh %s/obj' % (HERE, SCRATCH)
    else:
        cmd = 'bash %s/harness/build.sh %s/obj -fsanitize=address && g++ -fsanitize=address %s/obj/*.o -o %s/h' % (HERE, SCRATCH, SCRATCH, SCRATCH)
    return subprocess.Popen(['bash', '-c', cmd], stdout=open(SCRATCH + '/build.log', 'w'), stderr=subprocess.STDOUT)
class Harness:
    ok = False; built = False; cases = 0; nontrivial = 0; samples = []; fail = None; log = ''; runs = []
def run_harness(H, seed, cases, budget):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:exitcode=4:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    cmd = [SCRATCH + '/h', PROP, str(seed), str(cases), '-1', str(budget)]
    if PROP == 'C25':
        env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:ignore_noninstrumented_modules=0'
        env['OMP_NUM_THREADS'] = '4'
    # the code under test may write files: give it its own directory
    wd = SCRATCH + '/wd'; os.makedirs(wd, exist_ok=True)
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=wd, timeout=budget + 240)
    except subprocess.TimeoutExpired as e:
        H.fail = 'FAIL property=%s seed=%d\nobserved: the harness did not end within %d s\n%s' % (PROP, seed, budget + 240, (e.stdout or b'').decode(errors='replace')[-1500:]); return
    out = p.stdout.decode(errors='replace')
    H.log = out[-4000:]
    if p.returncode == 0 and out.startswith('OK '):
        w = dict(x.split('=') for x in out.split('\n')[0].split()[1:])
        H.cases += int(w['cases']); H.nontrivial += int(w['nontrivial']); H.ok = True; H.runs.append(seed)
        H.samples = [x for x in out.split('SAMPLES\n', 1)[1].split('\n') if x][:3]
    elif 'FATAL: ThreadSanitizer' in out: H.log = out[-2000:]
    elif p.returncode == 2: H.log = 'harness has no case for ' + PROP
    else:
        H.fail = 'seed=%d exit=%d\n%s' % (seed, p.returncode, out[:6000])

# ------------------------------------------------------------------ proof
_prog = None; _dead = None
def work(key):
    k, i = key
    t = R.byprop[PROP][i] if k == '@' else R.tasks[k][i]
    q0, s0 = smt.Stats.queries, smt.Stats.time; by0 = dict(smt.Stats.by)
    if time.time() > _dead:
        r = V.Result(t); r.error = 'time budget of the proof used up'
    else:
        def alarm(*a): raise TimeoutError('task time limit')
        signal.signal(signal.SIGALRM, alarm); signal.alarm(max(1, min(TASK_LIMIT, int(_dead - time.time()) + 1)))
        try: r = V.verify(_prog, R.contracts, t)
        except TimeoutError: r = V.Result(t); r.error = 'task time limit'
        except Exception as e: r = V.Result(t); r.error = 'engine: %r' % e
        finally: signal.alarm(0)
    if PROP == 'C25': parallel_only(r)
    return dict(key=t.key, name=t.name, status=r.status, error=r.error, nobs=len(r.obs), proved=sum(o.status == 'proved' for o in r.obs),
                bad=[(o.label, o.status, o.detail) for o in r.obs if o.status != 'proved'][:4], used=sorted(r.used), inlined=sorted(r.inlined), assumed=sorted(r.assumed),
                rules=sorted(r.rules), paths=r.paths, time=r.time, q=smt.Stats.queries - q0, qt=smt.Stats.time - s0, by={k: v - by0.get(k, 0) for k, v in smt.Stats.by.items() if v != by0.get(k, 0)})
TASK_LIMIT = {'quick': 150, 'thorough': 900}[TIER]

# ------------------------------------------------------------------ C25: every loop marked parallel
def parallel_only(r):
    """C25 is about the obligations of parallel loops; another failed obligation leaves the function undecided for it"""
    other = [o for o in r.obs if o.status != 'proved' and not o.label.startswith('parallel')]
    r.obs = [o for o in r.obs if o.label.startswith('parallel') or o.status == 'proved']
    if other and not r.error: r.error = 'an obligation that is not about the parallel loop failed: ' + other[0].label
    if 'parallel loop unrolled' in r.rules and not r.error: r.error = 'a parallel loop with a fixed number of iterations'
def has_omp(n):
    if isinstance(n, list): return any(has_omp(x) for x in n)
    return isinstance(n, dict) and (n.get('kind', '').startswith('OMP') or has_omp(n.get('inner', [])))
def omp_functions():
    return sorted({f.qname for tu in _prog.tus.values() for f in tu.fns.values() if f.body is not None and has_omp(f.body)})
def omp_tasks():
    fns = omp_functions(); cls = set()
    for tu in _prog.tus.values():
        if any(f.qname in fns and f.body is not None and has_omp(f.body) for f in tu.fns.values()):
            # the classes this translation unit implements
            cls |= {f.qname.split('::')[-2] for f in tu.fns.values() if '::' in f.qname and f.body is not None} & {os.path.basename(tu.path).split('.')[0]}
            cls |= {q.split('::')[-2] for q in fns if '::' in q}
    keys = [k for k in R.tasks if k.split('(')[0].split('::')[0] in cls]
    return fns, keys
def omp_uncovered(fns, res):
    cov = {x for r in res for x in list(r['inlined']) + [r['key'].split('(')[0]]}
    return [q for q in fns if q not in cov]

def proof():
    global _prog, _dead
    res = []; err = None
    _dead = T0 + PROOF_BUDGET
    try:
        _prog = frontend.Program([]); _prog.load_all()
        for nm in ('operator==', 'operator!='): _prog.fetch_global(_prog.tus['lib/range.cpp'], nm)
    except Exception as e: return [], 'extraction: %s' % e
    if PROP == 'C25':
        from qkv import loops
        loops.PARALLEL = True
        fns, keys = omp_tasks()
        R.byprop[PROP] = [t for k in keys for t in R.tasks[k]]
        omp_found.extend(fns)
    todo = [('@', i) for i in range(len(R.byprop.get(PROP, [])))]
    done = {t.key for t in R.byprop.get(PROP, [])}
    while todo:
        with multiprocessing.get_context('fork').Pool(min(8, len(todo))) as pool:
            rs = list(pool.imap_unordered(work, todo))
        res += rs; todo = []
        for k in sorted({u for r in rs for u in r['used']}):
            if k in done: continue
            done.add(k)
            todo += [(k, i) for i in range(len(R.tasks.get(k, [])))]
        if PROP == 'C25' and not todo and omp_uncovered(omp_found, res) and not everything:
            everything.append(1)
            for k in R.tasks:
                if k not in done: done.add(k); todo += [(k, i) for i in range(len(R.tasks[k]))]
    if PROP == 'C25':
        un = omp_uncovered(omp_found, res)
        if un: err = 'functions with parallel loops that no contract reaches: ' + ', '.join(un)
        if everything: res = [r for r in res if 'parallel' in r['rules'] or r['status'] in ('refuted',)] or res
    return res, err
omp_found = []; everything = []

def main():
    b = start_build()
    res, err = proof()
    H = Harness()
    b.wait()
    H.built = b.returncode == 0
    if H.built: run_harness(H, SEED, CASES, BUDGET)
    else: H.log = open(SCRATCH + '/build.log').read()[-3000:]
    refuted = [r for r in res if r['status'] == 'refuted']
    open_ = [r for r in res if r['status'] not in ('proved', 'refuted')]
    if (refuted or open_ or err) and H.built and H.fail is None and H.ok:
        # a failed obligation without an input yet: search harder, within the time of a check
        for k in range(1, 40):
            left = 700 - (time.time() - T0)
            if left < 60: break
            run_harness(H, SEED + 7919 * k, 8000, min(60, left - 30))
            if H.fail is not None or (not refuted and k >= 3) or k >= 6: break
    nobs = sum(r['nobs'] for r in res); disc = sum(r['proved'] for r in res)
    viol = None
    if H.fail is not None:
        viol = 'VIOLATION property=%s replay=%s' % (PROP, REPLAY)
    elif refuted:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, REPLAY)
    if viol:
        with open(REPLAY, 'w') as f:
            f.write('property %s\n' % PROP)
            if H.fail is not None:
                f.write('\nfailing input, observed on the real code (harness):\n%s\n' % H.fail)
                f.write('\nreplay: bash harness/build.sh OUT -fsanitize=address && g++ -fsanitize=address OUT/*.o -o h && ./h %s SEED NCASES CASE   (seed and case above)\n' % PROP)
            f.write('\nfailed obligations:\n')
            for r in refuted + open_:
                f.write('- %s: %s %s\n' % (r['name'], r['status'], r['error'] or ''))
                for l, st, d in r['bad']: f.write('    %s: %s\n      %s\n' % (l, st, d.replace('\n', '\n      ')))
    complete = bool(res) and not err and not open_ and not refuted and disc == nobs
    fns = sorted({r['key'] for r in res if r['status'] == 'proved'})
    by = {}
    for r in res:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
    cov = dict(obligations=nobs, discharged=disc, checker_cmd='python3-vt check.py %s' % PROP,
               trusted_base=['clang 18 front end (AST extraction)', 'qkv verification-condition generator', 'z3 (python bindings)', 'models of std:: in qkv/builtins.py'],
               functions_under_contract=fns, inlined_functions=sorted({x for r in res for x in r['inlined']}), configurations=len(res), paths=sum(r['paths'] for r in res),
               tasks_proved=sum(r['status'] == 'proved' for r in res), tasks_open=[dict(name=r['name'], why=(r['error'] or r['status'])[:300]) for r in open_][:30], tasks_refuted=[r['name'] for r in refuted][:30],
               solver_queries=sum(r['q'] for r in res), solver_time_s=round(sum(r['qt'] for r in res), 2), discharged_by=by, loop_rules=sorted({x for r in res for x in r['rules']}),
               replay_harness=dict(built=H.built, label='bounded', evaluations=H.cases, distinct_nontrivial=H.nontrivial, samples=H.samples, seeds=H.runs))
    if PROP == "C25": cov["functions_with_parallel_loops"] = omp_found
    if err: cov['extraction_error'] = err[:500]
    if not complete:
        cov.update(evaluations=H.cases, distinct_nontrivial=H.nontrivial, rule='random inputs of harness/, a case is non-trivial when the property has something to say about it', samples=H.samples or ['none'])
        cov['bounded_stand_in'] = 'the obligations listed under tasks_open were not decided by the verifier; the bounded harness stands in for them'
    ev = dict(property=PROP, tier=TIER, seed=SEED, level='proof' if complete else 'exploration', coverage=cov,
              assumptions=R.assumptions.get(PROP, []) + R.assumptions['*'] + sorted({x for r in res for x in r['assumed']}), wall_s=round(time.time() - T0, 2), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(EVID, PROP + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions, %d open, %d refuted; harness %s (%d cases); %.1f s' % (PROP, nobs, disc, len(fns), len(open_), len(refuted), 'FAIL' if H.fail else ('ok' if H.ok else 'not run'), H.cases, time.time() - T0))
    for r in (refuted + open_)[:8]: print('  %s %s %s' % (r['status'], r['name'], (r['error'] or (r['bad'][0][0] if r['bad'] else ''))[:200]))
    if err: print('  ' + err[:500])
    if not H.built: print('  harness did not build:\n' + H.log[-800:])
    if viol: print(viol); return 1
    if not complete and not H.ok:
        with open(REPLAY, 'w') as f: f.write('nothing could be decided: %s\n%s\n' % (err, H.log))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, REPLAY)); return 1
    return 0

try: rc = main()
finally: shutil.rmtree(SCRATCH, ignore_errors=True)
sys.stdout.flush()
sys.exit(rc)
