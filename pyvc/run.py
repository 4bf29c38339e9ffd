"""Driver: decide one property.   run.py PROP [quick|thorough]"""
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PROJECT_PYTHON', '/opt/venv/bin/python')
sys.path.insert(0, BASE)
sys.dont_write_bytecode = True
NPROC = max(2, min(8, os.cpu_count() or 4))

TRUSTED = [
    'pyvc: the verification-condition generator in /verif/pyvc (Python subset semantics, loop summarisation by checked inductive closed forms, path exploration)',
    'pyvc/norm.py, terms.py: exact rational-function normaliser and its rewrite rules for sqrt/sin/cos/abs',
    'z3 (linear arithmetic, booleans, uninterpreted functions; real products opaque unless stated)',
    'assumed contracts of dependencies: numpy, pandas tables, scipy Rotation, math, dataclasses, abc (pyvc/shim_np.py, pyvc/shims.py), cross-checked against the real libraries by the CPython replay of every contract',
    'numba.jit treated as the identity on the decorated Python function (compiled code trusted to follow the Python source)',
]
ASSUME = [
    'machine floats treated as mathematical reals: rounding, overflow and NaN propagation are outside the proof (CPython replay uses relative tolerance 1e-6)',
    'divisors and square-root arguments: definedness conditions that do not follow from the contract precondition are assumed and counted under coverage.definedness',
    'symbolic dimensions range over all sizes >= 1 unless the contract says otherwise',
]


class Job:
    def __init__(self, key, cmd, out, env, tl):
        self.key, self.cmd, self.out, self.env, self.tl = key, cmd, out, env, tl
        self.t0 = None
        self.p = None


def run_jobs(jobs, log):
    """run jobs NPROC at a time; -> key -> json result or {'timeout': True} / {'crash': text}"""
    pend, live, res = list(jobs), [], {}
    while pend or live:
        while pend and len(live) < NPROC:
            j = pend.pop(0)
            j.t0 = time.time()
            j.p = subprocess.Popen(j.cmd, stdout=log, stderr=log, env=j.env, cwd=BASE, start_new_session=True)
            live.append(j)
        time.sleep(0.02)
        for j in list(live):
            rc = j.p.poll()
            if rc is None and time.time() - j.t0 > j.tl:
                try:
                    os.killpg(j.p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                j.p.wait()
                rc = 'timeout'
            if rc is None:
                continue
            live.remove(j)
            try:
                res[j.key] = json.load(open(j.out))
            except Exception:
                res[j.key] = {'status': 'unsupported', 'timeout': rc == 'timeout', 'why': 'time limit' if rc == 'timeout' else 'worker died rc=%s' % rc, 'checks': [], 'dead': rc != 'timeout'}
            res[j.key]['job_wall'] = round(time.time() - j.t0, 2)
    return res


def penv():
    e = dict(os.environ)
    e.update(NUMBA_DISABLE_JIT='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    if os.path.isdir('/opt/vp/mplconfig'):
        e.setdefault('MPLCONFIGDIR', '/opt/vp/mplconfig')
    e.pop('PYTHONPATH', None)
    return e


def known_findings(prop):
    out = []
    f = os.path.join(BASE, 'known_findings.json')
    if os.path.exists(f):
        for k in json.load(open(f)).get('findings', []):
            if k['property'] == prop:
                out.append(k)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from pyvc.ob import OBS
    import props
    props.load(prop)
    obs = [o for o in OBS.get(prop, []) if tier == 'thorough' or not o.thorough]
    tmp = tempfile.mkdtemp(prefix='pyvc_%s_' % prop)
    log = open(os.path.join(tmp, 'log'), 'w')
    try:
        rc = decide(prop, tier, seed, obs, tmp, log, t0)
    finally:
        log.close()
        if os.environ.get('PYVC_KEEP'):
            print('log: %s' % tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, seed, obs, tmp, log, t0):
    thorough = tier == 'thorough'
    scale = 12 if thorough else 1
    tl = 500 if thorough else 170
    budget = 60 if thorough else 0
    env = penv()
    symsel = [o for o in obs if o.sym]

    def symjob(o, fix, tag, lim):
        out = os.path.join(tmp, 'sym_%s_%s.json' % (hashlib.md5(o.name.encode()).hexdigest()[:10], tag))
        return Job((o.name, tag), [sys.executable, '-W', 'ignore', '-B', os.path.join(BASE, 'pyvc', 'symrun.py'), out, REPO, prop, o.name, json.dumps(fix), str(budget or o.budget), str(lim)], out, env, lim + 40)

    def concjob(tag, sc, cex=None):
        out = os.path.join(tmp, 'conc_%s.json' % tag)
        cmd = [PY, '-W', 'ignore', '-B', os.path.join(BASE, 'pyvc', 'concrun.py'), out, REPO, prop, str(seed), str(sc)]
        if cex:
            f = os.path.join(tmp, 'cex_%s.json' % tag)
            json.dump(cex, open(f, 'w'))
            cmd.append(f)
        return Job(('conc', tag), cmd, out, env, 780 if thorough else 280)

    jobs = [concjob('main', scale)] + [symjob(o, None, 'gen', tl) for o in symsel]
    res = run_jobs(jobs, log)
    conc = res[('conc', 'main')]
    if conc.get('dead') or conc.get('timeout'):
        print('check error: the concrete worker gave no answer (%s)' % conc.get('why'))
        print(open(os.path.join(tmp, 'log')).read()[-3000:])
        conc = {}
        conc_dead = True
    else:
        conc_dead = False
    conc.pop('job_wall', None)
    sym = {o.name: res[(o.name, 'gen')] for o in symsel}

    # ---- bounded stand-ins for what the general proof did not decide
    need = [o for o in symsel if sym[o.name]['status'] not in ('proved', 'refuted') and o.sizes]
    bres = {}
    if need:
        r2 = run_jobs([symjob(o, fx, 'b%d' % k, min(tl, 120)) for o in need for k, fx in enumerate(o.sizes)], log)
        for o in need:
            bres[o.name] = [(fx, r2[(o.name, 'b%d' % k)]) for k, fx in enumerate(o.sizes)]

    # ---- replay of counterexamples on the real code
    cex = {}
    for o in symsel:
        envs = [c['env'] for c in sym[o.name]['checks'] if c['status'] == 'refuted' and 'env' in c]
        for fx, r in bres.get(o.name, []):
            for c in r['checks']:
                if c['status'] == 'refuted' and 'env' in c:
                    e = json.loads(json.dumps(c['env']))
                    e['vars'].update(fx)
                    envs.append(e)
        if envs:
            cex[o.name] = envs[:12]
    replay = {}
    if cex:
        replay = run_jobs([concjob('cex', 1, cex)], log)[('conc', 'cex')]

    # ---- a deeper search for a failing input when an obligation was not discharged
    undec = [o for o in symsel if sym[o.name]['status'] in ('unknown', 'refuted') and not (conc.get(o.name) or {}).get('fail') and not (replay.get(o.name) or {}).get('fail')]
    deep = {}
    if undec and not thorough:
        names = [o.name for o in undec]
        envs = {n: [{'seed': repr((seed, 'deep', k)), 'vars': {}, 'used': [], 'fns': {}} for k in range(1500)] for n in names}
        deep = run_jobs([concjob('deep', 1, envs)], log)[('conc', 'deep')]

    # ---- verdicts
    violations = []
    notes = {}
    known = known_findings(prop)
    nobl = ndis = nbound = 0
    fns, contracts, loops, backends = set(), {}, 0, {}
    z3c = {'z3_calls': 0, 'z3_time': 0.0, 'unknown': 0}
    defn = {'total': 0, 'proved': 0, 'assumed': []}
    per = []
    evals = 0
    samples = []
    for o in obs:
        c = conc.get(o.name)
        s = sym.get(o.name)
        rec = {'obligation': o.name, 'contract': o.doc.split('\n')[0] if o.doc else '', 'verdict': None}
        per.append(rec)
        if c:
            evals += c['ok']
            rec['cpython_cross_check'] = {'inputs': c['trials'], 'compared': c['ok'], 'skipped': c['skip'], 'comparisons': c['checks']}
        fail = None
        for src in (c, replay.get(o.name), deep.get(o.name)):
            if src and src.get('fail'):
                fail = src['fail']
                break
        if s:
            rec['paths'] = s.get('paths')
            rec['wall'] = s.get('job_wall')
            rec['status'] = s['status']
            if s['why']:
                rec['why'] = s['why'][:300]
            for q in s.get('executed', []):
                fns.add(q)
            for q, n in (s.get('contracts_used') or {}).items():
                contracts[q] = contracts.get(q, 0) + n
            loops += len(s.get('loops') or [])
            for k in z3c:
                z3c[k] += (s.get('z3') or {}).get(k, 0)
            d = s.get('definedness')
            if d:
                defn['total'] += d['total']
                defn['proved'] += d['proved']
                for x in d['open'][:2]:
                    if len(defn['assumed']) < 12:
                        defn['assumed'].append('%s: %s' % (o.name, x))
            n = len(s['checks'])
            good = sum(1 for k in s['checks'] if k['status'] == 'proved')
            for k in s['checks']:
                if k['status'] == 'proved':
                    backends[k['how']] = backends.get(k['how'], 0) + 1
            nobl += max(1, n)
            rec['obligations'] = n
            rec['discharged'] = good
            if s['status'] == 'proved':
                ndis += good
                rec['verdict'] = 'proved'
                rec['reachable'] = s.get('reach')
        if fail is not None:
            kf = [k for k in known if k['obligation'] == o.name and any(f[0] == k['check'] for f in fail['failures'])
                  and all(any(k2['obligation'] == o.name and k2['check'] == f[0] for k2 in known) for f in fail['failures'])]
            if kf:
                notes[o.name] = kf
                rec['verdict'] = 'known finding'
                continue
            rec['verdict'] = 'violated'
            violations.append((o, {'kind': 'failing input', 'obligation': o.name, 'contract': o.doc, 'failures': fail['failures'], 'input': fail['env'],
                                   'proof': brief(s)}, True))
            continue
        if s is None:
            rec['verdict'] = 'bounded: CPython cross-check only'
            nbound += 1
            continue
        if s['status'] == 'proved':
            continue
        # undecided by the general proof
        br = bres.get(o.name)
        if br and all(r['status'] == 'proved' for _, r in br):
            rec['verdict'] = 'bounded'
            rec['bounded_sizes'] = [fx for fx, _ in br]
            nbound += 1
            continue
        if s['status'] in ('refuted', 'unknown') and definite(s, replay.get(o.name)) and not known:
            rec['verdict'] = 'violated (no failing input found)'
            violations.append((o, {'kind': 'obligation not discharged', 'obligation': o.name, 'contract': o.doc, 'proof': brief(s),
                                   'bounded': [(fx, brief(r)) for fx, r in (br or [])]}, False))
            continue
        rec['verdict'] = 'undecided (bounded: CPython cross-check on %d inputs)' % (c['ok'] if c else 0)
        nbound += 1
    ran = any(r.get('cpython_cross_check', {}).get('compared') for r in per)
    # ---- output
    rdir = os.path.join(BASE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for k, (o, payload, found) in enumerate(violations):
        f = os.path.join(rdir, '%s_%s.json' % (prop, ''.join(ch if ch.isalnum() else '_' for ch in o.name)))
        payload['replay_cmd'] = 'cd /verif && ./replay %s' % f
        payload['property'] = prop
        json.dump(payload, open(f, 'w'), indent=1, default=str)
        lines.append((found, 'VIOLATION property=%s replay=%s%s' % (prop, f, '' if found else ' no-failing-input-found')))
    lines.sort(key=lambda x: not x[0])
    for r in per:
        print('%-44s %-10s %s/%s obligations, %s paths, %ss%s' % (r['obligation'], (r['verdict'] or '')[:60], r.get('discharged', 0), r.get('obligations', 0), r.get('paths', 0), r.get('wall', 0), (' [%s]' % r['why'][:160]) if r.get('why') else ''))
    for nm, kfs in notes.items():
        for k in {x['what']: x for x in kfs}.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for o, payload, found in violations:
        print('  %s: %s' % (o.name, payload['failures'][:3] if found else json.dumps(payload['proof'])[:400]))
    for _, l in lines:
        print(l)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'proof' if ndis == nobl and nobl else 'other' if nobl else 'exploration',
        'coverage': {
            'obligations': nobl, 'discharged': ndis, 'bounded_or_undecided_contracts': nbound,
            'checker_cmd': './check %s %s' % (prop, tier),
            'trusted_base': TRUSTED,
            'explanation': 'contracts on the functions of /repo; verification conditions generated from the current source by symbolic execution; '
                           'general proof over all inputs and sizes where verdict=proved; every contract is also evaluated on the real code under CPython',
            'functions_under_contract': sorted(fns), 'callee_contracts_used': contracts, 'loops_summarised_by_checked_induction': loops,
            'discharged_by_backend': backends, 'solver': {'z3_calls': z3c['z3_calls'], 'z3_time_s': round(z3c['z3_time'], 2), 'z3_unknown': z3c['unknown']},
            'definedness': defn, 'contracts': per, 'evaluations': evals,
            'rule': 'CPython cross-check: seeded valuations of the contract inputs that satisfy its precondition and reach its comparisons',
            'distinct_nontrivial': evals,
        },
        'assumptions': ASSUME + ['definedness assumed: ' + x for x in defn['assumed']],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(BASE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(BASE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged, %d contracts bounded or undecided, %d CPython comparisons, %.1fs' % (prop, tier, ndis, nobl, nbound, evals, time.time() - t0))
    if lines:
        return 1
    if conc_dead and not ndis:
        return 2
    if not nobl and not evals:
        print('check error: nothing was checked')
        return 2
    return 0


def brief(s):
    if not s:
        return None
    return {'status': s['status'], 'why': s['why'], 'paths': s.get('paths'),
            'failed': [{k: v for k, v in c.items() if k != 'env'} for c in s['checks'] if c['status'] != 'proved'][:8]}


def definite(s, rep):
    """a deterministic failure to discharge (no resource limit, no solver give-up involved)"""
    bad = [c for c in s['checks'] if c['status'] != 'proved']
    if s['status'] == 'unsupported' or not bad:
        return False
    if (s.get('z3') or {}).get('unknown'):
        return False
    if any(c['status'] == 'unknown' and c.get('why') != 'not shown' and c.get('how') != 'exception' for c in bad):
        return False
    ref = [c for c in bad if c['status'] == 'refuted']
    if ref and all('env' in c for c in ref) and len(ref) == len(bad):
        # every refutation was replayed: if the real code satisfied the contract there, the encoding is at fault, not the code
        if rep and rep.get('ok', 0) == rep.get('trials', -1):
            return False
    return True


if __name__ == '__main__':
    main()
