"""Check driver: python -m engine.run PROPERTY [quick|thorough]

Proof server (transformed source, symbolic values) and concrete server (the untouched source under CPython) each fork
one worker per contract.  See DESIGN.md for the outcome policy.
"""
import json
import multiprocessing
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.realpath(os.environ.get('OCGIS_SRC', '/repo/src'))
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def load_contracts(prop=None):
    import importlib
    import glob
    sys.path.insert(0, VERIF)
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', 'c*.py'))):
        n = os.path.basename(f)[:-3]
        if prop is None or n.upper().startswith(prop):
            importlib.import_module('contracts.' + n)
    from engine.contract import REGISTRY
    return [s for s in REGISTRY.values() if prop is None or s['prop'] == prop]


# ---------------------------------------------------------------------------------------------------- servers
def _limit(gb=6):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass


def _child(target, args, q):
    _limit()
    sys.stdout = open(os.devnull, 'w')
    try:
        q.send(target(*args))
    except BaseException as e:
        import traceback
        q.send(dict(crash=repr(e), tb=traceback.format_exc()[-4000:]))
    q.close()
    os._exit(0)


def fork_pool(jobs, nproc, limit):
    """jobs: list of (key, target, args, timeout). Runs each in its own forked process."""
    ctx = multiprocessing.get_context('fork')
    pending = list(jobs)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < nproc:
            key, target, args, tmo = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(target, args, w))
            p.start()
            w.close()
            running[key] = (p, r, time.time() + tmo)
        done = []
        for key, (p, r, dl) in running.items():
            if r.poll(0.0):
                try:
                    out[key] = r.recv()
                except EOFError:
                    out[key] = dict(crash='worker ended without a result')
                done.append(key)
            elif time.time() > dl:
                p.kill()
                out[key] = dict(crash='worker killed at its time limit')
                done.append(key)
            elif not p.is_alive() and not r.poll(0.05):
                out[key] = dict(crash='worker died (exit %s)' % p.exitcode)
                done.append(key)
        for key in done:
            p, r, _ = running.pop(key)
            p.join(2)
            if p.is_alive():
                p.kill()
            r.close()
        if not done:
            time.sleep(0.02)
    return out


def server_prove(prop, tier, only=None):
    from engine import xform
    xform.preload()
    specs = [s for s in load_contracts(prop) if not s['concrete_only'] and (not only or s['name'] in only)]
    from engine import prove
    factor = 1.0 if tier == 'quick' else 4.0

    def job(s):
        from engine.sym import ENG
        if tier != 'quick':
            ENG.prove_timeout = 45000
        return prove.prove(s, s['timeout'] * factor)
    res = fork_pool([(s['name'], job, (s,), s['timeout'] * factor + 60) for s in specs], NPROC, None)
    return res, sorted(xform.STATE['files'])


def concrete_job(s, seed, samples, budget, data_list):
    import random
    import warnings
    warnings.simplefilter('ignore')
    from engine.contract import run_concrete, jsonable
    t0 = time.time()
    res = dict(runs=0, rejected=0, checks=0, fail=None, reached=[])
    reached = set()

    def fail(c, src):
        res['fail'] = dict(contract=s['name'], check=c.failed[0], detail=c.failed[1], source=src,
                           inputs={k: jsonable(v) for k, v in c.inputs.items()})
    for d in data_list:
        st, c = run_concrete(s, random.Random(seed), d)
        if st == 'fail':
            fail(c, 'counterexample of the verifier')
            return res
    n = 0
    while n < samples and time.time() - t0 < budget and res['runs'] + res['rejected'] < samples * 60:
        rng = random.Random((seed * 1000003) ^ (res['runs'] + res['rejected']) * 7919)
        st, c = run_concrete(s, rng, None)
        if st == 'reject':
            res['rejected'] += 1
            continue
        n += 1
        res['runs'] += 1
        res['checks'] += c.checks
        reached |= c.reached
        if st == 'fail':
            fail(c, 'random search over the contract precondition')
            break
    res['reached'] = sorted(reached)
    res['seconds'] = round(time.time() - t0, 2)
    return res


def server_concrete(prop, seed, mult, budget, data=None, only=None):
    sys.path.insert(0, ROOT)
    import ocgis
    assert os.path.realpath(ocgis.__file__).startswith(ROOT)
    specs = [s for s in load_contracts(prop) if not only or s['name'] in only]
    data = data or {}
    jobs = [(s['name'], concrete_job, (s, seed, int(s['samples'] * mult), budget, data.get(s['name'], [])), budget + 60)
            for s in specs]
    return fork_pool(jobs, NPROC, None)


def spawn(mode, payload):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    p = subprocess.Popen([sys.executable, '-m', 'engine.run', '--serve', mode], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF, env=env)
    p.payload = json.dumps(payload).encode()
    return p


def collect(p, timeout):
    try:
        o, e = p.communicate(p.payload, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(crash='server exceeded its time limit')
    txt = o.decode(errors='replace')
    k = txt.rfind('\n@@RESULT@@')
    if k < 0:
        return dict(crash='server failed', stderr=e.decode(errors='replace')[-4000:])
    return json.loads(txt[k + len('\n@@RESULT@@'):])


def serve(mode):
    a = json.loads(sys.stdin.read())
    if mode == 'prove':
        r = server_prove(a['prop'], a['tier'], a.get('only'))
    else:
        r = server_concrete(a['prop'], a['seed'], a['mult'], a['budget'], a.get('data'), a.get('only'))
    sys.stdout.flush()
    os.write(1, ('\n@@RESULT@@' + json.dumps(r, default=str)).encode())


# ---------------------------------------------------------------------------------------------------- one property
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    from threading import Thread
    res = {}

    def run_p():
        res['prove'] = collect(spawn('prove', dict(prop=prop, tier=tier)), 840 if tier == 'quick' else 7200)

    def run_c():
        res['conc'] = collect(spawn('concrete', dict(prop=prop, seed=seed, mult=1 if tier == 'quick' else 30,
                                                     budget=40 if tier == 'quick' else 600)),
                              600 if tier == 'quick' else 7200)
    ts = [Thread(target=run_p), Thread(target=run_c)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    sys.path.insert(0, VERIF)
    pr, co = res['prove'], res['conc']
    problems = []      # (contract, check, kind, payload)
    concrete_fail = []
    reports = {}
    files = []
    if isinstance(pr, dict) and 'crash' in pr:
        problems.append(('*', 'proof server', 'undecided', pr))
    else:
        reports, files = pr
    if 'crash' in co:
        problems.append(('*', 'concrete server', 'undecided', co))
        co = {}
    for n, r in sorted(co.items()):
        if r.get('crash'):
            problems.append((n, 'concrete run', 'undecided', r))
        elif r['fail']:
            concrete_fail.append(r['fail'])
        elif r['runs'] == 0:
            problems.append((n, 'concrete run rejected every input', 'undecided', r))
    replay = {}
    for n, r in sorted(reports.items()):
        if r.get('crash'):
            problems.append((n, 'proof', 'undecided', r))
        elif r['status'] != 'proved':
            problems.append((n, r['failed'][0]['name'] if r['failed'] else r['status'],
                             'failed' if r['failed'] else 'undecided', r))
            for f in r['failed']:
                replay.setdefault(n, []).extend(f['inputs'])
    # replay the verifier's counterexamples on the real code, then search harder where a proof was lost
    if problems and not concrete_fail:
        names = [p[0] for p in problems if p[0] != '*']
        # a lost proof in one contract also triggers a deeper search in its siblings
        mult = 12 if tier == 'quick' else 100
        extra = collect(spawn('concrete', dict(prop=prop, seed=seed + 17, mult=mult, budget=75, data=replay,
                                               only=names or None)), 500)
        if 'crash' not in extra:
            for n, r in sorted(extra.items()):
                if not r.get('crash') and r['fail']:
                    concrete_fail.append(r['fail'])
    write_evidence(prop, tier, reports, co, files, problems, concrete_fail, time.time() - t0, seed)
    if concrete_fail:
        f = concrete_fail[0]
        path = os.path.join(rdir, '%s.json' % prop)
        f['obligation'] = '%s / %s' % (f['contract'], f['check'])
        f['how'] = 'cd %s && . /opt/vp/env.sh; python -m engine.run --replay %s' % (VERIF, path)
        f['verifier'] = [dict(contract=p[0], obligation=p[1], kind=p[2]) for p in problems]
        json.dump(f, open(path, 'w'), indent=1, default=str)
        print('failed obligation: %s' % f['obligation'])
        print('input: %s' % json.dumps(f['inputs'], default=str)[:2000])
        print('detail: %s' % f['detail'][:500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        path = os.path.join(rdir, '%s.json' % prop)
        json.dump(dict(property=prop, obligations=[dict(contract=p[0], obligation=p[1], kind=p[2], output=p[3])
                                                   for p in problems]), open(path, 'w'), indent=1, default=str)
        for p in problems:
            print('not discharged: %s / %s (%s)' % p[:3])
            r = p[3]
            if r.get('failed'):
                print('   ', r['failed'][0]['goal'][:300])
            if r.get('unsupported'):
                print('   ', r['unsupported'][:2])
            if r.get('crash'):
                print('   ', str(r)[:1500])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    n = sum(r['discharged'] for r in reports.values())
    print('property=%s contracts=%d obligations=%d discharged=%d concrete_runs=%d seconds=%.1f' % (
        prop, len(reports), sum(r['obligations'] for r in reports.values()), n,
        sum(r['runs'] for r in co.values()), time.time() - t0))
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    return 0


def write_evidence(prop, tier, reports, co, files, problems, cf, secs, seed):
    specs = {s['name']: s for s in load_contracts(prop)}
    from engine import trusted
    proved = [r for r in reports.values() if not r.get('crash')]
    functions = sorted(set(f for n in reports for f in specs[n]['funcs'] if specs[n]['level'] == 'proved'))
    bounded = sorted(set('%s: %s (%s)' % (n, ', '.join(s['funcs']), s['bound']) for n, s in specs.items()
                         if s['level'] != 'proved'))
    ob = sum(r['obligations'] for r in proved)
    di = sum(r['discharged'] for r in proved)
    obp = sum(r['obligations'] for r in proved if specs[r['name']]['level'] == 'proved')
    ev = dict(
        property=prop, technique='contract-based deductive verification (VC generation by symbolic execution of the '
        'real source, SMT back end)', tier=tier, seed=seed,
        level='proof', outcome='violation' if (problems or cf) else 'held', wall_s=round(secs, 1),
        coverage=dict(
            obligations=ob, discharged=di, obligations_unbounded=obp,
            checker_cmd='python -m engine.run %s %s (z3 %s; cvc5 second opinion)' % (prop, tier, _z3v()),
            trusted_base=trusted.trusted(set(x for r in proved for x in r['externals'] + r['lemmas'])),
            functions_under_contract=functions, bounded_standins=bounded,
            paths=sum(r['paths'] for r in proved), solver_queries=sum(r['queries'] for r in proved),
            solver_seconds=round(sum(r['solver_s'] for r in proved), 1),
            discharged_by_second_back_end=sum(r['cross'] for r in proved),
            concrete_cross_check_runs=sum(r.get('runs', 0) for r in co.values()),
            concrete_cross_check_evaluations=sum(r.get('checks', 0) for r in co.values()),
            contracts={r['name']: dict(status=r['status'], level=specs[r['name']]['level'], obligations=r['obligations'],
                                       discharged=r['discharged'], paths=r['paths'], seconds=r['seconds'],
                                       checks=r['names']) for r in proved},
            source_files_loaded=len(files)))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


def _z3v():
    try:
        from engine.sym import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def replay(path):
    sys.path.insert(0, ROOT)
    d = json.load(open(path))
    if 'contract' not in d:
        print(json.dumps(d, indent=1)[:4000])
        return 1
    load_contracts()
    from engine.contract import REGISTRY, run_concrete
    st, c = run_concrete(REGISTRY[d['contract']], None, d['inputs'])
    print(st, getattr(c, 'failed', ''))
    return 1 if st == 'fail' else 0


def debug(name):
    """Prove one contract in this process and print its report."""
    from engine import xform
    xform.preload()
    load_contracts()
    from engine.contract import REGISTRY
    from engine import prove
    for n, s in REGISTRY.items():
        if n == name or s['prop'] == name or name == '*':
            r = prove.prove(s)
            tb = r.pop('unsupported_tb', '')
            print(n, r['status'], {k: r[k] for k in ('obligations', 'discharged', 'paths', 'seconds', 'solver_s', 'cross', 'slowest')})
            for f in r['failed']:
                if os.environ.get('VERBOSE'):
                    print('  FAILED', json.dumps(f, indent=1, default=str)[:6000])
                else:
                    print('  FAILED', f['name'], '|', f['status'], '|', json.dumps(f['inputs'][-1:], default=str)[:500])
                if f.get('tb'):
                    print(f.get('tb')[-1500:])
            if r['unsupported']:
                print('  UNSUPPORTED', r['unsupported'][:5])
                print(tb[-2500:])


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--serve':
        serve(a[1])
    elif a[0] == '--replay':
        sys.exit(replay(a[1]))
    elif a[0] == '--debug':
        debug(a[1])
    else:
        try:
            rc = main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
        except Exception:
            import traceback
            traceback.print_exc()
            p = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(p, exist_ok=True)
            p = os.path.join(p, a[0] + '.json')
            json.dump(dict(error=traceback.format_exc()), open(p, 'w'))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (a[0], p))
            rc = 1
        sys.exit(rc)
