"""
check <property> --tier quick|thorough   explore every harness of the property symbolically, replay what was found
worker <backend>                         a symbolic worker (JSON lines on stdin/stdout)
replayer <backend>                       a plain worker: the real code, one assignment at a time, no engine, no solver
replay <file>                            run a recorded counterexample
"""

import argparse
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
Z3_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


# -- workers ------------------------------------------------------------------------------------------------


def _protocol():
    """Keeps stdout for the protocol: nothing the code under check prints gets into it."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    return out


def worker(backend):
    out = _protocol()
    sys.path.append(Z3_PATH)
    from lib import harness
    from symx import engine, rewrite, world
    w = world.load(backend, True)
    envs = {}
    for line in sys.stdin:
        req = json.loads(line)
        t = time.monotonic()
        try:
            res = _explore(req, w, harness, engine, rewrite, envs)
        except BaseException as e:
            import traceback
            res = {'error': f'{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}'}
        res['wall_s'] = time.monotonic() - t
        out.write(json.dumps(res) + '\n')
        out.flush()


def _explore(req, w, harness, engine, rewrite, envs):
    h = harness.load(req['prop'], req['tier'])[req['name']]
    env = None
    if h.setup is not None:
        try:
            env = h.setup(w)
        except Exception as e:
            import traceback
            return {'setup_error': f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}'}
    rewrite.FUNCTIONS.clear()
    ctx = engine.Ctx(universe=h.universe, max_paths=h.max_paths, deadline=time.monotonic() + req['seconds'],
                     witnesses=req['witnesses'])
    inner = harness.guarded(h, w, env)

    def fn(c):
        rewrite.CALLS[0] = 0
        rewrite.CALLS[1] = harness.MAX_CALLS
        rewrite.CALLS[2] = harness.Hang
        harness.cpu_limit(harness.MAX_CPU_S)
        try:
            inner(c)
        except harness.Hang as e:
            harness.cpu_limit_off()
            c.hang(str(e))
        finally:
            harness.cpu_limit_off()

    nondet = None
    try:
        ctx.run(fn, max_failures=req.get('max_failures', 3))
    except engine.Nondeterminism as e:
        nondet = str(e)[:300]
        try:
            ctx.witnesses.append(ctx._assignment(ctx._get_model()))
        except BaseException:
            pass
    return {
        'paths': ctx.paths, 'pruned': ctx.pruned, 'truncated': ctx.truncated, 'truncated_why': ctx.truncated_why,
        'queries': ctx.queries, 'solver_s': ctx.solver_s, 'forks': ctx.forks, 'forced': ctx.forced,
        'obligations': ctx.obligations, 'discharged': ctx.discharged, 'unknown': ctx.unknown,
        'exhausted': ctx.exhausted, 'labels': ctx.covered_labels, 'witnesses': ctx.witnesses,
        'failures': [{
            'label': f.label, 'assignment': f.assignment, 'known': f.known, 'labels': f.failed_labels,
            'detail': str(f.detail() if callable(f.detail) else f.detail)[:2000],
        } for f in ctx.failures],
        'functions': sorted(rewrite.FUNCTIONS), 'nondeterminism': nondet,
    }


def replayer(backend):
    out = _protocol()
    from lib import harness
    from symx import world
    from symx.base import Concrete, Stop
    assert 'z3' not in sys.modules
    w = world.load(backend, False)
    envs = {}
    for line in sys.stdin:
        req = json.loads(line)
        res = {'failed': [], 'error': None, 'pruned': False}
        try:
            h = harness.load(req['prop'], req['tier'])[req['name']]
            key = (req['prop'], req['name'], req['tier'])
            if key not in envs:
                try:
                    envs[key] = h.setup(w) if h.setup is not None else None
                except Exception as e:
                    import traceback
                    res['failed'] = [['definition of the models', None,
                                      f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}']]
            if not res['failed']:
                ctx = Concrete(req['assignment'])
                harness.cpu_limit(harness.MAX_CPU_S)
                try:
                    harness.guarded(h, w, envs[key])(ctx)
                except harness.Hang:
                    ctx.failed.append(('the call returns', None, f'no end after {harness.MAX_CPU_S} s of cpu time'))
                except Stop:
                    res['pruned'] = True
                finally:
                    harness.cpu_limit_off()
                res['failed'] = [[a, b, None if c is None else str(c)[:3000]] for a, b, c in ctx.failed]
        except Exception as e:
            import traceback
            res['error'] = f'{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}'
        out.write(json.dumps(res) + '\n')
        out.flush()


class Proc:
    def __init__(self, mode, backend):
        self.backend = backend
        self.mode = mode
        self.lock = threading.Lock()
        self.err = open(os.path.join(out_dir(), f'{mode}-{backend}-{os.getpid()}.err'), 'a+')
        self.start()

    def start(self):
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'run.py'), self.mode, self.backend],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, cwd=HERE,
        )

    def ask(self, req, timeout=None):
        with self.lock:
            timer = None
            if timeout:
                timer = threading.Timer(timeout, self.p.kill)
                timer.start()
            try:
                self.p.stdin.write(json.dumps(req) + '\n')
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except OSError:
                line = ''
            finally:
                if timer:
                    timer.cancel()
            if not line:
                self.p.kill()
                self.p.wait()
                self.err.flush()
                self.err.seek(0)
                tail = self.err.read()[-1500:]
                self.start()
                return {'error': f'{self.mode} process ended or ran out of time: {tail}'}
            return json.loads(line)

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.close()
        try:
            os.unlink(self.err.name)
        except OSError:
            pass


def out_dir():
    d = os.path.join(HERE, 'out')
    os.makedirs(d, exist_ok=True)
    return d


# -- check --------------------------------------------------------------------------------------------------


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                parts = dict(p.split('=', 1) for p in line[6:].split() if '=' in p)
                if parts.get('property') == prop:
                    out[parts['id']] = line.split(' -- ', 1)[-1]
    return out


def check(prop, tier):
    t0 = time.monotonic()
    from lib import harness
    hs = harness.load(prop, tier)
    mod = sys.modules['props.' + prop.lower()]
    known = known_findings(prop)
    budget = float(os.environ.get('VERIF_SECONDS', getattr(mod, 'SECONDS', {}).get(tier, 240 if tier == 'quick' else 1500)))
    n = int(os.environ.get('VERIF_WORKERS', '8'))
    items = [(h, b) for h in hs.values() for b in h.backends]
    items.sort(key=lambda x: -x[0].weight)
    queues = {b: [h for h, bb in items if bb == b] for b in ('std', 'lxml')}
    deadline = t0 + budget
    results, lock = {}, threading.Lock()

    def serve(backend):
        proc = None
        try:
            while True:
                with lock:
                    if not queues[backend]:
                        other = 'lxml' if backend == 'std' else 'std'
                        if len(queues[other]) < 2:
                            return
                        if proc:
                            proc.stop()
                            proc = None
                        backend = other
                    h = queues[backend].pop(0)
                if proc is None:
                    proc = Proc('worker', backend)
                left = max(5.0, deadline - time.monotonic())
                r = proc.ask({'prop': prop, 'tier': tier, 'name': h.name, 'seconds': left, 'witnesses': 3},
                             timeout=left + 90)
                with lock:
                    results[h.name, backend] = r
        finally:
            if proc:
                proc.stop()

    total = {b: sum(h.weight for h in queues[b]) for b in queues}
    share = total['std'] / (total['std'] + total['lxml']) if items else 0.5
    n_std = min(max(1 if queues['std'] else 0, round(n * share)), n - (1 if queues['lxml'] else 0))
    n_std = min(n_std, max(1, len(queues['std']))) if queues['std'] else 0
    n_lx = min(n - n_std, max(1, len(queues['lxml']))) if queues['lxml'] else 0
    threads = [threading.Thread(target=serve, args=(b,)) for b in ['std'] * n_std + ['lxml'] * n_lx]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    replayers = {}

    def replay(backend, name, assignment):
        if backend not in replayers:
            replayers[backend] = Proc('replayer', backend)
        return replayers[backend].ask({'prop': prop, 'tier': tier, 'name': name, 'assignment': assignment},
                                      timeout=120)

    violations, findings, problems, notes = [], {}, [], []
    stats = dict(paths=0, pruned=0, truncated=0, queries=0, solver_s=0.0, forks=0, forced=0, obligations=0,
                 discharged=0, unknown=0)
    functions, samples, validated, why, per = set(), [], 0, {}, []
    exhaustive = True
    for f in os.listdir(out_dir()):
        if f.startswith(prop + '-') and f.endswith('.json'):
            os.unlink(os.path.join(out_dir(), f))

    def violation(name, backend, label, assignment, detail, before=()):
        path = os.path.join(out_dir(), f'{prop}-{len(violations) + 1}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'name': name, 'backend': backend, 'label': label,
                       'assignment': assignment, 'detail': detail, 'before': list(before)}, f, indent=1)
        violations.append((name, backend, label, assignment, detail, path))

    for (name, backend), r in sorted(results.items()):
        h = hs[name]
        tagname = f'{name} [{backend}]'
        if 'setup_error' in r:
            c = replay(backend, name, {})
            if c.get('failed'):
                violation(name, backend, c['failed'][0][0], {}, c['failed'][0][2])
            else:
                problems.append(f'{tagname}: models could not be defined under the engine: {r["setup_error"]}')
            exhaustive = False
            continue
        if 'error' in r:
            problems.append(f'{tagname}: {r["error"]}')
            exhaustive = False
            continue
        for k in stats:
            stats[k] += r[k]
        functions.update(r['functions'])
        for k, v in r['truncated_why'].items():
            why[k] = why.get(k, 0) + v
        exhaustive = exhaustive and r['exhausted'] and not r['truncated']
        per.append({'harness': name, 'backend': backend, 'paths': r['paths'], 'obligations': r['obligations'],
                    'exhausted': r['exhausted'], 'truncated': r['truncated'], 'queries': r['queries'],
                    'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2), 'bounds': h.bounds})
        # witnesses: the engine and the real code have to agree on them
        bad_witness = None
        for a in r['witnesses']:
            c = replay(backend, name, a)
            hard = [x for x in c.get('failed', ()) if x[1] is None or x[1] not in known]
            if c.get('error'):
                problems.append(f'{tagname}: replay of a witness: {c["error"]}')
            elif c.get('pruned'):
                problems.append(f'{tagname}: a witness does not meet the assumptions when replayed: {a}')
            elif hard:
                bad_witness = (a, hard[0])
            else:
                validated += 1
                if len(samples) < 8:
                    samples.append({'harness': name, 'backend': backend, 'input': a})
        reproduced = 0
        for f in r['failures']:
            c = replay(backend, name, f['assignment'])
            hard = [x for x in c.get('failed', ()) if x[1] is None or x[1] not in known]
            soft = [x for x in c.get('failed', ()) if x[1] is not None and x[1] in known]
            if hard:
                reproduced += 1
                violation(name, backend, hard[0][0], f['assignment'], hard[0][2])
            elif soft:
                for x in soft:
                    findings.setdefault(x[1], (name, backend, f['assignment'], x[2]))
            else:
                problems.append(f'{tagname}: counterexample does not reproduce on the real code: {f["label"]} '
                                f'{f["assignment"]} {f["detail"]} replay: {c}')
        if bad_witness and not reproduced:
            # the solver did not see it, the real code shows it: still a concrete violation of the property
            a, x = bad_witness
            violation(name, backend, x[0], a, x[2])
        if r['nondeterminism'] and not reproduced and not bad_witness:
            problems.append(f'{tagname}: the code behaves differently when the same input is run again: '
                            f'{r["nondeterminism"]}')
        if not r['failures']:
            if r['paths'] < h.min_paths and not r['truncated']:
                problems.append(f'{tagname}: only {r["paths"]} paths: the harness is vacuous')
            for label in h.labels:
                if not r['labels'].get(label) and r['exhausted']:
                    problems.append(f'{tagname}: obligation {label!r} was never reached: the harness is vacuous')
            if not r['obligations'] and not r['truncated']:
                problems.append(f'{tagname}: no obligations')
    for p in replayers.values():
        p.stop()

    for kid, (name, backend, a, detail) in sorted(findings.items()):
        print(f'KNOWN-FINDING: property={prop} id={kid} {known[kid]} (input: {name} [{backend}] {json.dumps(a)})')
    seen = set()
    for name, backend, label, a, detail, path in violations:
        key = (name, label)
        if key in seen:
            continue
        seen.add(key)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {name} [{backend}]: {label}\n  input: {json.dumps(a)}\n  {detail}'[:2500])
    for p in problems:
        print(f'PROBLEM: {p}'[:3000], file=sys.stderr)
    for k, v in sorted(why.items()):
        print(f'not covered: {v} x {k}', file=sys.stderr)
    wall = time.monotonic() - t0
    write_evidence(prop, tier, mod, stats, functions, samples, validated, why, per, exhaustive, wall,
                   len(violations), findings, problems)
    print(f'{prop} {tier}: {len(per)} explorations, {stats["paths"]} paths, {stats["obligations"]} obligations, '
          f'{stats["discharged"]} discharged, {stats["queries"]} queries, {stats["solver_s"]:.1f} s solver, '
          f'{validated} replayed, exhaustive={exhaustive}, {wall:.1f} s')
    if os.environ.get('VERIF_PROFILE'):
        for x in sorted(per, key=lambda x: -x['wall_s'])[:12]:
            print('   ', x['harness'], x['backend'], x['paths'], x['wall_s'], x['solver_s'])
    if violations:
        return 1
    return 2 if problems else 0


def write_evidence(prop, tier, mod, stats, functions, samples, validated, why, per, exhaustive, wall, nviol, findings,
                   problems):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': stats['paths'], 'transitions': stats['forks'] + stats['forced'],
            'traces_validated_against_impl': validated, 'samples': samples,
            'obligations': stats['obligations'], 'discharged': stats['discharged'],
            'solver_queries': stats['queries'], 'solver_seconds': round(stats['solver_s'], 2),
            'solver_unknown': stats['unknown'], 'paths_infeasible': stats['pruned'],
            'paths_not_covered': stats['truncated'], 'not_covered_because': why,
            'exhaustive_within_bounds': exhaustive,
            'functions_encoded': sorted(functions), 'explorations': per,
            'known_findings_seen': sorted(findings), 'problems': [p[:300] for p in problems],
            'reading': 'states: paths explored to their end, each standing for all inputs that satisfy its path '
                       'condition; transitions: branches decided by the solver; traces_validated_against_impl: '
                       'solver-made inputs of explored paths run on the uninstrumented library',
        },
        'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


ASSUMPTIONS = [
    'CPython, z3 and the engine in /verif/symx are trusted; every counterexample and a sample of the explored paths are '
    'run again on the uninstrumented library',
    'pydantic-core, xml.etree and lxml run for real; strings they copy are recognised in their results',
    'string fields have a validator function around the str schema in symbolic runs; other leaf types take constants',
    'register_namespace is recorded, not executed, in symbolic runs',
    'the parser and the printer of the XML libraries are outside: documents are trees',
]


def replay_file(path):
    """A recorded counterexample, on the real code."""
    d = json.load(open(path))
    p = Proc('replayer', d['backend'])
    for a in d.get('before', ()):
        p.ask({'prop': d['property'], 'tier': d['tier'], 'name': d['name'], 'assignment': a})
    r = p.ask({'prop': d['property'], 'tier': d['tier'], 'name': d['name'], 'assignment': d['assignment']}, 120)
    p.stop()
    print(json.dumps(r, indent=1))
    return 1 if r.get('failed') else 0


def main():
    if len(sys.argv) > 1 and sys.argv[1] == 'worker':
        return worker(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == 'replayer':
        return replayer(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == 'replay':
        return replay_file(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    args = ap.parse_args()
    sys.path.append(Z3_PATH)
    return check(args.property, args.tier)


if __name__ == '__main__':
    sys.exit(main())
