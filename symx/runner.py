"""Runs the cases of a check: exploration, validation of paths, replay of counterexamples, evidence."""

import gc
import importlib
import json
import multiprocessing
import os
import resource
import pickle
import signal
import sys
import time
import traceback

from . import engine as engmod
from .engine import Engine, Stats
from .values import Unsupported
from . import env as envmod
from . import instrument
from .env import SymEnv, ConcreteEnv, CheckFailed, AssumeFailed, InternalError, TooBig, under
from .fs import SimCrash

HERE = instrument.HERE


class Case:
    def __init__(self, name, fn, quick=True, thorough=True, reach=(), max_paths=None, budget=None, **params):
        self.name = name
        self.fn = fn            # name of a function of the harness module
        self.quick = quick
        self.thorough = thorough
        self.reach = reach      # labels which some path must reach
        self.max_paths = max_paths
        self.budget = budget    # seconds
        self.params = params


MEMORY = 7 << 29  # per process


class PathTimeout(BaseException):
    pass


def run_body(env, modname, fnname):
    """Runs a harness function; exceptions which leave it are failures"""
    mod = env.world.load(modname)
    fn = getattr(mod, fnname)
    try:
        fn(env, **env.params)
    except Exception as e:
        if env.symbolic:
            if envmod.internal_error(e):
                env.internal(e)
            env.last_exc = e
            if os.environ.get('SYMX_TRACE'):
                traceback.print_exc()
        env.check(False, f"unexpected {type(e).__name__}")
    except SimCrash:
        env.check(False, "crash outside of the simulated operation")


class Replay:
    def __init__(self, kind, msg, labels, exc=None):
        self.kind = kind  # 'ok' | 'fail' | 'assume' | 'error'
        self.msg = msg
        self.labels = labels
        self.exc = exc


def replay(modname, fnname, params, inputs, ufs):
    """Concrete run of a harness on given inputs"""
    env = ConcreteEnv(inputs, ufs, params)

    def alarm(*a):
        raise PathTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        run_body(env, modname, fnname)
        return Replay('ok', None, env.labels)
    except CheckFailed as e:
        return Replay('fail', str(e), env.labels, e.__context__)
    except AssumeFailed as e:
        return Replay('assume', str(e), env.labels)
    except PathTimeout:
        return Replay('error', 'timeout', env.labels)
    except Unsupported as e:
        return Replay('unsupported', str(e), env.labels)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def model_inputs(eng, model):
    inputs = {k: f(model) for k, f in eng.path_inputs.items()}
    ufs = [u(model) for u in eng.path_ufs]
    return inputs, ufs


def small_model(eng):
    """A model of the path condition, with small values if there is one"""
    import z3
    base = eng._ensure_model()
    if not eng.path_minvars:
        return base
    eng.solver.push()
    eng.solver.set('timeout', 5000)
    try:
        for b in (64, 4096):
            eng.solver.push()
            eng.solver.add(*[z3.And(v.e <= b, v.e >= -b) for v in eng.path_minvars if v.hi > b or v.lo < -b])
            r = eng.solver.check()
            if r == z3.sat:
                m = eng.solver.model()
                eng.solver.pop()
                return m
            eng.solver.pop()
        return base
    finally:
        eng.solver.set('timeout', 60000)
        eng.solver.pop()


def run_case(args):
    modname, case, tier, deadline, validate, check_id = args
    t0 = time.time()
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    res = {'case': case.name, 'error': None, 'violations': [], 'unreproduced': [], 'labels': {}, 'incomplete': [], 'samples': [], 'functions': []}
    if case.budget:
        deadline = min(deadline, t0 + case.budget)
    eng = Engine(deadline=deadline, max_paths=case.max_paths)
    eng.unencoded = (Unsupported, InternalError, RecursionError, PathTimeout, MemoryError)
    mismatches = []
    skipped = [0]
    fails = []
    instrument.ENTERED.clear()
    first_params = dict(case.params)

    def alarm(*a):
        raise PathTimeout("path takes too long")
    signal.signal(signal.SIGALRM, alarm)

    def body():
        signal.setitimer(signal.ITIMER_REAL, 120)
        try:
            env = SymEnv(eng, first_params)
            eng.env = env
            run_body(env, modname, case.fn)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def concrete_run(eng, model):
        try:
            inputs, ufs = model_inputs(eng, model)
        except TooBig:
            skipped[0] += 1
            return None
        r = replay(modname, case.fn, case.params, inputs, ufs)
        signal.signal(signal.SIGALRM, alarm)
        return inputs, ufs, r

    def on_path(eng):
        for l in eng.path_log:
            res['labels'][l] = res['labels'].get(l, 0) + 1
        n = eng.stats.paths
        if n < validate or n % 23 == 0:
            log = list(eng.path_log)
            c = concrete_run(eng, small_model(eng))
            if c is None:
                return
            inputs, ufs, r = c
            if r.kind == 'fail':
                # the real code fails although the encoding does not
                fails.append((r.msg, inputs, ufs))
            elif r.kind == 'unsupported':
                skipped[0] += 1
                eng.incomplete.add(f'replay: {r.msg}')
            elif r.kind != 'ok' or r.labels != log:
                mismatches.append((r.kind, r.msg, log, r.labels, repr(inputs)[:600]))
            else:
                eng.stats.validated += 1
                if len(res['samples']) < 2:
                    res['samples'].append({'case': case.name, 'labels': log[:12], 'inputs': repr(inputs)[:400], 'decisions': len(eng.trace)})

    def on_unencoded(eng, e):
        """Fallback: run this path's inputs concretely"""
        if os.environ.get('SYMX_TRACE'):
            ex = getattr(e, 'exc', None) or e
            traceback.print_exception(type(ex), ex, ex.__traceback__)
        try:
            m = small_model(eng)
        except BaseException:
            return
        c = concrete_run(eng, m)
        if c is not None and c[2].kind == 'fail':
            fails.append((c[2].msg, c[0], c[1]))

    eng.on_unencoded = on_unencoded
    try:
        eng.explore(body, on_path)
        for v in eng.violations:
            r = replay(modname, case.fn, case.params, v.inputs, v.ufs)
            d = {'msg': v.msg, 'inputs': v.inputs, 'ufs': v.ufs, 'case': case.name, 'fn': case.fn, 'params': case.params}
            if r.kind == 'fail':
                d['msg'] = r.msg
                res['violations'].append(d)
            elif r.kind == 'unsupported':
                eng.incomplete.add(f'replay: {r.msg}')
            else:
                d['replay'] = (r.kind, r.msg)
                res['unreproduced'].append(d)
        for msg, inputs, ufs in fails[:3]:
            res['violations'].append({'msg': msg, 'inputs': inputs, 'ufs': ufs, 'case': case.name, 'fn': case.fn, 'params': case.params})
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    res['incomplete'] = sorted(eng.incomplete)
    res['stats'] = eng.stats.as_dict()
    res['mismatches'] = mismatches[:5]
    res['n_mismatches'] = len(mismatches)
    res['skipped'] = skipped[0]
    res['functions'] = sorted(instrument.ENTERED)
    res['wall'] = round(time.time() - t0, 2)
    return res


def load_check(check_id):
    """Plain (not instrumented) import of a harness module, for its CASES and META"""
    sys.path.insert(0, HERE)
    return importlib.import_module(f'harness.{check_id.lower()}')


def known_findings(check_id):
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:') and f'property={check_id} ' in line:
                out.append(line.partition(f'property={check_id} ')[2])
    return out


def main(check_id, tier=None, only=None, verbose=False, jobs=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = load_check(check_id)
    modname = f'harness.{check_id.lower()}'
    cases = [c for c in mod.CASES if (c.quick if tier == 'quick' else c.thorough)]
    if only:
        cases = [c for c in cases if only in c.name]
    budget = mod.META.get('budget', {}).get(tier, 240 if tier == 'quick' else 1500)
    deadline = t0 + budget
    validate = 40 if tier == 'quick' else 400
    jobs = jobs or min(8, os.cpu_count() or 1, len(cases))
    tasks = [(modname, c, tier, deadline, validate, check_id) for c in cases]
    results = []
    fast = os.environ.get('SYMX_FAST')  # development: stop at the first violation
    if jobs <= 1:
        for t in tasks:
            results.append(run_case(t))
            if fast and results[-1]['violations']:
                break
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(jobs, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(run_case, tasks, 1)
            while len(results) < len(tasks):
                try:
                    results.append(it.next(max(60, deadline + 120 - time.time())))
                except multiprocessing.TimeoutError:
                    break
                if fast and results[-1]['violations']:
                    break
            pool.terminate()
    # a process which disappeared (memory) gave no result
    lost = [c for c in cases if c.name not in {r['case'] for r in results}] if not fast else []
    for c in lost:
        results.append({'case': c.name, 'error': None, 'violations': [], 'unreproduced': [], 'labels': {}, 'incomplete': ['no result: process ended'], 'samples': [],
                        'functions': [], 'stats': Stats().as_dict(), 'mismatches': [], 'n_mismatches': 0, 'skipped': 0, 'wall': 0})
    order = {c.name: i for i, c in enumerate(cases)}
    results.sort(key=lambda r: order[r['case']])
    errors = []
    total = Stats().as_dict()
    labels = {}
    functions = set()
    incomplete = {}
    samples = []
    violations = []
    unreproduced = []
    mism = 0
    skipped = 0
    for r in results:
        for k, v in r['stats'].items():
            total[k] += v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        functions |= set(r['functions'])
        if r['incomplete']:
            incomplete[r['case']] = r['incomplete']
        samples += r['samples']
        violations += r['violations']
        unreproduced += r['unreproduced']
        mism += r['n_mismatches']
        skipped += r['skipped']
        if r['error']:
            errors.append(f"case {r['case']}: {r['error']}")
        if verbose:
            print(f"# {r['case']}: {r['stats']} wall={r['wall']} incomplete={r['incomplete']} mismatches={r['n_mismatches']} skipped={r['skipped']}")
            for m in r['mismatches'][:3]:
                print('#   mismatch', m)
    # vacuity: every case must reach its labels
    byname = {c.name: c for c in cases}
    vacuous = []
    for r in results:
        c = byname[r['case']]
        if not r['error'] and not r['violations'] and not r['unreproduced']:
            missing = [l for l in c.reach if l not in r['labels']]
            if missing and not r['incomplete']:
                vacuous.append(f"case {r['case']} never reaches {missing}")
            elif r['stats']['paths'] == 0 and not r['incomplete']:
                vacuous.append(f"case {r['case']} has no complete path")
    known = known_findings(check_id)
    new = []
    hit = set()
    for v in violations:
        for k in known:
            if k.split(' ')[0] == f"[{v['case']}:{v['msg']}]".replace(' ', '_'):
                hit.add(k)
                break
        else:
            new.append(v)
    for k in sorted(hit):
        print(f"KNOWN-FINDING: property={check_id} {k}")
    out_dir = os.environ.get('SYMX_OUT') or os.path.join(HERE, 'out')
    os.makedirs(out_dir, exist_ok=True)
    seen = set()
    for v in new:
        key = v['msg']
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(out_dir, f"{check_id}-{len(seen)}.replay")
        with open(path, 'wb') as f:
            pickle.dump((check_id, v), f)
        print(f"# {v['case']}: {v['msg']}: {repr(v['inputs'])[:1500]}")
        print(f"VIOLATION property={check_id} replay={path}")
    meta = mod.META
    functions = sorted(f for f in functions if f.startswith('cdtb'))
    evidence = {
        'property': check_id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total['paths'],
            'transitions': total['branches'],
            'traces_validated_against_impl': total['validated'],
            'samples': samples[:6] or [{'note': 'no complete path'}],
            'exhaustive': not incomplete and not errors,
            'functions_encoded': functions,
            'bounds': meta.get('bounds', ''),
            'outside': meta.get('outside', ''),
            'cases': [{'name': r['case'], 'paths': r['stats']['paths'], 'queries': r['stats']['queries'], 'wall_s': r['wall']} for r in results],
            'queries': total['queries'],
            'obligations_decided': total['obligations'],
            'obligations_held': total['discharged'],
            'solver_s': round(total['solver_s'], 2),
            'aborted_paths': total['aborted'],
            'concretised_operations': total['concretised'],
            'path_mismatches': mism,
            'validation_skipped': skipped,
            'incomplete': incomplete,
            'reached': labels,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    ev_dir = os.environ.get('SYMX_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, f'{check_id}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    c = evidence['coverage']
    print(f"# {check_id} {tier}: {len(cases)} cases, {c['states']} paths, {c['queries']} queries ({c['solver_s']} s), "
          f"{c['obligations_held']}/{c['obligations_decided']} obligations, {c['traces_validated_against_impl']} paths validated, "
          f"{mism} mismatches, wall {evidence['wall_s']} s" + (f", incomplete cases {len(incomplete)}: {sorted({x for v in incomplete.values() for x in v})}"[:600] if incomplete else ''))
    if new:
        return 1
    for e in errors + vacuous:
        print("ERROR", e)
    for v in unreproduced:
        print(f"ERROR unreproduced counterexample in {v['case']}: {v['msg']} {v['replay']} {repr(v['inputs'])[:800]}")
    if errors or vacuous or unreproduced:
        return 2
    return 0


def replay_file(path):
    with open(path, 'rb') as f:
        check_id, v = pickle.load(f)
    print(f"property {check_id}, case {v['case']}: {v['msg']}")
    print(f"inputs: {v['inputs']!r}")
    r = replay(f'harness.{check_id.lower()}', v['fn'], v['params'], v['inputs'], v['ufs'])
    print(f"replay: {r.kind} {r.msg or ''}")
    if r.exc is not None:
        traceback.print_exception(type(r.exc), r.exc, r.exc.__traceback__)
    return 1 if r.kind == 'fail' else 0
