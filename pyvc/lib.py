"""Check framework: proof tasks, bounded stand-in tasks, replay, evidence."""
import contextlib
import io
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from array import array

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Violation(Exception):
    """a concrete input on which the real code breaks the property"""
    def __init__(self, msg, inputs, key=None):
        super().__init__(msg)
        self.msg, self.inputs, self.key = msg, inputs, key


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """wall-clock limit for one call of the code under test"""
    def h(sig, frm):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_real_stdout = sys.stdout


@contextlib.contextmanager
def silent():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def call(f, *a, secs=20, **k):
    """call the real code quietly with a time limit -> ('ok', value) | ('exc', name, text) | ('hang',)"""
    try:
        with silent(), limit(secs):
            return ('ok', f(*a, **k))
    except Timeout:
        return ('hang', f'no result within {secs} s')
    except RecursionError as e:
        return ('exc', 'RecursionError', str(e))
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:200])


class Proof:
    """name, functions under contract, thunk(ctx), explorer options, replay of solver models on the real code"""
    def __init__(self, name, functions, run, target=None, registry=None, loopspec=None, inputs=None, replay=None, hints=None,
                 budget=420, timeout_ms=30000, unroll=None, thorough_only=False, feas_ms=2500, inline_modules=(), max_fail=3):
        self.__dict__.update(locals())


class Bounded:
    """fn(B) explores concrete inputs of the real code; raises Violation"""
    def __init__(self, name, fn, bound, functions=(), quick=25, thorough=180, standin_for=None):
        self.__dict__.update(locals())


class BoundedRun:
    def __init__(self, tier, seed, secs, name):
        self.tier = tier
        self.rng = random.Random(f'{seed}/{name}')
        self.t0 = time.time()
        self.secs = secs
        self.cases = 0
        self.nontrivial = set()
        self.samples = []
        self.thorough = tier == 'thorough'

    def more(self):
        return time.time() - self.t0 < self.secs

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def case(self, key=None, sample=None):
        self.cases += 1
        if key is not None and len(self.nontrivial) < 200000:
            self.nontrivial.add(hash(key))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(str(sample)[:300])


def _limit_mem():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    except Exception:
        pass


def run_proof(task, tier, again=False):
    from .interp import Explorer
    _limit_mem()
    t0 = time.time()
    scale = 3 if tier == 'thorough' else 2 if again else 1
    X = Explorer(task.name, registry=task.registry, target=task.target, loopspec=task.loopspec, budget_s=task.budget * scale,
                 timeout_ms=task.timeout_ms * scale, feas_ms=task.feas_ms, crosscheck=(tier == 'thorough'), max_fail=1 if again else task.max_fail,
                 unroll=task.unroll, on_model=task.inputs, small_hints=task.hints, inline_modules=task.inline_modules)
    with silent():
        st = X.run(task.run)
    failed = st.failed
    replayed = None
    tried = 0
    if st.obligations == 0 and not failed:
        failed.append(dict(name=f'{task.name}: no obligation generated', kind='vacuous', status='vacuous', model=None))
    if failed and task.replay is not None:
        for rec in failed:
            for cand in (rec.get('candidates') or []):
                tried += 1
                try:
                    msg = task.replay(cand)
                except Violation as v:
                    msg = v.msg
                except Timeout:
                    msg = 'hang'
                except Exception as e:
                    rec['replay_error'] = repr(e)
                    msg = None
                if msg:
                    replayed = dict(message=msg, inputs=show(cand), obligation=rec['name'])
                    break
            if replayed:
                break
    for rec in failed:
        rec.pop('candidates', None)
        if 'inputs' in rec:
            rec['inputs'] = show(rec['inputs'])
    return dict(kind='proof', name=task.name, functions=list(task.functions), obligations=st.obligations,
                discharged=st.discharged, by=st.by, kinds=st.names, paths=st.paths, solver_s=round(st.solver_s, 2),
                wall=round(time.time() - t0, 2), restarts=getattr(st, 'restarts', 0), failed=failed, replayed=replayed,
                replay_tried=tried, inlined=sorted(st.inlined), used=sorted(st.used_contracts), assumed=sorted(st.assumed))


def show(v, cap=4000):
    s = repr(v)
    return s if len(s) <= cap else s[:cap] + '...'


def run_bounded(task, tier, seed):
    _limit_mem()
    secs = task.thorough if tier == 'thorough' else task.quick
    B = BoundedRun(tier, seed, secs, task.name)
    out = dict(kind='bounded', name=task.name, functions=list(task.functions), bound=task.bound, violation=None,
               standin_for=task.standin_for)
    known = []
    B.known = known
    try:
        task.fn(B)
    except Violation as v:
        out['violation'] = dict(message=v.msg, inputs=show(v.inputs), key=v.key)
    out.update(cases=B.cases, distinct=len(B.nontrivial), samples=B.samples, wall=round(time.time() - B.t0, 2), known=known)
    return out


def _worker(args):
    kind, idx, prop, tier, seed = args[:5]
    os.setpgrp()
    import importlib
    mod = importlib.import_module('props.' + prop.lower())
    try:
        if kind == 'p':
            return run_proof(mod.PROOFS[idx], tier, again=len(args) > 5)
        return run_bounded(mod.BOUNDED[idx], tier, seed)
    except BaseException as e:
        return dict(kind='error', name=(mod.PROOFS if kind == 'p' else mod.BOUNDED)[idx].name, which=kind,
                    error=''.join(traceback.format_exception(e))[-3000:])


def main(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, VERIF)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    import importlib
    errors = []
    try:
        with silent():
            mod = importlib.import_module('props.' + prop.lower())
    except Exception as e:
        # the tree under test cannot even be imported the way the contracts need it
        return report(prop, tier, seed, None, [dict(kind='error', name='import of the code under contract', which='p',
                                                     error=''.join(traceback.format_exception(e))[-3000:])], t0)
    jobs = []
    for i, p in enumerate(mod.PROOFS):
        if p.thorough_only and tier != 'thorough':
            continue
        jobs.append(('p', i, prop, tier, seed))
    for i, b in enumerate(mod.BOUNDED):
        jobs.append(('b', i, prop, tier, seed))
    if only:
        jobs = [j for j in jobs if only in (mod.PROOFS if j[0] == 'p' else mod.BOUNDED)[j[1]].name]
    results = []
    hard = (700 if tier == 'quick' else 3000)
    found = None    # when a concrete violation was first seen: the rest is given a short time only
    ctx = mp.get_context('fork')
    pend = list(jobs)
    # the concrete checks, then the longest budgets first
    pend.sort(key=lambda j: (j[0] == 'p', -(mod.PROOFS[j[1]].budget if j[0] == 'p' else mod.BOUNDED[j[1]].quick)))
    running = []
    retry = []      # proofs whose only failures are obligations the solvers gave up on: once more, with more time, at the end
    njobs = min(8, os.cpu_count() or 4)
    while pend or running or retry:
        if not pend and not running:
            if found or time.time() - t0 > hard * 0.55:
                break
            pend, retry = [j + ('again',) for j, _ in retry], []
        while pend and len(running) < njobs:
            j = pend.pop(0)
            r, w = ctx.Pipe(False)

            def go(w=w, j=j):
                res = _worker(j)
                try:
                    w.send(res)
                except Exception as e:
                    w.send(dict(kind='error', name=str(j), which=j[0], error=repr(e)))
                w.close()
                os._exit(0)
            p = ctx.Process(target=go)
            p.start()
            w.close()
            running.append((p, r, j, time.time()))
        time.sleep(0.02)
        still = []
        for p, r, j, ts in running:
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    res = dict(kind='error', name=tname(mod, j), which=j[0], error='worker died')
                p.join()
                if len(j) > 5:
                    if res['kind'] == 'proof' and not res['failed']:
                        results = [x for x in results if x['name'] != res['name']] + [res]
                    continue
                results.append(res)
                if res['kind'] == 'proof' and res['failed'] and not res['replayed'] and \
                        all(x['status'] == 'unknown' or x['status'].startswith('not attempted') for x in res['failed']):
                    retry.append((j, res))
            elif not p.is_alive() and len(j) > 5:
                pass
            elif not p.is_alive():
                if r.poll():
                    results.append(r.recv())
                else:
                    results.append(dict(kind='error', name=tname(mod, j), which=j[0], error=f'worker died ({p.exitcode})'))
            elif len(j) > 5 and time.time() - t0 > hard * 0.85:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
            elif time.time() - t0 > hard or (found and time.time() - found > 40):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
                results.append(dict(kind='error', name=tname(mod, j), which=j[0], error='stopped: a violation was already found on a concrete input' if found else 'time budget of the whole check exhausted'))
            else:
                still.append((p, r, j, ts))
        running = still
        if not found:
            knowns = [k[1] for k in load_known() if k[0] == prop]
            if any(r.get('violation') or r.get('replayed') or any(k['key'] not in knowns for k in r.get('known', [])) for r in results):
                found = time.time()
        if found and time.time() - found > 40:
            for j in pend:
                results.append(dict(kind='error', name=tname(mod, j), which=j[0], error='stopped: a violation was already found on a concrete input'))
            pend = []
    return report(prop, tier, seed, mod, results, t0)


def tname(mod, j):
    return (mod.PROOFS if j[0] == 'p' else mod.BOUNDED)[j[1]].name


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                rest = line[len('known: '):]
                prop = rest.split()[0].split('=')[1]
                key = rest.split('key=')[1].split(' ')[0]
                out.append((prop, key, rest))
    return out


def report(prop, tier, seed, mod, results, t0):
    proofs = [r for r in results if r['kind'] == 'proof']
    bounded = [r for r in results if r['kind'] == 'bounded']
    errors = [r for r in results if r['kind'] == 'error']
    results.sort(key=lambda r: r['name'])
    viol = []
    known_hits = []
    knowns = [k for k in load_known() if k[0] == prop]
    for b in sorted(bounded, key=lambda b: b['name']):
        for k in b.get('known', []):
            hit = [x for x in knowns if x[1] == k['key']]
            if hit:
                known_hits.append((k['key'], hit[0][2]))
            else:
                viol.append((True, dict(source='bounded', task=b['name'], bound=b['bound'], **k)))
        if b['violation']:
            viol.append((True, dict(source='bounded', task=b['name'], bound=b['bound'], **b['violation'])))
    for p in sorted(proofs, key=lambda p: p['name']):
        if p['failed']:
            if p['replayed']:
                viol.append((True, dict(source='failed obligation, solver model replayed on the real code', task=p['name'],
                                        **p['replayed'], failed=p['failed'])))
            else:
                viol.append((False, dict(source='failed obligation', task=p['name'], obligation=p['failed'][0]['name'],
                                         status=p['failed'][0]['status'], failed=p['failed'])))
    for e in errors:
        viol.append((False, dict(source='task not completed', task=e['name'], obligation=e['name'], error=e['error'])))
    obligations = sum(p['obligations'] for p in proofs)
    discharged = sum(p['discharged'] for p in proofs)
    by = {}
    for p in proofs:
        for k, v in p['by'].items():
            by[k] = by.get(k, 0) + v
    under = sorted({f for p in proofs for f in p['functions']})
    inl = sorted({f for p in proofs for f in p['inlined']} - set(under))
    used = sorted({f for p in proofs for f in p['used']})
    nviol = len(viol)
    if proofs and not obligations and not viol:
        viol.append((False, dict(source='vacuous', task=prop, obligation='no obligations')))
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f'python3-vt run.py {prop} {tier}  (pyvc VC generator over the ASTs of {REPO}; back ends z3 (python API), cvc5 1.1.2)',
        trusted_base=['pyvc (this repository): Python semantics of the interpreted subset, array theory, loop cutting',
                      'z3 / cvc5', 'CPython 3.12 for the concrete replay and the bounded stand-ins'],
        discharged_by=by, solver_s=round(sum(p['solver_s'] for p in proofs), 2),
        functions_under_contract=under, callee_contracts_used=used, functions_inlined=inl,
        proof_tasks=[{k: p[k] for k in ('name', 'functions', 'obligations', 'discharged', 'by', 'kinds', 'paths', 'solver_s', 'wall', 'restarts')}
                     for p in proofs],
        undischarged=[dict(task=p['name'], failed=[{k: f.get(k) for k in ('name', 'kind', 'status')} for f in p['failed']]) for p in proofs if p['failed']],
        bounded_checks=[{k: b[k] for k in ('name', 'functions', 'bound', 'cases', 'distinct', 'samples', 'wall', 'standin_for')} for b in bounded],
        evaluations=sum(b['cases'] for b in bounded), distinct_nontrivial=sum(b['distinct'] for b in bounded),
        rule='bounded stand-ins only: cases made as each bounded_checks entry says; distinct = distinct case keys counted on this run',
        samples=[s for b in bounded for s in b['samples'][:1]] or ['(no bounded case in this check)'],
        errors=[dict(task=e['name'], error=e['error'][-400:]) for e in errors],
        known_findings=[k for k, _ in known_hits],
        explanation='proof tasks quantify over all inputs; bounded_checks are bounded and are not counted as proved',
    )
    level = getattr(mod, 'LEVEL', 'proof') if mod else 'proof'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=(getattr(mod, 'ASSUMPTIONS', []) if mod else []) + sorted({a for p in proofs for a in p['assumed']}),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop} [{tier}] obligations {discharged}/{obligations} {by}, functions under contract {len(under)}, '
          f'bounded cases {cov["evaluations"]}, {round(time.time() - t0, 1)} s')
    for k, text in sorted(set(known_hits)):
        print(f'KNOWN-FINDING: {text}')
    if not viol:
        return 0
    viol.sort(key=lambda v: not v[0])
    conc = viol[0][0]
    path = os.path.join(VERIF, 'evidence', 'replay', f'{prop}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, concrete=conc, violations=[dict(concrete=c, **v) for c, v in viol]), f, indent=1, default=str)
    for c, v in viol[:6]:
        print('  -', 'CONCRETE' if c else 'UNDISCHARGED', v.get('task'), '|', v.get('obligation', ''), '|', str(v.get('message') or v.get('status') or v.get('error', ''))[-300:],
              '|', str(v.get('inputs', ''))[:300])
    print(f'VIOLATION property={prop} replay={path}' + ('' if conc else ' no-failing-input-found'))
    return 1
