"""Runs the cases of a property: concrete evaluation of the contract on the real package, proof of
the contract on the real source, replay of counterexamples, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback
import types
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
EVID = os.path.join(HERE, 'evidence')
NPROC = int(os.environ.get('PV_PROCS', '8'))


def jsonable(v):
    if isinstance(v, np.ndarray):
        return {'__nd__': v.tolist(), 'dtype': str(v.dtype), 'shape': list(v.shape)}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): jsonable(e) for k, e in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(e) for e in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def unjson(v):
    if isinstance(v, dict) and '__nd__' in v:
        return np.array(v['__nd__'], dtype=v['dtype']).reshape(v['shape'])
    if isinstance(v, dict):
        return {k: unjson(e) for k, e in v.items()}
    if isinstance(v, list):
        return [unjson(e) for e in v]
    return v


def load_cases(prop):
    from pv.props import registry
    return registry.cases(prop)


class RealPackage:
    """the untouched package, imported from the working tree"""

    def __init__(self):
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.err = None
            try:
                self.root = importlib.import_module('CommDspy')
            except Exception as e:      # the package does not even import
                self.err = e

    def __call__(self, path):
        if self.err is not None:
            raise self.err
        o = self.root
        done = 'CommDspy'
        for p in path.split('.'):
            done += '.' + p
            if not hasattr(o, p):
                try:
                    importlib.import_module(done)
                except ImportError:
                    pass
            o = getattr(o, p)
        return o


# ---- worker tasks ---------------------------------------------------------------------------------
def task_concrete(prop, ci, pi, seed, n, mut):
    from pv import spec
    warn_off()
    case = load_cases(prop)[ci]
    p = case.params[pi]
    P = real_package()
    res = {'n': 0, 'checks': 0, 'fail': None, 'distinct': 0, 'sample': None, 'skipped': 0}
    seen = set()
    m = spec.mut_check if mut else None
    sources = []
    if case.edge:
        sources += [('edge', v) for v in case.edge(p)]
    sources += [('rand', None)] * n
    for q, (kind, vals) in enumerate(sources):
        rng = random.Random('%s/%s/%s/%s/%s' % (prop, ci, pi, seed, q))
        try:
            f, used, k = spec.run_concrete(case, p, P, values=vals, rng=rng, big=(q % 7 == 6), mut=m)
        except spec.Skip:
            res['skipped'] += 1
            continue
        res['n'] += 1
        res['checks'] += k
        h = hashlib.md5(json.dumps(jsonable(used), sort_keys=True).encode()).hexdigest()
        seen.add(h)
        if res['sample'] is None and k > 0 and q >= 2:
            res['sample'] = shorten(jsonable(used))
        if f:
            res['fail'] = {'failures': f[:5], 'inputs': jsonable(used)}
            break
    if not res['fail'] and case.sizes:
        # sizes next to the numbers that occur in the source, as long as time allows
        t0 = time.time()
        nums = source_numbers(case)
        for q in range(10 if n <= case.trials else 60):
            if time.time() - t0 > (3 if n <= case.trials else 30):
                break
            rng = random.Random('%s/%s/%s/%s/s%s' % (prop, ci, pi, seed, q))
            sz = [v for v in nums if v <= case.sizes]
            if not sz:
                break
            try:
                f, used, k = spec.run_concrete(case, p, P, rng=rng, mut=m, seconds=5, model=True, sizes=sz[q::10] or sz)
            except (spec.Skip, spec.Timeout):
                continue
            res['n'] += 1
            res['checks'] += k
            if f:
                res['fail'] = {'failures': f[:5], 'inputs': jsonable(used)}
                break
    res['distinct'] = len(seen)
    return res


# lengths at which a narrow number format starts to lose values
NARROW = {w: v for ws, v in ((('int8', 'byte', 'i1', 'b'), (128, 256, 400)), (('uint8', 'ubyte', 'u1', 'B'), (256, 512, 600)), (('int16', 'short', 'i2', 'uint16', 'u2'), (4000,)),
                             (('float16', 'half', 'f2', 'e'), (2048, 4100))) for w in ws}


def source_numbers(case):
    """integers in the source of the modules of the functions under contract, and their neighbours"""
    import ast
    mods = {'/'.join(f.split('.')[:k]) for f in case.funcs for k in range(1, 5)}
    out = set()
    for b in ('', 'CommDspy/'):
        for mname in mods:
            path = os.path.join(REPO, b + mname + '.py')
            if not os.path.exists(path):
                continue
            try:
                with open(path) as f:
                    tree = ast.parse(f.read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for nd in ast.walk(tree):
                if isinstance(nd, ast.Constant) and type(nd.value) in (int, float) and nd.value == int(nd.value) and 3 <= nd.value <= 100000:
                    out |= {int(nd.value) + d for d in (-1, 0, 1)}
                elif isinstance(nd, (ast.Attribute, ast.Name, ast.Constant)):
                    w = nd.attr if isinstance(nd, ast.Attribute) else nd.id if isinstance(nd, ast.Name) else nd.value
                    for v in NARROW.get(w, ()) if isinstance(w, str) else ():
                        out |= {v + d for d in (-1, 0, 1, 2)}
                elif isinstance(nd, ast.BinOp) and all(isinstance(e, ast.Constant) and type(e.value) is int and 0 < e.value < 20 for e in (nd.left, nd.right)) and isinstance(nd.op, (ast.LShift, ast.Pow, ast.Mult)):
                    v = {ast.LShift: lambda a, b: a << b, ast.Pow: lambda a, b: a ** b, ast.Mult: lambda a, b: a * b}[type(nd.op)](nd.left.value, nd.right.value)
                    if 3 <= v <= 100000:
                        out |= {v + d for d in (-1, 0, 1)}
    return sorted(out)


def shorten(v, n=600):
    s = json.dumps(v)
    return v if len(s) < n else s[:n] + '...'


_PKG = None


def real_package():
    global _PKG
    if _PKG is None:
        _PKG = RealPackage()
    return _PKG


def preload():
    """import everything once, before the workers are forked"""
    warn_off()
    import scipy.signal, scipy.linalg, scipy.interpolate       # noqa
    real_package()
    from pv import spec, loader, contracts, npshim             # noqa


def warn_off():
    import warnings
    warnings.simplefilter('ignore')


def task_symbolic(prop, ci, pi, mut, tier):
    from pv import spec, loader, contracts
    warn_off()
    case = load_cases(prop)[ci]
    p = case.params[pi]
    dl = case.deadline * (4 if tier == 'thorough' else 1)
    r = spec.run_symbolic(case, p, loader.Repo, mut=mut, deadline=dl, contracts=contracts.TABLE)
    out = {'status': r.status, 'reason': r.reason, 'paths': r.paths, 'solver': r.solver_time, 'secs': r.secs,
           'obls': len(r.obls), 'proved': sum(o.status == 'proved' for o in r.obls), 'assumed': sorted(r.assumed),
           'contracts': sorted(r.contracts), 'loops': sorted(r.loops), 'queries': r.queries,
           'backends': {}, 'names': sorted({o.name for o in r.obls}), 'bad': [], 'cosim': 0, 'cosim_fail': None,
           'trace': getattr(r, 'trace', '')}
    for o in r.obls:
        out['backends'][o.backend] = out['backends'].get(o.backend, 0) + 1
    P = real_package()
    m = spec.mut_check if mut else None
    # co-simulation: one real run per explored path, on inputs taken from its path condition
    for w in r.witnesses[:25]:
        try:
            f, used, k = spec.run_concrete(case, p, P, values=dict(w), mut=m, seconds=6, model=True)
        except (spec.Skip, KeyError):
            continue
        out['cosim'] += 1
        if f and out['cosim_fail'] is None:
            out['cosim_fail'] = {'failures': f[:5], 'inputs': jsonable(used)}
    guided = list(r.witnesses[:25])
    for name, st, models, detail in r.bad[:8]:
        b = {'obligation': name, 'status': st, 'inputs': None, 'ran': 0, 'reproduced': None, 'detail': (detail or '')[-1500:]}
        for model in models or []:
            b['inputs'] = b['inputs'] or jsonable(model)
            try:
                f, used, k = spec.run_concrete(case, p, P, values=dict(model), mut=m, seconds=10, model=True)
                b['ran'] += 1
                if f:
                    b['reproduced'] = {'failures': f[:5], 'inputs': jsonable(used)}
                    break
            except (spec.Skip, KeyError):
                pass
        guided = list(models or [])[:3] + guided
        out['bad'].append(b)
    # the sizes and scalars of the models with other data
    t0 = time.time()
    if (case.conc or r.bad) and out['cosim_fail'] is None and not any(b['reproduced'] for b in out['bad']):
        for q in range(40 if r.bad else 12):
            if not guided or time.time() - t0 > (20 if r.bad else 3):
                break
            rng = random.Random('%s/%s/%s/g%s' % (prop, ci, pi, q))
            try:
                f, used, k = spec.run_concrete(case, p, P, rng=rng, mut=m, seconds=6, model=True, hints=guided[q % len(guided)])
            except (spec.Skip, KeyError, spec.Timeout):
                continue
            out['cosim'] += 1
            if f:
                out['cosim_fail'] = {'failures': f[:5], 'inputs': jsonable(used)}
                break
    return out


def _worker(conn, fn, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        sys.setrecursionlimit(20000)
        conn.send(('ok', fn(*args)))
    except BaseException as e:
        try:
            conn.send(('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:])))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(tasks, limit):
    """tasks: [(key, fn, args, seconds)] -> {key: (status, result)}; `limit` absolute time"""
    ctx = mp.get_context('fork')
    pending = list(tasks)
    live = []
    out = {}
    while pending or live:
        while pending and len(live) < NPROC:
            key, fn, args, secs = pending.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_worker, args=(b, fn, args))
            pr.start()
            b.close()
            live.append((key, pr, a, time.time() + secs))
        time.sleep(0.01)
        nl = []
        for key, pr, a, dl in live:
            if a.poll(0):
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ('err', 'worker died')
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
            elif not pr.is_alive():
                out[key] = ('err', 'worker died') if not a.poll(0) else a.recv()
            elif time.time() > min(dl, limit):
                pr.kill()
                pr.join()
                out[key] = ('timeout', None)
            else:
                nl.append((key, pr, a, dl))
        live = nl
        if time.time() > limit:
            for key, pr, a, dl in live:
                pr.kill()
                out[key] = ('timeout', None)
            for t in pending:
                out[t[0]] = ('timeout', None)
            break
    return out


# ---- known findings -------------------------------------------------------------------------------
def known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def match_known(prop, case, failures, inputs):
    for k in known():
        if k.get('property') == prop and k.get('case') == case.name and k.get('match', '') in ' '.join(failures):
            return k
    return None


# ---- the check --------------------------------------------------------------------------------------
def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', help='only cases whose name contains this')
    ap.add_argument('--nosym', action='store_true')
    ap.add_argument('--noconc', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.replay:
        return replay(a.replay)
    return check(a)


def replay(path):
    from pv import spec
    warn_off()
    with open(path) as f:
        d = json.load(f)
    cases = load_cases(d['property'])
    case = [q for q in cases if q.name == d['case']][0]
    if d.get('inputs') is None:
        print('no failing input recorded; obligation:', d.get('obligation'))
        print(d.get('verifier_output', ''))
        return 0
    vals = unjson(d['inputs'])
    f, used, k = spec.run_concrete(case, case.params[d['param_index']], RealPackage(), values=vals,
                                   mut=spec.mut_check if d.get('mut') else None)
    print('inputs:', d['inputs'])
    print('failures:', f)
    return 1 if f else 0


def check(a):
    t0 = time.time()
    prop = a.prop
    from pv.props import registry
    cases = registry.cases(prop)
    meta = registry.META.get(prop, {})
    mut = meta.get('mut', False)
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    hard = t0 + (800 if a.tier == 'quick' else 3000)
    viol = []
    findings = []
    preload()
    fails = []      # (case, pi, kind, failures, inputs, obligation, output)
    sel = [(ci, pi) for ci, cs in enumerate(cases) for pi in range(len(cs.params)) if not a.case or a.case in cs.name]
    conc = {}
    if not a.noconc:
        tasks = []
        for ci, pi in sel:
            cs = cases[ci]
            if not cs.conc:
                continue
            n = cs.trials if a.tier == 'quick' else cs.thorough
            tasks.append(((ci, pi), task_concrete, (prop, ci, pi, a.seed, n, mut), 240 if a.tier == 'quick' else 900))
        conc = run_tasks(tasks, hard)
        for (ci, pi), (st, r) in conc.items():
            if st == 'ok' and r['fail']:
                fails.append((cases[ci], pi, 'concrete', r['fail']['failures'], r['fail']['inputs'], None, ''))
            elif st != 'ok' and a.v:
                print('concrete', cases[ci].name, pi, st, r)
    sym = {}
    real_fail = [f for f in fails if match_known(prop, f[0], f[3], f[4]) is None]
    if not a.nosym and not real_fail:
        tasks = []
        for ci, pi in sel:
            cs = cases[ci]
            if cs.sym and (cs.symparams is None or pi in cs.symparams):
                tasks.append(((ci, pi), task_symbolic, (prop, ci, pi, mut, a.tier), cs.deadline * (4 if a.tier == 'thorough' else 1) + 40))
        sym = run_tasks(tasks, hard)
    search = []
    for (ci, pi), (st, r) in sym.items():
        if st != 'ok':
            if a.v:
                print('symbolic', cases[ci].name, pi, st, r)
            continue
        cs = cases[ci]
        if a.v:
            print('symbolic %-50s %s %-11s paths=%d obls=%d/%d solver=%.1fs total=%.1fs cosim=%d %s' % (
                cs.name, json.dumps(jsonable(cs.params[pi])) if len(cs.params) > 1 else '', r['status'], r['paths'], r['proved'], r['obls'], r['solver'], r['secs'], r['cosim'], r['reason']))
            if r['trace']:
                print(r['trace'])
        if r['cosim_fail']:
            fails.append((cs, pi, 'path witness', r['cosim_fail']['failures'], r['cosim_fail']['inputs'], None, ''))
            continue
        done = False
        for b in r['bad']:
            if a.v:
                print('   bad:', b['obligation'], b['status'], 'reproduced' if b['reproduced'] else 'not reproduced', str(b['inputs'])[:600], b['detail'][-600:])
            if b['reproduced']:
                fails.append((cs, pi, 'counterexample', b['reproduced']['failures'], b['reproduced']['inputs'], b['obligation'], b['detail']))
                done = True
                break
        if not done and r['bad']:
            search.append((ci, pi, r))
    if search and not fails:
        tasks = [((ci, pi), task_concrete, (prop, ci, pi, a.seed + 1000, cases[ci].trials * 6, mut), 120) for ci, pi, r in search if cases[ci].conc]
        more = run_tasks(tasks, hard)
        for ci, pi, r in search:
            st, q = more.get((ci, pi), ('none', None))
            if st == 'ok' and q['fail']:
                fails.append((cases[ci], pi, 'concrete search', q['fail']['failures'], q['fail']['inputs'], r['bad'][0]['obligation'], ''))
                continue
            hard_bad = [b for b in r['bad'] if b['status'] == 'refuted' and not b['ran'] and 'returns normally' not in b['obligation'] and 'got ' not in b['obligation']]
            r['undecided'] = True
            if hard_bad:
                b = hard_bad[0]
                fails.append((cases[ci], pi, 'obligation', ['obligation not discharged: ' + b['obligation']], None, b['obligation'],
                              json.dumps(b)[:4000]))
    # report
    for n, (cs, pi, kind, fl, inp, ob, text) in enumerate(fails):
        k = match_known(prop, cs, fl, inp)
        if k is not None:
            findings.append(k)
            continue
        path = os.path.join(EVID, 'replays', '%s_%d.json' % (prop, n))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': cs.name, 'param_index': pi, 'params': jsonable(cs.params[pi]), 'found_by': kind,
                       'failures': fl, 'inputs': inp, 'obligation': ob or fl[0], 'verifier_output': text, 'mut': mut,
                       'how': '/verif/check.py --replay <this file>'}, f, indent=1)
        viol.append((path, inp is None, cs, fl))
    for k in {json.dumps(k, sort_keys=True) for k in findings}:
        k = json.loads(k)
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', '')))
    evidence(a, prop, meta, cases, conc, sym, viol, time.time() - t0)
    seen = 0
    for path, nf, cs, fl in viol[:6]:
        print('  failing: %s: %s' % (cs.name, '; '.join(fl)[:300]))
    for path, nf, cs, fl in viol[:3]:
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nf else ''))
    if viol:
        return 1
    tot = sum(r['proved'] for st, r in sym.values() if st == 'ok')
    bounded = [cases[ci].name for (ci, pi), (st, r) in sym.items() if st != 'ok' or r['status'] != 'proved']
    print('%s: held. %d obligations discharged, %d concrete evaluations%s (%.1fs)' % (
        prop, tot, sum(r['n'] for st, r in conc.values() if st == 'ok'),
        '; bounded only: ' + ', '.join(sorted(set(bounded))) if bounded else '', time.time() - t0))
    return 0


def evidence(a, prop, meta, cases, conc, sym, viol, wall):
    obl = sum(r['obls'] for st, r in sym.values() if st == 'ok')
    dis = sum(r['proved'] for st, r in sym.values() if st == 'ok')
    proved = [k for k, (st, r) in sym.items() if st == 'ok' and r['status'] == 'proved']
    assumed = set()
    contracts = set()
    loops = set()
    backends = {}
    for st, r in sym.values():
        if st == 'ok':
            assumed |= set(r['assumed'])
            contracts |= set(r['contracts'])
            loops |= set(r['loops'])
            for k, v in r['backends'].items():
                backends[k] = backends.get(k, 0) + v
    per = []
    for ci, cs in enumerate(cases):
        e = {'case': cs.name, 'functions': cs.funcs, 'note': cs.note}
        ps = [(pi, sym[(ci, pi)]) for pi in range(len(cs.params)) if (ci, pi) in sym]
        pr = sum(1 for pi, (st, r) in ps if st == 'ok' and r['status'] == 'proved')
        e['parameter_sets_proved'] = '%d of %d' % (pr, len(cs.params))
        e['obligations'] = sum(r['obls'] for pi, (st, r) in ps if st == 'ok')
        e['discharged'] = sum(r['proved'] for pi, (st, r) in ps if st == 'ok')
        e['solver_s'] = round(sum(r['solver'] for pi, (st, r) in ps if st == 'ok'), 2)
        und = sorted({(r['reason'] or r['status']) if st == 'ok' else st for pi, (st, r) in ps if st != 'ok' or r['status'] != 'proved'})
        if und:
            e['not_proved_because'] = und
        if pr < len(cs.params):
            e['strength'] = 'proved for some parameter sets, bounded for the rest' if pr else 'bounded'
        else:
            e['strength'] = 'proved' if not cs.bound else 'bounded (all values within: %s)' % cs.bound
        cc = [conc[(ci, pi)][1] for pi in range(len(cs.params)) if (ci, pi) in conc and conc[(ci, pi)][0] == 'ok']
        if cs.bound:
            e['bound'] = cs.bound
        e['concrete_runs'] = sum(x['n'] for x in cc)
        per.append(e)
    allc = [r for st, r in conc.values() if st == 'ok']
    cov = {
        'evaluations': sum(r['n'] for r in allc) + sum(r['cosim'] for st, r in sym.values() if st == 'ok'),
        'distinct_nontrivial': sum(r['distinct'] for r in allc if r['checks'] > 0),
        'rule': 'inputs drawn at random per case from its precondition (seeded), plus listed edge inputs and one model of each explored path; distinct by value, counted when at least one postcondition was evaluated',
        'samples': [r['sample'] for r in allc if r['sample'] is not None][:3],
        'obligations': obl, 'discharged': dis,
        'checker_cmd': '/opt/venv/bin/python /verif/check.py %s --tier %s' % (prop, a.tier),
        'backends': backends,
        'solver_s': round(sum(r['solver'] for st, r in sym.values() if st == 'ok'), 2),
        'paths': sum(r['paths'] for st, r in sym.values() if st == 'ok'),
        'paths_cosimulated_on_real_code': sum(r['cosim'] for st, r in sym.values() if st == 'ok'),
        'functions_under_contract': sorted({f for cs in cases for f in cs.funcs}),
        'callee_contracts_used': sorted(contracts), 'loops_cut_with_invariants': sorted(loops),
        'cases': per,
        'trusted_base': ['CPython 3.12', 'z3 / cvc5', 'pv engine (symbolic values and array views, pv/core.py pv/arr.py pv/loops.py)',
                         'library models: ' + ', '.join(sorted(assumed))],
    }
    level = meta.get('level', 'proof')
    if not proved and level == 'proof':
        level = 'exploration'
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(viol),
          'assumptions': ['floating-point arithmetic treated as real arithmetic in proofs (concrete runs use the real floats with tolerance)',
                          'int64 arithmetic treated as unbounded integers',
                          'numpy / scipy functions on symbolic values follow pv/npshim.py and pv/arr.py: ' + ', '.join(sorted(assumed))]
          + list(meta.get('assumptions', []))}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
