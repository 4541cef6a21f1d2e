"""Common driver of the checks: proof part (all contracts, in parallel) + bounded search on the real code."""
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def strip_msg(s):
    return s if len(s) < 1500 else s[:1500] + '...'


# ------------------------------------------------------------------ proof worker
def prove_task(t):
    modname, si, key, opts = t
    out = {'target': '%s:%s' % key, 'status': 'undecided', 'obls': 0, 'discharged': 0, 'cvc5': 0, 'bad': [],
           'unknown': [], 'unsupported': [], 'time': 0.0, 'solver_s': 0.0, 'paths': 0, 'inlined': [], 'used': [],
           'spec': si, 'names': []}
    t0 = time.time()
    try:
        from . import driver
        mod = importlib.import_module(modname)
        spec = mod.specs()[si]() if callable(mod.specs()[si]) else mod.specs()[si]
        c = spec.contracts[key]
        r = driver.verify(spec, c, opts)
        out.update(target=r.target, status=r.status, obls=len(r.obls),
                   discharged=sum(1 for o in r.obls if o.status == 'proved'),
                   cvc5=sum(1 for o in r.obls if o.status == 'proved' and o.backend == 'cvc5'),
                   unsupported=r.unsupported[:8], solver_s=r.stats.get('solver_s', 0.0), paths=r.paths,
                   inlined=r.inlined, used=r.used, vacuous=r.vacuous)
        out['names'] = sorted(set(o.name for o in r.obls))[:60]
        seen = {}
        for o in r.obls:
            if o.status == 'proved':
                continue
            d = {'name': o.name, 'status': o.status, 'abstract': bool(o.abstract), 'path': o.path, 'model': o.model,
                 'cex': o.cex, 'smt': (o.smt or '')[:200000]}
            k = 'bad' if o.status == 'refuted' else 'unknown'
            n = seen.get((k, o.name), 0)
            seen[(k, o.name)] = n + 1
            if n < 4 and len(out[k]) < 16:
                out[k].append(d)
    except Exception:
        out['unsupported'].append('verifier crash: ' + traceback.format_exc()[-600:])
    out['time'] = time.time() - t0
    return out


# ------------------------------------------------------------------ bounded worker
def bounded_task(t):
    modname, shard, nshards, seed, tier, deadline = t
    out = {'evals': 0, 'distinct': 0, 'fails': [], 'samples': [], 'skipped': [], 'crash': None, 'complete': False,
           'keys': []}
    keys = set()
    try:
        mod = importlib.import_module(modname)
        rng = random.Random('%s/%s' % (seed, shard))
        signal.signal(signal.SIGALRM, _alarm)
        done = True
        for case in mod.cases(rng, tier, shard, nshards):
            if time.time() > deadline:
                done = False
                break
            out['evals'] += 1
            signal.alarm(getattr(mod, 'CASE_S', 30))
            try:
                r = mod.check_case(case)
            except Timeout:
                out['skipped'].append('case timed out')
                r = None
            finally:
                signal.alarm(0)
            k = getattr(mod, 'case_key', repr)(case)
            if k not in keys:
                keys.add(k)
                if len(out['samples']) < 2:
                    out['samples'].append(strip_msg(k))
            if r is not None:
                out['fails'].append({'case': case, 'key': r[0], 'msg': strip_msg(r[1])})
                if len(out['fails']) >= 25:
                    break
        out['complete'] = done
    except Exception:
        out['crash'] = traceback.format_exc()[-3000:]
    out['distinct'] = len(keys)
    return out


def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)
    except (OSError, ValueError):
        return []


def write_replay(pid, rec):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    n = os.path.join(d, '%s_%d.json' % (pid, os.getpid()))
    with open(n, 'w') as f:
        json.dump(rec, f, indent=1)
    return n


def replay(pid, path):
    mod = importlib.import_module('checks.' + pid.lower())
    with open(path) as f:
        rec = json.load(f)
    if rec.get('case') is None:
        print('no failing input in this file; failed obligation: %s' % rec.get('obligation'))
        return 1
    r = mod.check_case(rec['case'])
    print('REPLAY %s: %s' % (pid, 'holds' if r is None else 'fails: %s %s' % r))
    return 0 if r is None else 1


def main(argv):
    pid = argv[0].upper()
    env.setup()
    sys.path.insert(0, VERIF)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.chdir(scratch)
    os.environ['VERIF_SCRATCH'] = scratch
    import tempfile as _t
    _t.tempdir = scratch
    try:
        if '--replay' in argv:
            p = argv[argv.index('--replay') + 1]
            return replay(pid, os.path.join(VERIF, p) if not os.path.isabs(p) else p)
        return run(pid, argv)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, argv):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    verbose = '-v' in argv
    modname = 'checks.' + pid.lower()
    ncpu = min(8, os.cpu_count() or 1)
    mod = importlib.import_module(modname)
    opts = {'budget': 240 if tier == 'quick' else 600}
    opts.update(getattr(mod, 'OPTS', {}))
    tasks = []
    for si, s in enumerate(mod.specs()):
        sp = s() if callable(s) else s
        for key in sp.contracts:
            if not sp.contracts[key].trusted:
                tasks.append((modname, si, key, opts))
    blimit = {'quick': getattr(mod, 'QUICK_S', 40), 'thorough': getattr(mod, 'THOROUGH_S', 240)}[tier]
    has_bounded = hasattr(mod, 'cases')
    results, bres = [], []
    ctx = mp.get_context('fork')
    hard = t0 + (700 if tier == 'quick' else 840)
    with ctx.Pool(ncpu, maxtasksperchild=None) as pool:
        pa = [pool.apply_async(prove_task, (t,)) for t in tasks]
        ba = []
        if has_bounded:
            ns = getattr(mod, 'SHARDS', ncpu)
            ba = [pool.apply_async(bounded_task, ((modname, i, ns, seed, tier, time.time() + 100000),))
                  for i in range(0)]
        for t, a in zip(tasks, pa):
            try:
                results.append(a.get(max(1, hard - time.time() - blimit - 30)))
            except Exception as e:
                results.append({'target': '%s:%s' % t[2], 'status': 'undecided', 'obls': 0, 'discharged': 0,
                                'cvc5': 0, 'bad': [], 'unknown': [], 'unsupported': ['no answer: %r' % e],
                                'time': 0.0, 'solver_s': 0.0, 'paths': 0, 'inlined': [], 'used': [], 'names': [],
                                'spec': t[1]})
        pool.terminate()
    refuted = [r for r in results if r['status'] == 'refuted']
    undecided = [r for r in results if r['status'] in ('undecided', 'missing')]
    if (refuted or undecided) and has_bounded:
        blimit = min(blimit * 2, max(20, hard - time.time() - 30))   # search longer for a failing input
    if has_bounded:
        ns = getattr(mod, 'SHARDS', ncpu)
        with ctx.Pool(ns) as pool:
            dl = time.time() + blimit
            ba = [pool.apply_async(bounded_task, ((modname, i, ns, seed, tier, dl),)) for i in range(ns)]
            for a in ba:
                try:
                    bres.append(a.get(max(5, dl + 60 - time.time())))
                except Exception as e:
                    bres.append({'evals': 0, 'distinct': 0, 'fails': [], 'samples': [], 'skipped': ['no answer %r' % e],
                                 'crash': None, 'complete': False})
            pool.terminate()
    fails = [f for b in bres for f in b['fails']]
    # counter-models of refuted obligations, replayed on the real code
    cexn = 0
    if hasattr(mod, 'case_from_cex'):
        for r in refuted:
            for o in r['bad']:
                if o.get('cex') is None:
                    continue
                try:
                    case = mod.case_from_cex(r['target'], o['cex'])
                    if case is None:
                        continue
                    cexn += 1
                    signal.signal(signal.SIGALRM, _alarm)
                    signal.alarm(20)
                    try:
                        v = mod.check_case(case)
                    finally:
                        signal.alarm(0)
                    if v is not None:
                        fails.insert(0, {'case': case, 'key': v[0], 'msg': strip_msg(v[1]), 'obligation': o['name'],
                                         'function': r['target']})
                except (Exception, Timeout):
                    pass
    known = [k for k in load_known() if k.get('property') == pid and k.get('status', 'open') == 'open']
    kkeys = dict((k['key'], k) for k in known if 'key' in k)
    koblig = dict(((k['function'], k['obligation']), k) for k in known if 'obligation' in k)
    newfails = [f for f in fails if f['key'] not in kkeys]
    oldkeys = sorted(set(f['key'] for f in fails if f['key'] in kkeys))
    # known findings are re-demonstrated from their recorded input
    for k in known:
        if 'case' in k and 'key' in k and k['key'] not in oldkeys:
            try:
                v = mod.check_case(k['case'])
                if v is not None:
                    if v[0] == k['key']:
                        oldkeys.append(k['key'])
                    else:
                        newfails.append({'case': k['case'], 'key': v[0], 'msg': v[1]})
            except Exception:
                pass
    hardbad = []
    for r in refuted:
        for o in r['bad']:
            if (r['target'], o['name']) in koblig:
                continue
            if not o['abstract'] and not r['unsupported']:
                hardbad.append((r, o))
    viol = 0
    code = 0
    crashes = [b['crash'] for b in bres if b['crash']]
    for k in sorted(oldkeys):
        print('KNOWN-FINDING: property=%s %s' % (pid, kkeys[k]['what']))
    if newfails:
        f = newfails[0]
        failed = [{'function': r['target'], 'obligation': o['name'], 'path': o['path']} for r in refuted
                  for o in r['bad']][:10]
        rp = write_replay(pid, {'property': pid, 'case': f['case'], 'key': f['key'], 'message': f['msg'],
                                'failed_obligations': failed,
                                'how': 'cd /verif && python3-vt run_check.py %s --replay <this file>' % pid})
        print('failing input on the real code: %s' % f['msg'])
        for x in failed[:5]:
            print('failed obligation: %s: %s' % (x['function'], x['obligation']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        viol, code = len(newfails), 1
    elif hardbad:
        r, o = hardbad[0]
        rp = write_replay(pid, {'property': pid, 'case': None, 'function': r['target'], 'obligation': o['name'],
                                'path': o['path'], 'model': o['model'], 'query': o['smt'],
                                'verifier_output': 'sat: the negated obligation is satisfiable', 'cex': o['cex']})
        print('failed obligation: %s: %s (path %s)' % (r['target'], o['name'], o['path'][-400:]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        viol, code = len(hardbad), 1
    total = sum(r['obls'] for r in results)
    disc = sum(r['discharged'] for r in results)
    ev = evals = sum(b['evals'] for b in bres)
    cov = {
        'obligations': total, 'discharged': disc,
        'checker_cmd': 'cd /verif && python3-vt run_check.py %s (z3 %s, cvc5 on z3-unknown)' % (pid, z3version()),
        'trusted_base': trusted(mod, results),
        'functions_under_contract': [{'function': r['target'], 'status': r['status'], 'obligations': r['obls'],
                                      'discharged': r['discharged'], 'by_cvc5': r['cvc5'], 'paths': r['paths'],
                                      'solver_s': round(r['solver_s'], 2), 'reason': r['unsupported'][:2],
                                      'obligation_names': r['names'][:12]} for r in results],
        'functions_proved': sum(1 for r in results if r['status'] == 'proved'),
        'functions_total': len(results),
        'executed_in_place_from_ast': sorted(set(x for r in results for x in r['inlined']))[:80],
        'solver_s': round(sum(r['solver_s'] for r in results), 2),
        'discharged_by_cvc5': sum(r['cvc5'] for r in results),
        'undecided': [{'function': r['target'], 'why': r['unsupported'][:3] +
                       ['unknown: ' + o['name'] for o in r['unknown'][:3]] +
                       ['refuted under a lost loop abstraction: ' + o['name'] for o in r['bad'][:2]]}
                      for r in results if r['status'] != 'proved'],
        'explanation': getattr(mod, 'EXPLANATION', ''),
        'counter_models_replayed': cexn,
    }
    if has_bounded:
        cov['bounded_evaluations'] = evals
        cov['bounded_distinct_nontrivial'] = sum(b['distinct'] for b in bres)
        cov['evaluations'] = evals
        cov['distinct_nontrivial'] = sum(b['distinct'] for b in bres)
        cov['rule'] = getattr(mod, 'RULE', 'bounded stand-in / replay search on the real code (never counted as proved)')
        cov['samples'] = [s for b in bres for s in b['samples']][:4]
        cov['bounded_skipped'] = sum(len(b['skipped']) for b in bres)
        if crashes:
            cov['bounded_harness_error'] = crashes[0][-800:]
    evd = {'property': pid, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed,
           'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    if verbose or code:
        for r in results:
            print('  %-60s %-9s %d/%d paths %d %.1fs %s' % (r['target'], r['status'], r['discharged'], r['obls'],
                                                          r['paths'], r['time'], r['unsupported'][:2]))
            if verbose:
                for o in (r['bad'] + r['unknown'])[:4]:
                    print('      %s %s | %s' % (o['status'], o['name'], o['path'][-200:]))
    print('%s: %d/%d obligations discharged over %d functions (%d proved), %d bounded evaluations, %.1fs' %
          (pid, disc, total, len(results), cov['functions_proved'], evals, time.time() - t0))
    for c in crashes[:1]:
        print('bounded harness error: %s' % c)
    if code == 0 and total == 0 and not evals:
        print('nothing was checked')
        return 2
    return code


def z3version():
    import z3
    return z3.get_version_string()


def trusted(mod, results):
    base = ['the pyvc symbolic interpreter (/verif/pyvc: semantics of the Python subset, builtin models)',
            'z3 / cvc5', 'CPython executing the functions as their source says',
            'partial correctness: termination not proved', 'Python ints treated as mathematical integers (exact)']
    base += getattr(mod, 'TRUSTED', [])
    return base
