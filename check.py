#!/usr/bin/env python3
"""Solver-based check of one property:  check.py --prop C01 [--tier quick|thorough]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and not os.environ.get('VP_REEXEC') and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.environ['VP_REEXEC'] = '1'
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import driver, build  # noqa: E402

PROGS = []
JOBCFG = {}


def tu_job(job):
    idx, ids, work, deadline, seed, cfg = job
    try:
        recs, ct = driver.run_tu((idx, [PROGS[i] for i in ids], work, deadline, seed, cfg))
    except Exception as e:
        recs, ct = [{'name': PROGS[i].name, 'failed': 'machinery: %r' % e} for i in ids], 0.0
    return ids, recs, ct


def replay_job(job):
    i, cands, work, seed = job
    try:
        return i, driver.replay(PROGS[i], cands, work, seed)
    except Exception as e:
        return i, {'status': 'error', 'msg': repr(e)}


def matches(known, prop, name, msg):
    for k in known:
        if k.get('status') == 'fixed':
            continue
        if k['property'] == prop and name in k['programs'] and any(s in msg for s in k['match']):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--noreplay', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    deep = a.tier == 'thorough'
    budget = a.budget or (3000 if deep else 420)
    deadline = t0 + budget
    mod = importlib.import_module('vp.props.' + a.prop.lower())
    rng = random.Random(a.seed)
    progs = mod.programs(a.tier, rng)
    seen = set()
    for p in progs:
        assert p.name not in seen, 'duplicate program ' + p.name
        seen.add(p.name)
    if a.only:
        progs = [p for p in progs if a.only in p.name]
    PROGS.extend(progs)
    for p in PROGS:
        p.body()        # generate before forking
    work = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    try:
        code = run(a, mod, work, deadline, t0, deep)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(a, mod, work, deadline, t0, deep):
    cfg = {'cvc5': deep, 'prog_time': 300 if deep else 60}
    if deep:
        cfg['claim_timeout'] = 60000
    cfg.update(getattr(mod, 'CFG', {}).get(a.tier, {}))
    n = len(PROGS)
    cfg['pch'] = build.precompile(work)
    per = max(1, min(12, -(-n // (2 * a.jobs))))
    heavy = [i for i in range(n) if getattr(PROGS[i], 'heavy', False)]
    light = [i for i in range(n) if not getattr(PROGS[i], 'heavy', False)]
    groups = [[i] for i in heavy] + [light[k:k + per] for k in range(0, len(light), per)]
    jobs = [(k, g, work, deadline, a.seed, cfg) for k, g in enumerate(groups)]
    recs = [None] * n
    ctime = 0.0
    # non-daemonic workers: each forks a child per program
    with mp.get_context('fork').Pool(a.jobs) as pool:
        for ids, rs, ct in pool.imap_unordered(tu_job, jobs):
            ctime += ct
            byname = {r['name']: r for r in rs}
            for i in ids:
                recs[i] = byname.get(PROGS[i].name, {'name': PROGS[i].name, 'failed': 'no record'})
                if a.v:
                    show(recs[i])
        rep = [(i, recs[i]['cands'], work, a.seed) for i in range(n) if recs[i].get('cands')]
        results = {}
        if not a.noreplay:
            for i, r in pool.imap_unordered(replay_job, rep[:60]):
                results[i] = r
                if a.v:
                    print('REPLAY', PROGS[i].name, r['status'], r.get('msg', ''), recs[i]['cands'][0])
    # ---- verdicts
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if os.path.exists(os.path.join(HERE, 'known_findings.json')) else []
    rdir = os.path.join(HERE, 'evidence', 'replays')
    violations = []
    hit = {}
    spurious = []
    for i in sorted(results):
        r = results[i]
        if r['status'] != 'reproduced':
            spurious.append({'program': PROGS[i].name, 'status': r['status'], 'msg': r.get('msg', ''), 'candidate': [str(x) for x in recs[i]['cands'][0][:2]]})
            continue
        k = matches(known, a.prop, PROGS[i].name, r['msg'])
        if k:
            hit.setdefault(k['id'], (k, []))[1].append(PROGS[i].name)
            continue
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, '%s_%s.json' % (a.prop, PROGS[i].name.replace('/', '_')))
        with open(fn, 'w') as f:
            json.dump({'property': a.prop, 'program': PROGS[i].name, 'observed': r['msg'], 'solver_candidate': list(r['cand']), 'inputs': r['inputs'],
                       'expected': [(k_, l, repr(e)) for k_, l, e in r['expected']], 'outputs': {str(x): repr(y) for x, y in r['outputs'].items()},
                       'source': build.native_source(PROGS[i]), 'compile': ' '.join(build.GXX + build.INC + ['replay.cpp', '-o', 'replay']),
                       'run': 'replay INPUTFILE (lines: index value)'}, f, indent=1)
        violations.append((PROGS[i].name, r['msg'], fn))
    for name, msg, fn in violations:
        print('VIOLATION property=%s replay=%s' % (a.prop, fn))
        print('  program %s: %s' % (name, msg))
    for kid, (k, names) in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, k['what'], ', '.join(names)))
    evidence(a, mod, recs, ctime, violations, hit, spurious, rep, results, t0, deep)
    lost = sum(1 for r in recs if 'failed' in r)
    if not violations and 2 * lost > n:
        print('%s: %d of %d programs could not be run; nothing is claimed' % (a.prop, lost, n))
        return 2
    return 1 if violations else 0


def show(r):
    if 'failed' in r:
        print('FAILED', r['name'], r['failed'][-400:])
    else:
        bad = r['cands'] or r['undecided'] or r['unsupported'] or not r['complete']
        print('%s %-28s paths=%d(+%d infeasible) claims=%d %.1fs q=%d %.1fs %s %s %s' % ('??' if bad else 'ok', r['name'], r['paths'], r['infeasible'], r['claims'], r['time'], r['stats']['queries'], r['stats']['time'],
              [(c[0], c[1][:200]) for c in r['cands'][:2]] if r['cands'] else '', [u[:150] for u in r['undecided'][:2]] if r['undecided'] else '', r['unsupported'][:2] if r['unsupported'] else ''), flush=True)


def evidence(a, mod, recs, ctime, violations, hit, spurious, rep, results, t0, deep):
    ok = [r for r in recs if 'failed' not in r]
    failed = [r for r in recs if 'failed' in r]
    proved = [r for r in ok if r['complete'] and not r['cands'] and r['paths'] > 0]
    partial = [r for r in ok if not r['complete'] and not r['cands'] and r['paths'] > 0]
    vac = [r['name'] for r in ok if r['paths'] == 0]
    funcs = {}
    for r in ok:
        for f in r['funcs']:
            funcs[f] = funcs.get(f, 0) + 1
    st = {}
    for r in ok:
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                st[k] = st.get(k, 0) + v
    cross = {}
    for r in ok:
        for k, v in (r.get('cross') or {}).items():
            cross[k] = cross.get(k, 0) + v
    fad = sorted(f for f in funcs if '2ad' in f)
    samples = []
    for r in (proved[:2] + partial[:1]):
        p = next(q for q in PROGS if q.name == r['name'])
        samples.append({'program': r['name'], 'source': p.body()[:1500], 'paths': r['paths'], 'claims_discharged': r['claims'], 'solver_queries': r['stats']['queries']})
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking',
          'coverage': {
              'states': sum(r['paths'] for r in ok), 'transitions': sum(r['decisions'] for r in ok) + sum(r['claims'] for r in ok),
              'traces_validated_against_impl': len(results),
              'samples': samples,
              'explanation': 'states: symbolic paths executed to the end with a feasible path condition (each covers all real inputs satisfying it); transitions: solver-decided branch points plus claims (value/adjoint/slot equalities) decided by the solver; traces validated: solver counterexamples replayed natively',
              'programs': len(recs), 'programs_fully_decided': len(proved), 'programs_partially_decided': [r['name'] for r in partial],
              'programs_vacuous': vac, 'programs_not_run': [{'program': r['name'], 'why': r['failed'][:300]} for r in failed],
              'paths': sum(r['paths'] for r in ok), 'infeasible_paths_pruned': sum(r['infeasible'] for r in ok),
              'claims': sum(r['claims'] for r in ok), 'undecided_claims': [u[:200] for r in ok for u in r['undecided']][:40],
              'unsupported': sorted({u for r in ok for u in r['unsupported']})[:20],
              'solver': {k: round(v, 3) if isinstance(v, float) else v for k, v in st.items()},
              'cvc5_cross_check': cross, 'functions_encoded': len(funcs), 'fastad_functions_encoded': len(fad), 'fastad_functions_sample': fad[:40],
              'ir_instructions_translated': sum(r['ninstr'] for r in ok), 'compile_s': round(ctime, 2),
              'candidates_not_reproduced': spurious, 'known_findings_hit': sorted(hit), 'bounds': getattr(mod, 'BOUNDS', '')},
          'assumptions': ['double arithmetic interpreted as exact real arithmetic (rounding, overflow and underflow are outside the claim)',
                          'inputs restricted to the mathematical domain where stated by the property',
                          'transcendental functions are exact symbols with the axioms of vp/alg.py (sign, range, functional equations, derivatives)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d programs, %d fully decided, %d partial, %d not run; %d paths, %d claims; %d queries %.1f s solver; %d candidates, %d reproduced; %.0f s' % (
        a.prop, len(recs), len(proved), len(partial), len(failed), sum(r['paths'] for r in ok), sum(r['claims'] for r in ok), st.get('queries', 0), st.get('time', 0.0),
        len(rep), sum(1 for r in results.values() if r['status'] == 'reproduced'), time.time() - t0))


if __name__ == '__main__':
    main()
