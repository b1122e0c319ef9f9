#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]: decides one property on /repo's current source.

exit 0: every obligation generated from the current source was discharged.
exit 1: VIOLATION line; an obligation failed (and, where the replay search finds
one, an input on which the real code breaks the property)."""
import os
import sys
import time
import json
import random
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
T0 = time.time()


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import checks
    ck = checks.CHECKS[pid]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage={}, assumptions=[], wall_s=0.0, violations=0)
    failures, cov = [], {}
    try:
        failures, cov, assume = prove(ck, tier)
        ev['assumptions'] = assume
    except Exception as e:
        failures = [('verifier', str(type(e).__name__), '', str(e))]
        sys.stderr.write(traceback.format_exc())
        cov = dict(obligations=1, discharged=0, checker_cmd='check.py ' + pid, trusted_base=[])
    for k in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    bounded = None
    if not failures and tier == 'thorough' and ck.get('replay'):
        # validation of the trusted base on the real code: never counted as proved
        ok, text, n = replay(ck, seed, 240, validate=True)
        bounded = dict(harness=ck['replay'], cases=n, seconds=240 if ok else 0)
        if not ok:
            failures = [('replay-validation', ck['replay'], '', text[-400:])]
    cov['functions_under_contract'] = cov.get('functions_under_contract', [])
    if bounded:
        cov['bounded_validation_of_assumptions (not counted as proved)'] = bounded
    rc = 0
    if failures:
        rc = 1
        path, found = report(pid, ck, failures, seed)
        cov['failed'] = [dict(obligation=a, where=c, reason=d[:300]) for a, b, c, d in failures[:40]]
        line = 'VIOLATION property=%s replay=%s' % (pid, path)
        print(line if found else line + ' no-failing-input-found')
        ev['violations'] = 1
    ev['coverage'] = cov
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not failures:
        print('%s: %d obligations discharged, %d functions under contract, %.1fs' %
              (pid, cov['discharged'], len(cov['functions_under_contract']), ev['wall_s']))
    sys.stdout.flush()
    os._exit(rc)


def known(pid):
    fn = os.path.join(HERE, 'known', 'findings.txt')
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out


def prove(ck, tier):
    import checks
    import front
    import pool
    import solve
    from contract import REG
    from collections import Counter
    checks.load()
    bylabel = {}
    for m, fn in REG.fns.items():
        bylabel.setdefault(fn.label, []).append(fn)
    jobs, fns, lem = [], [], []
    for l in ck['fns']:
        if l not in bylabel:
            raise Exception('no contract %s' % l)
        for fn in bylabel[l]:
            fns.append(fn)
            for cfg in fn.quick if tier == 'quick' else fn.configs:
                jobs.append(('fn', fn.mangled, cfg))
    for l in ck.get('lemmas', []):
        jobs.append(('lemma', l))
        lem.append(l)
    files = sorted({fn.file for fn in fns} | {'Utils.cpp', 'PrefixSum.cpp', 'MemoryPool.cpp', 'CSR.cpp'})
    dbg = sorted({fn.file for fn in fns for cfg in fn.configs if cfg.get('debug')})
    prog = front.Program(files, debug_files=dbg)
    if tier == 'thorough':
        solve.PLAN = [(s, ms * 5) for s, ms in solve.PLAN]
    deadline = T0 + (650 if tier == 'quick' else 3000)
    res, infos, errs = pool.run(prog, REG, jobs, deadline=deadline, max_fail=20 if tier == 'quick' else 0)
    # lemmas used by the functions are part of the argument
    used = set()
    for i in infos.values():
        used |= set(i.get('lemmas', []))
    done = set(lem)
    while True:
        new = [l for l in sorted(used) if l not in done and not getattr(REG.lemmas[l], 'assumed', False)]
        if not new:
            break
        done |= set(new)
        lem += new
        r2, i2, e2 = pool.run(prog, REG, [('lemma', l) for l in new], deadline=deadline)
        res += r2
        errs += e2
        for i in i2.values():
            used |= set(i.get('lemmas', []))
    contracts_used, trusted, inlined, called = set(), set(), set(), set()
    for i in infos.values():
        contracts_used |= set(i.get('contracts', []))
        trusted |= set(i.get('trusted', []))
        inlined |= set(i.get('inlined', []))
    # a contract relied on must itself be verified by this check
    labels = {f.label: f.mode for f in REG.fns.values()}
    missing = [c for c in contracts_used if c not in ck['fns'] and labels.get(c) != 'assume']
    # contracts with mode 'assume' are stated assumptions of the check
    trusted |= set('assumed contract: ' + c for c in contracts_used if labels.get(c) == 'assume')
    failures = []
    for c in missing:
        if c not in ck.get('elsewhere', {}):
            failures.append(('%s/contract-not-verified-here' % c, c, '', 'driver configuration'))
    for j, e in errs:
        nm = 'time-limit' if j is None else (REG.fns[j[1]].label if j[0] == 'fn' else 'lemma:' + j[1])
        failures.append(('%s/verification-conditions' % nm, nm, '', e))
    for r in res:
        if not r.ok:
            failures.append((r.name, r.job[1], r.where, '%s: %s' % (r.backend, r.detail)))
    kinds = Counter(r.kind for r in res if r.kind != 'reach')
    back = Counter(r.backend for r in res if r.ok and r.kind != 'reach')
    obs = [r for r in res if r.kind != 'reach']
    per = Counter()
    for r in obs:
        per[r.name.split('/')[0]] += 1
    cov = dict(obligations=len(obs), discharged=sum(r.ok for r in obs),
               checker_cmd='python3-vt check.py (contracts in contracts/*.py over the clang AST of /repo; back ends below)',
               trusted_base=['clang 18 AST of /repo (-DNDEBUG -fopenmp), dv/*.py verification condition generator',
                             'z3 (python API) and cvc5 1.1.2'] + ['model of ' + t for t in sorted(trusted)],
               functions_under_contract=sorted({fn.label for fn in fns}),
               configurations=len([j for j in jobs if j[0] == 'fn']),
               configurations_left_to_the_thorough_tier=sum(len(fn.configs) - len(fn.quick) for fn in fns) if tier == 'quick' else 0,
               functions_verified_by_expansion_in_their_callers=sorted(inlined),
               lemmas_proved=sorted(lem),
               lemmas_definitional=sorted(l for l in used if getattr(REG.lemmas[l], 'assumed', False)),
               obligations_by_kind=dict(kinds), obligations_by_function=dict(per), discharged_by_back_end=dict(back),
               solver_seconds=round(sum(r.secs for r in res), 2), slowest=[dict(obligation=r.name, seconds=round(r.secs, 2), back_end=r.backend) for r in sorted(res, key=lambda r: -r.secs)[:5]],
               vacuity_guards=sum(1 for r in res if r.kind == 'reach'))
    assume = list(checks.GENERAL) + list(ck.get('assume', []))
    for c in missing:
        if c in ck.get('elsewhere', {}):
            assume.append('contract of %s is verified by check %s' % (c, ck['elsewhere'][c]))
    return failures, cov, assume


def report(pid, ck, failures, seed):
    os.makedirs(os.path.join(HERE, 'replay', 'out'), exist_ok=True)
    rel = 'replay/out/%s-%d.txt' % (pid, seed)
    path = os.path.join(HERE, rel)
    found, text, n = False, '(no replay harness)', 0
    if ck.get('replay'):
        left = max(30, 800 - (time.time() - T0))
        try:
            ok, text, n = replay(ck, seed, min(150, left / 2))
            found = not ok
        except Exception as e:
            text = 'replay search failed: %s' % e
    with open(path, 'w') as f:
        f.write('property %s: failed obligations\n' % pid)
        for a, b, c, d in failures[:60]:
            f.write('  %s  [%s]  %s\n' % (a, c, d[:1500]))
        f.write('\nreplay on the real code (%d cases tried): %s\n' % (n, 'an input that breaks the property' if found else 'no failing input found'))
        f.write(text[-20000:])
    for a, b, c, d in failures[:12]:
        print('failed obligation: %s [%s] %s' % (a, c, d[:200].replace('\n', ' ')))
    return rel, found


def replay(ck, seed, seconds, validate=False):
    import replaylib
    return replaylib.run(ck, seed, seconds, validate)


main()
