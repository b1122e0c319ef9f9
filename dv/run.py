"""development runner: run.py LABEL... (functions by label or lemma:NAME)"""
import sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts'))
import front, pool
from contract import REG
import glob

def load():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')
    for f in sorted(glob.glob(d + '/*.py')):
        importlib.import_module(os.path.basename(f)[:-3])

def jobs_for(reg, pats):
    out = []
    for m, fn in reg.fns.items():
        if fn.mode in ('verify', 'collective') and any(fn.label == p or p == 'all' for p in pats):
            for cfg in fn.configs:
                want = dict(x.split('=') for x in os.environ.get('DV_CFG', '').split(',') if x)
                if any(str(cfg.get(k)) != v for k, v in want.items()):
                    continue
                out.append(('fn', m, cfg))
    for n, l in reg.lemmas.items():
        if any('lemma:' + n == p or p == 'all' or p == 'lemmas' for p in pats) and not getattr(l, 'assumed', False):
            out.append(('lemma', n))
    return out

if __name__ == '__main__':
    load()
    t0 = time.time()
    jobs = jobs_for(REG, sys.argv[1:])
    files = {REG.fns[j[1]].file for j in jobs if j[0] == 'fn'} | {'Utils.cpp', 'PrefixSum.cpp', 'MemoryPool.cpp', 'CSR.cpp'}
    dbg = {REG.fns[j[1]].file for j in jobs if j[0] == 'fn' and dict(j[2]).get('debug')}
    prog = front.Program(sorted(files), debug_files=sorted(dbg))
    print('parsed %.1fs, %d jobs' % (time.time() - t0, len(jobs)), flush=True)
    res, infos, errs = pool.run(prog, REG, jobs, verbose=True)
    from collections import Counter
    print(Counter((r.ok, r.backend) for r in res))
    print('obligations', len(res), 'failed', sum(not r.ok for r in res), 'errors', len(errs), 'time %.1f' % (time.time() - t0))
    print('generate %.0fs prepare %.0fs solve %.0fs' % (sum(i.get('gen', 0) for i in infos.values()), sum(i.get('prep', 0) for i in infos.values()), sum(r.secs for r in res)))
    if os.environ.get('DV_NAMES'):
        for r in res: print(r.name, r.loc if hasattr(r,'loc') else '', r.backend)
    if os.environ.get('DV_SLOW'):
        print(Counter((r.name, r.backend) for r in res if r.ok and r.backend not in ('z3-4.8', 'simplifier', 'vacuity')))
    for i in infos.values():
        if i.get('warn'): print(i['warn'])
    if os.environ.get('DV_DUMP'):
        for k, r in enumerate([r for r in res if not r.ok or os.environ.get('DV_KEEP') and os.environ['DV_KEEP'] in r.name]):
            fn = '/tmp/dv_%d_%s.smt2' % (k, r.name.replace('/', '_').replace(':', '_')[:80])
            open(fn, 'w').write('\n;----\n'.join(r.text or []))
            print(fn, r.ok, r.backend)
