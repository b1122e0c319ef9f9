"""Parallel generation and discharge of obligations."""
import multiprocessing as mp
import hashlib
import os
import sys
import tempfile
import time
import traceback
import zlib
import queue as Q


class Result:
    def __init__(self, job, name, where, kind, ok, backend, secs, detail, text=None):
        self.job, self.name, self.where, self.kind = job, name, where, kind
        self.ok, self.backend, self.secs, self.detail = ok, backend, secs, detail
        self.text = text


def gen_job(prog, job, reg):
    """-> (list of (name, where, kind, texts), info); every optional array the code looks at is
    verified present and absent"""
    import vc
    try:
        return gen_one(prog, job, reg)
    except vc.NeedField as e:
        if len(job[2]) > 24:
            raise vc.Unsupported('too many optional arrays')
        r = [gen_job(prog, (job[0], job[1], tuple(dict(job[2]).items()) + ((str(e), h),)), reg) for h in (False, True)]
        return r[0][0] + r[1][0], {k: (v + r[1][1][k] if isinstance(v, float) else
                                       sorted(set(v) | set(r[1][1][k]))) for k, v in r[0][1].items()}


def gen_one(prog, job, reg):
    import vc
    import terms
    import solve
    terms._ctr[0] = 0       # the same obligation of two configurations gets the same text
    solve._sk[0] = 0
    for cache in (solve._skh, solve._apps, solve._hv):
        cache.clear()
    import front
    ver = vc.Verifier(prog.debug if job[0] == 'fn' and dict(job[2]).get('debug') else prog, reg)
    t0 = time.time()
    if job[0] == 'fn':
        fn = reg.fns[job[1]]
        ver.verify(fn, dict(job[2]))
    else:
        ver.lemma_obligations(reg.lemmas[job[1]])
    t1 = time.time()
    out, seen = [], set()
    names = {}
    for ob in ver.obs:
        import z3
        if ob.kind != 'reach' and z3.is_true(ob.goal):
            out.append((ob.name, ob.where, ob.kind, []))
            continue
        texts = solve.prepare(ver, ob)
        if not texts:
            out.append((ob.name, ob.where, ob.kind, []))
            continue
        out.append((ob.name, ob.where, ob.kind, texts))
    info = dict(gen=t1 - t0, prep=time.time() - t1, called=sorted(ver.called), inlined=sorted(str(x) for x in ver.inlined),
                contracts=sorted(ver.contracts_used), trusted=sorted(ver.trusted),
                lemmas=sorted(getattr(ver, 'lemmas_used', set())), warn=ver.warn)
    return out, info


def put_texts(d, texts):
    """store queries under their hashes, so that only the hashes travel between processes"""
    out = []
    for t in texts:
        h = hashlib.sha1(t.encode()).hexdigest()
        fn = os.path.join(d, h)
        if not os.path.exists(fn):
            tmp = '%s.%d' % (fn, os.getpid())
            with open(tmp, 'wb') as f:
                f.write(zlib.compress(t.encode(), 1))
            os.rename(tmp, fn)
        out.append(h)
    return tuple(out)


def get_texts(d, hs):
    return [zlib.decompress(open(os.path.join(d, h), 'rb').read()).decode() for h in hs]


def worker(prog, reg, inq, outq, stop, nfail, store):
    import solve
    import z3
    while True:
        try:
            t = inq.get(timeout=0.5)
        except Q.Empty:
            if stop.is_set():
                return
            continue
        if t is None:
            return
        if t[0] == 'gen':
            _, jid, job = t
            try:
                obs, info = gen_job(prog, job, reg)
                obs = [(n, w, k, put_texts(store, ts)) for n, w, k, ts in obs]
                outq.put(('gen', jid, obs, info, None))
            except Exception as e:
                outq.put(('gen', jid, [], {}, '%s: %s' % (type(e).__name__, e) if not os.environ.get('DV_TB')
                          else traceback.format_exc()))
        else:
            _, oid, texts, kind, plan = t
            try:
                r = solve.discharge(get_texts(store, texts), kind, solve.PLAN if nfail.value < 4 else solve.PLAN_SHORT)
                if not r[0]:
                    with nfail.get_lock():
                        nfail.value += 1
            except Exception as e:
                r = (False, 'error', 0.0, '%s: %s' % (type(e).__name__, e))
            outq.put(('sol', oid) + r)


def run(prog, reg, jobs, nproc=int(os.environ.get('DV_PROCS', '8')), verbose=False, deadline=None, on_result=None, max_fail=0):
    """jobs: list of ('fn', mangled, cfg) / ('lemma', name)"""
    with tempfile.TemporaryDirectory(prefix='spmp_queries_') as store:
        return run_in(store, prog, reg, jobs, nproc, verbose, deadline, on_result, max_fail)


def run_in(store, prog, reg, jobs, nproc, verbose, deadline, on_result, max_fail):
    enough = False
    import solve
    ctx = mp.get_context('fork')
    inq, outq = ctx.Queue(), ctx.Queue()
    stop = ctx.Event()
    nfail = ctx.Value('i', 0)
    ps = [ctx.Process(target=worker, args=(prog, reg, inq, outq, stop, nfail, store), daemon=True) for _ in range(nproc)]
    for p in ps:
        p.start()
    for i, j in enumerate(jobs):
        inq.put(('gen', i, j))
    pend = len(jobs)
    results, infos, errors = [], {}, []
    obs = {}
    nid = 0
    failed = 0
    t_end = deadline
    cache, dup, solved = {}, {}, {}
    while pend:
        try:
            m = outq.get(timeout=2)
        except Q.Empty:
            dead = [p for p in ps if not p.is_alive()]
            if dead:
                errors.append((None, 'a solver process ended unexpectedly'))
                break
            if t_end and time.time() > t_end:
                errors.append((None, 'time limit reached with %d tasks open' % pend))
                break
            continue
        pend -= 1
        if m[0] == 'gen':
            _, jid, lst, info, err = m
            infos[jid] = info
            if err:
                errors.append((jobs[jid], err))
                if verbose:
                    print('ERROR', jobs[jid], err, flush=True)
                continue
            for name, where, kind, texts in lst:
                if not texts and kind != 'reach':
                    results.append(Result(jobs[jid], name, where, kind, True, 'simplifier', 0.0, ''))
                    continue
                key = (texts, kind)
                same = cache.get(key)
                if same is not None:
                    if same in solved:
                        results.append(Result(jobs[jid], name, where, kind, *solved[same]))
                    else:
                        dup[same].append((jid, name, where, kind))      # being solved
                    continue
                cache[key] = nid
                dup[nid] = []
                obs[nid] = (jid, name, where, kind, texts)
                inq.put(('sol', nid, texts, kind, None))
                nid += 1
                pend += 1
        else:
            _, oid, ok, back, secs, detail = m
            jid, name, where, kind, texts = obs.pop(oid)
            if not ok:
                failed += 1
                if max_fail and failed >= max_fail:
                    enough = True
            r = Result(jobs[jid], name, where, kind, ok, back, secs, detail, get_texts(store, texts) if not ok or os.environ.get('DV_KEEP') else None)
            results.append(r)
            solved[oid] = (ok, back, 0.0, detail, r.text)
            for j2, n2, w2, k2 in dup.pop(oid):
                results.append(Result(jobs[j2], n2, w2, k2, *solved[oid]))
            if verbose and (not ok or secs > 3):
                print('%s %-60s %s %s %.1fs %s' % ('ok  ' if ok else 'FAIL', name, where, back, secs, detail), flush=True)
        if enough:      # the verdict cannot change any more
            break
        if t_end and time.time() > t_end:
            errors.append((None, 'time limit reached with %d tasks open' % pend))
            break
    stop.set()
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(2)
    inq.cancel_join_thread()
    outq.cancel_join_thread()
    return results, infos, errors
