"""Discharging proof obligations: z3 in several configurations, then cvc5."""
import os
import re
import shutil
import subprocess
import tempfile
import time
import z3
from terms import *
import terms

CVC5 = 'cvc5'


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    return [g]


_sk = [0]


def skolemize(hyps, goal):
    """strip universal quantifiers and implications off the goal -> list of (hyps, goal)"""
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += skolemize(list(hyps), c)
        return out
    if z3.is_implies(goal):
        return skolemize(hyps + conjuncts(goal.arg(0)), goal.arg(1))
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = []
        for i in range(goal.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const('%s!sk%d' % (goal.var_name(i).split('!')[0], _sk[0]), goal.var_sort(i)))
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        mark = []
        for i in range(goal.num_patterns()):        # the goal's trigger terms stay visible
            for t in goal.pattern(i).children():
                t = z3.substitute_vars(t, *reversed(vs))
                if z3.is_app(t) and t.num_args():
                    mark.append(z3.Function('seen_' + re.sub(r'\W', '_', str(t.sort())), t.sort(), z3.BoolSort())(t))
        return skolemize(hyps + mark, body)
    if z3.is_not(goal):
        a = goal.arg(0)
        if z3.is_not(a):
            return skolemize(hyps, a.arg(0))
        if z3.is_and(a):
            return [(hyps + conjuncts(a), z3.BoolVal(False))]
        if z3.is_or(a):
            out = []
            for c in a.children():
                out += skolemize(list(hyps), z3.Not(c))
            return out
        if z3.is_quantifier(a) and a.is_exists():
            vs = []
            for i in range(a.num_vars()):
                _sk[0] += 1
                vs.append(z3.Const('%s!sk%d' % (a.var_name(i).split('!')[0], _sk[0]), a.var_sort(i)))
            return skolemize(hyps, z3.Not(z3.substitute_vars(a.body(), *reversed(vs))))
    if z3.is_or(goal):
        for i, c in enumerate(goal.children()):
            if z3.is_quantifier(c) and c.is_forall() or z3.is_and(c) and len(goal.children()) <= 3 or z3.is_implies(c):
                rest = [x for j, x in enumerate(goal.children()) if j != i]
                return skolemize(hyps + [z3.Not(x) for x in rest], c)
    return [(hyps, goal)]


def sk_hyp(h):
    """skolemise a top-level existential hypothesis"""
    if z3.is_quantifier(h) and h.is_exists():
        vs = []
        for i in range(h.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const('%s!sk%d' % (h.var_name(i).split('!')[0], _sk[0]), h.var_sort(i)))
        return conjuncts(z3.substitute_vars(h.body(), *reversed(vs)))
    return [h]


_apps = {}


def apps1(f):
    """the ground applications of uninterpreted functions in f, and the names of all such functions"""
    r = _apps.get(f.get_id())
    if r is not None:
        return r[1]
    seen, out, funs = set(), [], set()
    stack = [f]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            for p in range(t.num_patterns()):
                stack.append(t.pattern(p))
            continue
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                funs.add(n)
                if t.num_args() and not has_var(t):
                    out.append((n, t))
            stack.extend(t.children())
    _apps[f.get_id()] = (f, (out, funs))
    return out, funs


def apps(fs, names):
    """ground applications of the named functions, and the set of all function names"""
    seen, out, funs = set(), [], set()
    for f in fs:
        o, u = apps1(f)
        funs |= u
        for n, t in o:
            if n in names and t.get_id() not in seen:
                seen.add(t.get_id())
                out.append(t)
    return out, funs


_skh = {}


def sk_parts(h):
    """the conjuncts of an assumption, its existential quantifiers replaced"""
    r = _skh.get(h.get_id())
    if r is None:
        r = _skh[h.get_id()] = (h, [d for c in conjuncts(h) for d in sk_hyp(c)])
    return r[1]


_hv = {}


def has_var(t):
    i = t.get_id()
    if i in _hv:
        return _hv[i][1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = False
    else:
        r = any(has_var(c) for c in t.children())
    _hv[i] = (t, r)
    return r


def prepare(ver, ob, depth=2):
    """-> list of SMT-LIB texts, one per conjunct of the goal"""
    import vc
    recs = {n: L for n, L in ver.reg.logics.items() if L.rec and n in ver.logic_decl}
    hyps = []
    for h in ob.pc:
        hyps += sk_parts(h)
    unfold = ver.__dict__.setdefault('unfolded', {})
    out = []
    for hs, g in skolemize(hyps, ob.goal):
        fs = []
        seen = set()
        for h in hs + [z3.Not(g)]:
            for d in sk_parts(h):
                if d.get_id() not in seen and not z3.is_true(d):
                    seen.add(d.get_id())
                    fs.append(d)
        done = set()
        dd = depth
        frontier, funs = apps(fs, recs)
        for it in range(dd):
            new = []
            for t in frontier:
                if t.get_id() in done:
                    continue
                done.add(t.get_id())
                terms._keep.setdefault(('rec', t.get_id()), t)
                if t.get_id() not in unfold:
                    L = recs[t.decl().name()]
                    import spec
                    b = {p: a for (p, s), a in zip(L.params, t.children())}
                    d = ver.sev(spec.parse(L.body), vc.St(), bound=b)
                    unfold[t.get_id()] = (t, t == d)
                new.append(unfold[t.get_id()][1])
            fs += new
            frontier, f2 = apps(new, recs)
            funs |= f2
        _, funs = apps(fs, {})
        if getattr(ver, 'lemma_nl', 'uf') == 'real':
            fs = [multiply(f, {}) for f in fs]
        else:
            fs += terms.background(funs, getattr(getattr(ver, 'spec', None), 'nl', 'uf'))
        s = z3.Solver()
        for f in fs:
            s.add(f)
        out.append(s.to_smt2())
    return out


def multiply(t, memo):
    """products of integers as multiplication"""
    i = t.get_id()
    if i not in memo:
        if z3.is_quantifier(t):
            raise ValueError('quantifier in a lemma about products')
        ch = [multiply(c, memo) for c in t.children()]
        r = ch[0] * ch[1] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'imul' else t.decl()(*ch) if ch else t
        memo[i] = (t, r)
    return memo[i][1]


STRATS = {
    'z3-ematch': dict(auto_config=False, mbqi=False),
    'z3-ematch-rel': dict(auto_config=False, mbqi=False, rel=2),
    'z3-default': dict(),
    'z3-arith2': dict(auto_config=False, mbqi=False, arith=2),
    'z3-seed': dict(auto_config=False, mbqi=False, seed=7, cs=3),
}


def run_z3(text, strat, ms):
    c = STRATS[strat]
    s = z3.SolverFor('ALL') if False else z3.Solver()
    p = {'timeout': int(ms)}
    if 'auto_config' in c:
        p['auto_config'] = c['auto_config']
    if 'mbqi' in c:
        p['smt.mbqi'] = c['mbqi']
    if 'rel' in c:
        p['smt.relevancy'] = c['rel']
    if 'arith' in c:
        p['smt.arith.solver'] = c['arith']
    if 'seed' in c:
        p['smt.random_seed'] = c['seed']
    if 'cs' in c:
        p['smt.case_split'] = c['cs']
    s.set(**p)
    s.from_string(text)
    r = s.check()
    return str(r)


def run_cvc5(text, ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + text)
        fn = f.name
    try:
        p = subprocess.run([CVC5, '--tlimit=%d' % ms, '--full-saturate-quant' if False else '--e-matching', fn],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=ms / 1000 + 10)
        o = p.stdout.decode().strip().split('\n')[0]
        return o if o in ('sat', 'unsat', 'unknown') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(fn)


Z3OLD = '/usr/bin/z3' if os.path.exists('/usr/bin/z3') else shutil.which('z3')


class Session:
    """a z3 process answering one query after another, restarted after every query it does not prove"""
    def __init__(self, ms, seed):
        self.limit = ms/1000 + 5
        self.p = subprocess.Popen([Z3OLD, '-in', '-t:%d' % ms, 'auto_config=false', 'smt.mbqi=false', 'smt.random_seed=%d' % seed],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, text):
        import select
        try:
            self.p.stdin.write(b'(reset)\n' + text.encode() + b'\n(echo "end-of-query")\n')
            self.p.stdin.flush()
            t, got = time.time() + self.limit, b''
            while b'end-of-query' not in got:
                if not select.select([self.p.stdout], [], [], max(0, t - time.time()))[0]:
                    return 'unknown'
                c = os.read(self.p.stdout.fileno(), 65536)
                if not c:
                    return 'unknown'
                got += c
            o = got.decode().strip().split('\n')[0]
            return o if o in ('sat', 'unsat', 'unknown') else 'unknown'
        except OSError:
            return 'unknown'

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


_sessions = {}


def run_z3_cmd(text, ms, seed=0):
    key = os.getpid(), ms, seed
    if key not in _sessions:
        _sessions[key] = Session(ms, seed)
    r = _sessions[key].ask(text)
    if r != 'unsat':
        _sessions.pop(key).close()
    return r


import os as _os
PLAN = [('z3-4.8', 3000), ('z3-ematch', 4000), ('z3-default', 4000), ('cvc5', 6000), ('z3-4.8b', 15000), ('z3-arith2', 6000), ('z3-seed', 12000),
        ('z3-4.8', 20000), ('z3-default', 20000)]
if _os.environ.get('DV_FAST'):
    PLAN = PLAN[:int(_os.environ['DV_FAST'])]
PLAN_SHORT = [('z3-4.8', 2000), ('z3-ematch', 2000), ('z3-default', 2000)]


def discharge(texts, kind, plan=None):
    """-> (ok, backend, seconds, detail)"""
    t0 = time.time()
    backs = set()
    if kind == 'reach':
        for t in texts:
            if run_z3(t, 'z3-ematch', 1500) == 'unsat':
                return False, 'z3-ematch', time.time() - t0, 'assumptions contradictory'
        return True, 'vacuity', time.time() - t0, ''
    for j, t in enumerate(texts):
        ok = False
        last = ''
        for st, ms in (plan or PLAN):
            try:
                r = run_cvc5(t, ms) if st == 'cvc5' else run_z3_cmd(t, ms, 11 if st == 'z3-4.8b' else 0) if st.startswith('z3-4.8') else run_z3(t, st, ms)
            except z3.Z3Exception as e:
                r = 'error ' + str(e)[:200]
            if r == 'unsat':
                backs.add(st)
                ok = True
                break
            last = r
            if r == 'sat' and st == 'z3-default':
                break
        if not ok:
            return False, st, time.time() - t0, 'part %d of %d: %s' % (j + 1, len(texts), last)
    return True, '+'.join(sorted(backs)) or 'simplifier', time.time() - t0, ''
