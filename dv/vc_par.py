"""OpenMP regions, verified thread-modularly.

A region is run once, by a symbolic actor (a thread of a team of symbolic size,
or an iteration of a worksharing loop).  Between two barriers (a phase) every
actor may write only what it owns, and may read only what it owns or what no
other actor owns; ownership is an expression over the state at the start of
the phase and is proved disjoint.  At the barrier all actors' writes are joined
and the phase's postconditions, proved for the symbolic actor, are assumed for
all of them."""
import re
import z3
from terms import *
import terms
from spec import parse, SpecError
import vc
from contract import Phase, ParSpec


def inner(n):
    return n.get('inner', [])


def occurs(x, t):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.eq(x):
            return True
        stack.extend([u.body()] if z3.is_quantifier(u) else u.children())
    return False


class ParMixin:
    # ------------------------------------------------------------ names and publicity
    def visible(self, st):
        keys = set()
        x = st.names
        while x is not None:
            keys |= set(x.d.values())
            x = x.parent
        for k in st.env:
            if isinstance(k, tuple) and k[0] in ('f', 'cell', 'p'):
                keys.add(k)
        return keys

    def is_private(self, name, ctx):
        m = re.search(r'!(\d+)$', name)
        if not m:
            return name in ctx.privnames
        if name in ctx.public:
            return False
        v = int(m.group(1))
        if v <= ctx.start_ctr:
            return False
        for a, b in ctx.pubranges:
            if a < v <= b:
                return False
        return True

    def public_facts(self, pc, ctx):
        return [f for f in pc if not any(self.is_private(c, ctx) for c in vc.free_consts(f))]

    def new_ctx(self, st, spec, label):
        c = vc.ParCtx()
        c.spec = spec
        c.label = label
        c.outer = st.par
        c.start_ctr = terms._ctr[0]
        c.pubranges = []
        c.privnames = set()
        c.names = st.names.copy()
        c.this = st.this
        c.entry_env = dict(st.env)
        c.entry_mem = dict(st.mem)
        c.entry_extra = dict(st.extra)
        c.entry_pc = list(st.pc)
        c.entry_freed = st.freed
        c.shared = self.visible(st)
        c.privkeys = set()
        c.privok = set()
        c.actors = []
        c.serial = False
        c.solo = 0
        c.segwrites = False
        c.tainted = set()
        c.branch = 0
        c.newpub = []
        c.snap0 = None
        return c

    # ------------------------------------------------------------ clauses
    def clauses(self, n):
        t = self.pragma_text(n)
        out = {}
        for m in re.finditer(r'(\w+)\s*\(', t):
            nm = m.group(1)
            d, i = 1, m.end()
            while i < len(t) and d:
                d += t[i] == '('
                d -= t[i] == ')'
                i += 1
            if nm in ('private', 'firstprivate', 'lastprivate', 'shared', 'reduction', 'schedule', 'num_threads', 'if',
                      'collapse', 'default', 'copyin', 'proc_bind'):
                out.setdefault(nm, []).append(t[m.end():i - 1].strip())
        if re.search(r'\bnowait\b', t):
            out['nowait'] = ['']
        if re.search(r'\bordered\b', t):
            out['ordered'] = ['']
        for bad in ('lastprivate', 'copyin', 'ordered'):
            if bad in out:
                raise vc.Unsupported('OpenMP clause %s at %s' % (bad, self.where()))
        return out

    def pragma_text(self, n):
        t = self.tu.line_text(n)
        if 'omp' not in t:
            raise vc.Unsupported('pragma text not found at %s' % self.where())
        return re.sub(r'//.*', '', t)

    def body_of(self, n):
        x = n
        for _ in range(12):
            cs = [c for c in inner(x) if c.get('kind') in ('CapturedStmt', 'CapturedDecl')]
            if cs and x.get('kind') != 'CapturedDecl':      # (a CapturedDecl also lists the ones nested in its body)
                x = cs[0]
                continue
            for c in inner(x):
                k = c.get('kind', '')
                if k.endswith('Stmt') or k.endswith('Operator') or k.endswith('Expr') or k.endswith('Directive'):
                    if k == 'OMPCanonicalLoop':
                        x = c
                        break
                    return c
            else:
                raise vc.Unsupported('construct without a body at %s' % self.where())
        raise vc.Unsupported('construct body at %s' % self.where())

    def clause_names(self, cl, key):
        out = []
        for t in cl.get(key, []):
            out += [x.strip() for x in t.split(',') if x.strip()]
        return out

    def apply_private(self, st, ctx, cl):
        for nm in self.clause_names(cl, 'private'):
            k = st.names.get(nm)
            if k is None:
                raise vc.Unsupported('private variable %s' % nm)
            ctx.privkeys.add(k)
            d = self.tu.byid.get(k)
            st.env[k] = self.havoc_scalar(st, nm, vc.base_ty(vc.tyname(d)) if d else '')
        for nm in self.clause_names(cl, 'firstprivate'):
            k = st.names.get(nm)
            ctx.privkeys.add(k)

    # ------------------------------------------------------------ regions
    def x_OMPParallelDirective(self, n, sts):
        out = []
        line, file_ = n['_line'], n['_file']
        for s in sts:
            self.cur_line, self.cur_file = line, file_
            out.append(('n', self.region(n, s)))
        return out

    def par_spec(self, n, table, kind):
        for fr in reversed(self.frames):
            tab = fr.parno if kind == 'par' else fr.parforno
            k = (self.path, n['id'])
            if k in tab:
                i = tab[k]
                d = fr.spec.pars if kind == 'par' else fr.spec.parfors
                return d.get(i), i
        return None, '?'

    def region(self, n, s):
        cl = self.clauses(n)
        body = self.body_of(n)
        if s.par is not None and not s.par.solo:
            cond = cl.get('if', [''])[0].replace(' ', '')
            if cond == '!omp_in_parallel()':
                # inside a team: executed by the encountering thread alone
                inner_ = vc.ParCtx()
                inner_.tid, inner_.nt, inner_.outer = iv(0), iv(1), s.par
                inner_.serial = True
                inner_.branch = 0
                inner_.solo = 0
                s.par = inner_
                outs = self.exec(body, [s])
                fin = [x for k, x in outs if k == 'n']
                if len(fin) != len(outs):
                    raise vc.Unsupported('jump out of a parallel region')
                m = fin[0] if len(fin) == 1 else self.merge(fin)
                m.par = inner_.outer
                return m
            raise vc.Unsupported('nested parallel region at %s' % self.where())
        spec, i = self.par_spec(n, None, 'par')
        ctx = self.new_ctx(s, spec, 'par%s' % i)
        if s.par is not None:
            raise vc.Unsupported('parallel region inside single')
        if 'if' in cl and cl['if'][0].replace(' ', '') != '!omp_in_parallel()':
            raise vc.Unsupported('if clause at %s' % self.where())
        ctx.tid, ctx.nt = fresh('tid'), fresh('nt')
        if 'num_threads' in cl:
            v = self.sev(parse(cl['num_threads'][0]), s)
            ctx.public.add(ctx.nt.decl().name())
            s.assume(z3.Implies(v >= 1, ctx.nt <= v))
            s.assume(ctx.nt >= 1)
        else:
            ctx.public.add(ctx.nt.decl().name())
            s.assume(z3.And(ctx.nt >= 1, ctx.nt <= self.maxt))
        s.assume(z3.And(0 <= ctx.tid, ctx.tid < ctx.nt))
        ctx.actors = [('tid', ctx.tid, iv(0), ctx.nt)]
        ctx.entry_pc = list(s.pc[:-1])
        s.par = ctx
        s.names = s.names.copy()
        s.extra = dict(s.extra)
        s.extra['nt'] = ctx.nt
        ctx.entry_extra['nt'] = ctx.nt
        self.apply_private(s, ctx, cl)
        self.setup_reductions(s, ctx, cl)
        self.setup_flags(s, ctx)
        self.open_phase(s, ctx)
        outs = self.exec(body, [s])
        fin = [x for k, x in outs if k == 'n']
        if len(fin) != len(outs):
            raise vc.Unsupported('jump out of a parallel region')
        m = self.end_phase(fin, final=True)[0]
        return self.close_region(m, ctx)

    def begin_region(self, st, spec, spmd=False):
        """entry of a function that every thread of a team calls"""
        old = st.par
        st.par = None
        ctx = self.new_ctx(st, spec, 'team')
        ctx.outer = None
        ctx.tid, ctx.nt = old.tid, old.nt
        ctx.privnames = {'tid'}
        ctx.actors = [('tid', ctx.tid, iv(0), ctx.nt)]
        ctx.start_ctr = terms._ctr[0]
        st.par = ctx
        st.extra['nt'] = ctx.nt
        ctx.entry_extra['nt'] = ctx.nt
        for d in self.spec.params:
            if d[0] == 'cell' and not d[2]:
                ctx.privkeys.add(('cell', d[1]))
            if d[0] == 'arr' and len(d) > 6 and d[6]:
                pass
        for nm in getattr(self.spec, 'private_arrays', ()):
            p = st.env[st.names.get(nm)]
            ctx.entry_mem.pop(p.region, None)
        self.setup_flags(st, ctx)
        self.open_phase(st, ctx)

    def setup_reductions(self, st, ctx, cl):
        for t in cl.get('reduction', []):
            op, vs = [x.strip() for x in t.split(':')]
            for nm in [x.strip() for x in vs.split(',')]:
                k = st.names.get(nm)
                v0 = st.env[k]
                if op == '+':
                    ident = real(0) if z3.is_real(v0) else iv(0)
                elif op == 'max' and z3.is_int(v0):
                    ident = iv(vc.INT_MIN)
                elif op == 'min' and z3.is_int(v0):
                    ident = iv(vc.INT_MAX)
                elif op in ('&&', '||'):
                    ident = z3.BoolVal(op == '&&')
                else:
                    raise vc.Unsupported('reduction(%s:%s)' % (op, nm))
                ctx.reds[nm] = (op, k, v0)
                ctx.privkeys.add(k)
                ctx.privok.add(k)
                st.env[k] = ident

    def setup_flags(self, st, ctx):
        if ctx.spec is None:
            return
        for nm, (value, why) in ctx.spec.flags.items():
            k = st.names.get(nm)
            if k is None:
                raise vc.Unsupported('flag %s not found' % nm)
            v0 = st.env[k]
            F = fresh('final_' + nm, v0.sort())
            ctx.public.add(F.decl().name())
            val = z3.BoolVal(value) if isinstance(value, bool) else iv(value)
            ctx.flags[k] = (val, why, v0, nm)
            ctx.flagF[k] = F
            st.extra['final_' + nm] = F
            ctx.entry_extra['final_' + nm] = F
            fact = z3.Or(F == v0, F == val)
            st.assume(fact)
            ctx.entry_pc.append(fact)

    # ------------------------------------------------------------ phases
    def snap_state(self, st, ctx):
        s = vc.St()
        s.env = {k: v for k, v in st.env.items() if k in ctx.shared and k not in ctx.privkeys}
        s.mem = {r: v for r, v in st.mem.items() if r in ctx.entry_mem}
        s.names, s.this = ctx.names, ctx.this
        s.extra = dict(ctx.entry_extra)
        s.extra.update(ctx.exports)
        s.par = None
        return s

    def open_phase(self, st, ctx):
        ph = None
        if ctx.spec is not None and ctx.idx < len(ctx.spec.phases):
            ph = ctx.spec.phases[ctx.idx]
        if ph is None:
            ph = Phase('%s.phase%d' % (ctx.label, ctx.idx + 1))
        ctx.phase = ph
        ctx.idx += 1
        ctx.snap = self.snap_state(st, ctx)
        if ctx.snap0 is None:
            ctx.snap0 = ctx.snap
        ctx.snap.pc = list(st.pc)
        ctx.own, ctx.racy, ctx.owncell = {}, {}, {}
        ctx.reads_seg, ctx.wregs, ctx.readregs = [], set(), set()
        for ptr, k, cond in ph.owns:
            p = self.pev(ptr, ctx)
            if p.region is None:
                continue
            if p.region not in ctx.entry_mem:
                raise SpecError('ownership of a private block')
            ctx.own.setdefault(p.region, []).append((p.off, k, parse(cond)))
        for ptr, k, cond, val in ph.racy:
            p = self.pev(ptr, ctx)
            if p.region is None:
                continue
            ctx.racy.setdefault(p.region, []).append((p.off, k, parse(cond), parse(val)))
        for lv, cond in ph.owncells:
            key = self.cell_key(parse(lv), ctx)
            if key[0] == 'mem':
                ctx.own.setdefault(key[1], []).append((key[2], '__k', ('bin', '&&', ('bin', '==', ('id', '__k'), ('num', '0')), parse(cond))))
            else:
                ctx.owncell[key[1]] = parse(cond)
        # disjointness
        me2, rng2, ne = self.other(ctx)
        if ctx.own:
            for r, cls in ctx.own.items():
                k = fresh('k')
                goal = z3.Not(z3.And(rng2, ne, self.owned(ctx, r, k, None), self.owned(ctx, r, k, me2), 0 <= k, k < r.length))
                self.ob(st, goal, '%s/disjoint:%s' % (ph.label, r.name), 'ownership')
        for r in ctx.racy:
            k = fresh('k')
            for j, (c, v) in enumerate(self.raced(ctx, r, k)):
                goals = [z3.Not(z3.And(c, z3.Or(self.owned(ctx, r, k, None), z3.And(rng2, self.owned(ctx, r, k, me2))), 0 <= k, k < r.length))]
                goals += [z3.Implies(z3.And(c, c2), v == v2) for c2, v2 in self.raced(ctx, r, k)[:j]]
                self.ob(st, z3.And(*goals), '%s/disjoint:shared-%s' % (ph.label, r.name), 'ownership')
        for key, cond in ctx.owncell.items():
            goal = z3.Not(z3.And(rng2, ne, self.pcond(cond, ctx, None), self.pcond(cond, ctx, me2)))
            self.ob(st, goal, '%s/disjoint:%s' % (ph.label, key[-1]), 'ownership')

    def other(self, ctx):
        """a second actor, its range, and the fact that it is another one"""
        me2 = [fresh(nm + '_other') for nm, v, lo, hi in ctx.actors]
        rng, ne = [], []
        for (nm, v, lo, hi), w in zip(ctx.actors, me2):
            rng.append(z3.And(lo <= w, w < hi))
            ne.append(v != w)
        return me2, z3.And(*rng), z3.Or(*ne)

    def bnd(self, ctx, me, extra=None):
        b = dict(extra or {})
        for j, (nm, v, lo, hi) in enumerate(ctx.actors):
            b[nm] = v if me is None else me[j]
        return b

    def pev(self, e, ctx, me=None, st=None, bound=None, **kw):
        a = parse(e) if isinstance(e, str) else e
        s = st if st is not None else ctx.snap
        try:
            return self.sev(a, s, bound=self.bnd(ctx, me, bound), old=self.entry_of(ctx), pre=ctx.snap, **kw)
        except SpecError as x:
            raise SpecError('%s  [phase clause: %s]' % (x, e))

    def entry_of(self, ctx):
        return self.entry

    def pcond(self, e, ctx, me=None, st=None, bound=None):
        v = self.pev(e, ctx, me, st, bound)
        return vc.tobool_any(v)

    def cell_key(self, a, ctx):
        s = ctx.snap
        if a[0] == 'deref':
            p = self.sev(a[1], s)
            if isinstance(p, vc.CellPtr):
                return p.lv
            return ('mem', p.region, norm(p.off))
        if a[0] == 'idx':
            p = self.sev(a[1], s)
            return ('mem', p.region, norm(p.off + self.sev(a[2], s)))
        return ('var', self.slv_key(a, s))

    def owned(self, ctx, r, k, me):
        cls = ctx.own.get(r, [])
        if not cls:
            return z3.BoolVal(False)
        return z3.Or(*[self.pcond(c, ctx, me, bound={nm: norm(k - off)}) for off, nm, c in cls])

    def raced(self, ctx, r, k):
        """(condition, value) pairs"""
        out = []
        for off, nm, c, v in ctx.racy.get(r, []):
            b = {nm: norm(k - off)}
            out.append((self.pcond(c, ctx, None, bound=b), self.pev(v, ctx, None, bound=b)))
        return out

    # ------------------------------------------------------------ accesses
    def real_ctx(self, st):
        p = st.par
        while p is not None and p.serial:
            p = p.outer
        return p

    def par_access(self, st, r, i, write, val=None):
        ctx = self.real_ctx(st)
        if ctx is None or ctx.solo:
            return
        if r not in ctx.entry_mem:
            return
        if ctx.auto:
            ctx.reads.append((r, i, write, val))
            return
        self.seg_log(ctx, r, write)
        g = self.allowed(st, ctx, r, i, write, val)
        if g is not None:
            self.ob(st, g, '%s/%s:%s@%s' % (ctx.phase.label, 'write-owned' if write else 'read-stable', r.name, self.cur_line), 'ownership')

    def seg_log(self, ctx, r, write):
        (ctx.wregs if write else ctx.readregs).add(r)
        if r in ctx.forbidden and not self.mute:
            ctx.tainted.add(r)

    def allowed(self, st, ctx, r, i, write, val):
        if r in ctx.forbidden:
            return z3.BoolVal(False)
        if write:
            alts = [self.owned(ctx, r, i, None)]
            if val is not None:
                for c, v in self.raced(ctx, r, i):
                    alts.append(z3.And(c, val == v))
            return z3.Or(*alts) if len(alts) > 1 else alts[0]
        if r not in ctx.own and r not in ctx.racy:
            return None
        alts = [self.owned(ctx, r, i, None)]
        me2, rng2, ne = self.other(ctx)
        stable = [z3.Not(z3.And(rng2, ne, self.owned(ctx, r, i, me2)))]
        for c, v in self.raced(ctx, r, i):
            cur = sel(st.mem[r], i)
            stable.append(z3.Or(z3.Not(c), cur == v))
        return z3.Or(alts[0], z3.And(*stable))

    def par_bulk(self, st, r, cond, write):
        ctx = self.real_ctx(st)
        if ctx is None or ctx.solo or r not in ctx.entry_mem:
            return
        if ctx.auto:
            raise vc.Unsupported('block operation in a parallel loop without a contract at %s' % self.where())
        self.seg_log(ctx, r, write)
        k = fresh('k')
        g = self.allowed(st, ctx, r, k, write, None)
        if g is not None:
            self.ob(st, z3.Implies(cond(k), g), '%s/%s:%s@%s' % (ctx.phase.label, 'write-owned' if write else 'read-stable', r.name, self.cur_line), 'ownership')

    def is_shared(self, ctx, key):
        return key in ctx.shared and key not in ctx.privkeys

    def par_read_var(self, st, key):
        ctx = self.real_ctx(st)
        if ctx is None or ctx.solo:
            return None
        if not self.is_shared(ctx, key):
            return None
        if key in ctx.flags:
            val, why, v0, nm = ctx.flags[key]
            F = ctx.flagF[key]
            rv = fresh('seen_' + nm, v0.sort())
            st.assume(z3.Or(rv == v0, rv == val))
            st.assume(z3.Implies(rv == val, z3.Or(F == val, val == v0)))
            st.assume(z3.Implies(st.env[key] == val, rv == val))
            return rv
        if key in ctx.owncell:
            me2, rng2, ne = self.other(ctx)
            c = ctx.owncell[key]
            self.ob(st, z3.Or(self.pcond(c, ctx, None), z3.Not(z3.And(rng2, ne, self.pcond(c, ctx, me2)))),
                    '%s/read-stable:%s@%s' % (ctx.phase.label, key[-1] if isinstance(key, tuple) else self.var_name(key), self.cur_line), 'ownership')
        return None

    def var_name(self, key):
        d = self.tu.byid.get(key) if not isinstance(key, tuple) else None
        return d.get('name', '?') if d else str(key)

    def par_write_var(self, st, key, v):
        ctx = self.real_ctx(st)
        if ctx is None or ctx.solo:
            return False
        if not self.is_shared(ctx, key):
            return False
        nm = self.var_name(key)
        if key in ctx.flags and not ctx.auto:
            val, why, v0, fl = ctx.flags[key]
            F = ctx.flagF[key]
            self.ob(st, v == val, '%s/flag-value:%s@%s' % (ctx.phase.label, fl, self.cur_line), 'ownership')
            self.ob(st, self.pcond(why, ctx, None, st=ctx.snap0), '%s/flag-justified:%s@%s' % (ctx.phase.label, fl, self.cur_line), 'ownership')
            st.assume(F == val)
            st.env[key] = v
            self.logw(key, st)
            return True
        if key in ctx.owncell:
            self.ob(st, self.pcond(ctx.owncell[key], ctx, None), '%s/write-owned:%s@%s' % (ctx.phase.label, nm, self.cur_line), 'ownership')
            return False
        self.ob(st, z3.BoolVal(False), '%s/write-shared:%s@%s' % (ctx.phase.label if not ctx.auto else ctx.label, nm, self.cur_line), 'ownership')
        return False

    # ------------------------------------------------------------ end of a phase
    def end_phase(self, states, final=False):
        if not states:
            raise vc.Unsupported('no thread reaches the barrier')
        m = states[0] if len(states) == 1 else self.merge(states)
        ctx = m.par
        if ctx.serial:
            return [m]
        if ctx.branch:
            raise vc.Unsupported('barrier under a condition at %s' % self.where())
        ph = ctx.phase
        before = len(m.pc)
        self.do_hints(ph.hints['end'], m, ph.label + ':end', pre=ctx.snap)
        concluded = list(m.pc[before:])
        # exports
        for nm, e, sort in ph.exports:
            v = self.sev(parse(e), m, old=self.entry, pre=ctx.snap)
            E = fresh('E_' + nm, z3.ArraySort(I, SORT[sort]))
            ctx.public.add(E.decl().name())
            m.assume(z3.Select(E, ctx.actors[0][1]) == v)
            ctx.exports[nm] = E
            m.extra[nm] = E
            ctx.entry_extra[nm] = E
        # per-thread reduction values become visible at the end of the region
        if final:
            for nm, (op, key, v0) in ctx.reds.items():
                v = m.env[key]
                E = fresh('RV_' + nm, z3.ArraySort(I, v.sort()))
                ctx.public.add(E.decl().name())
                m.assume(z3.Select(E, ctx.actors[0][1]) == v)
                en = (ctx.spec.reds.get(nm) if ctx.spec else None) or 'red_' + nm
                ctx.exports[en] = E
                m.extra[en] = E
                ctx.entry_extra[en] = E
                ctx.redE = getattr(ctx, 'redE', {})
                ctx.redE[nm] = E
        # join
        facts, frames = [], []
        joint = m.copy()
        for r in list(ctx.snap.mem):
            if isinstance(r, tuple):
                continue
            S = ctx.snap.mem[r]
            A = m.mem[r]
            if r not in ctx.own and r not in ctx.racy:
                if not A.eq(S) and not self.mute:
                    # written without permission: the obligation has been recorded
                    J = fresh('J_' + r.name, r.asort)
                    ctx.public.add(J.decl().name())
                    joint.mem[r] = J
                continue
            if A.eq(S) and not self.may_write(ctx, r):
                continue
            J = fresh('J_' + r.name, r.asort)
            ctx.public.add(J.decl().name())
            k = fresh('k')
            own_me = self.owned(ctx, r, k, None)
            if r in ctx.own:
                facts.append(z3.ForAll([k], z3.Implies(own_me, z3.Select(J, k) == z3.Select(A, k)),
                                       patterns=[z3.Select(J, k)]))
                if z3.is_app(A) and A.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    facts.append(z3.ForAll([k], z3.Implies(own_me, z3.Select(J, k) == z3.Select(A, k)),
                                           patterns=[z3.Select(A, k)]))
            sks = []
            for nm, v, lo, hi in ctx.actors:
                f = z3.Function('o_%s_%d' % (r.name, terms._ctr[0]) + '!%d' % self.bump(), I, I)
                ctx.public.add(f.name())
                sks.append(f)
            someone = z3.BoolVal(False)
            if r in ctx.own:
                me2 = [f(k) for f in sks]
                rng = [z3.And(lo <= w, w < hi) for (nm, v, lo, hi), w in zip(ctx.actors, me2)]
                someone = z3.And(*(rng + [self.owned(ctx, r, k, me2)]))
            rc = [z3.BoolVal(False)]
            for c, v in self.raced(ctx, r, k):
                rc.append(z3.And(c, z3.Select(J, k) == v))
                facts.append(z3.ForAll([k], z3.Implies(z3.And(c, z3.Select(A, k) == v), z3.Select(J, k) == v),
                                       patterns=[z3.Select(J, k)]))
            (facts if r in ctx.racy else frames).append(z3.ForAll([k], z3.Or(z3.Select(J, k) == z3.Select(S, k), someone, *rc[1:]),
                                                                  patterns=[z3.Select(J, k)]))
            joint.mem[r] = J
        for key, cond in ctx.owncell.items():
            a, s0 = m.env.get(key), ctx.snap.env.get(key)
            if not isinstance(a, z3.ExprRef):
                continue
            J = fresh('J_cell', a.sort())
            ctx.public.add(J.decl().name())
            facts.append(z3.Implies(self.pcond(cond, ctx, None), J == a))
            me2, rng2, ne = self.other(ctx)
            sk = []
            for nm, v, lo, hi in ctx.actors:
                w = fresh('o_cell')
                ctx.public.add(w.decl().name())
                sk.append(w)
            rng = z3.And(*[z3.And(lo <= w, w < hi) for (nm, v, lo, hi), w in zip(ctx.actors, sk)])
            facts.append(z3.Or(J == s0, z3.And(rng, self.pcond(cond, ctx, sk))))
            joint.env[key] = J
        for f in facts:
            joint.assume(f)
        lean = joint.copy()      # who else may have written what does not matter for this actor's part
        for f in frames:
            joint.assume(f)
        # postconditions, proved for this actor and assumed for all
        js = self.snap_state(joint, ctx)
        new = []
        for j, q in enumerate(ph.posts):
            g = self.pcond(q, ctx, None, st=js)
            self.ob(joint, g, '%s/post%d' % (ph.label, j + 1), 'phase')
            vs = [fresh(nm + '_all') for nm, v, lo, hi in ctx.actors]
            rng = z3.And(*[z3.And(lo <= w, w < hi) for (nm, v, lo, hi), w in zip(ctx.actors, vs)])
            new.append(self.for_actors(vs, rng, self.pcond(q, ctx, vs, st=js)))
            joint_instance = g
            new.append(g)
        for j, (var, part, lo, hi, body, key, trig) in enumerate(ph.covers):
            ts = [a[1] for a in ctx.actors]
            los, his = [a[2] for a in ctx.actors], [a[3] for a in ctx.actors]
            ev = lambda e, me=ts, **kw: self.pev(e, ctx, me, st=js, **kw)
            a, b = ev(part), ev(part, ts[:-1] + [ts[-1] + 1])
            v = fresh(var)
            kv = v if key is None else ev(key, bound={var: v})
            bd = self.pcond(body, ctx, ts, st=js, bound={var: v})
            for x in (kv, bd, ev(lo), ev(hi)):
                if any(occurs(t, x) for t in ts):
                    raise SpecError('%s/cover%d speaks of the thread' % (ph.label, j + 1))
            g = z3.Implies(z3.And(a <= kv, kv < b), bd)
            if trig:
                g = z3.ForAll([v], g, patterns=[ev(trig, bound={var: v})])
            if j in ph.local:
                ms = self.snap_state(m, ctx)
                em = lambda e, me=ts, **kw: self.pev(e, ctx, me, st=ms, **kw)
                gm = z3.Implies(z3.And(a <= kv, kv < b), self.pcond(body, ctx, ts, st=ms, bound={var: v}))
                if trig:
                    gm = z3.ForAll([v], gm, patterns=[em(trig, bound={var: v})])
                small = lean.copy()
                small.pc = list(ctx.snap.pc)
                for t, l, h in zip(ts, los, his):
                    small.assume(z3.And(l <= t, t < h))
                here = m
                if concluded:       # what the hints at the end of the phase have established suffices
                    here = m.copy()
                    here.pc = small.pc + concluded
                self.ob(here, gm, '%s/cover%d-here' % (ph.label, j + 1), 'phase')
                for f in facts + [gm]:
                    small.assume(f)
                self.ob(small, g, '%s/cover%d' % (ph.label, j + 1), 'phase')
            else:
                self.ob(lean, g, '%s/cover%d' % (ph.label, j + 1), 'phase')
            lo_, hi_ = ev(lo), ev(hi)
            first, last = ev(part, los), ev(part, his[:1] + los[1:])
            complete = z3.Or(lo_ >= hi_, z3.And(first <= lo_, hi_ <= last))
            if len(ts) == 2:
                # the parts of one outer iteration end where those of the next begin
                o = fresh('outer')
                complete = z3.And(complete, z3.Implies(z3.And(los[0] <= o, o < his[0]),
                                                       z3.And(los[1] <= his[1], ev(part, [o, his[1]]) == ev(part, [o + 1, los[1]]))))
            elif len(ts) > 2:
                raise vc.Unsupported('cover of a loop collapsed more than twice')
            self.ob(joint, complete, '%s/cover%d-complete' % (ph.label, j + 1), 'phase')
            w = fresh(var)
            kw = w if key is None else ev(key, bound={var: w})
            ps = [ev(trig, bound={var: w})] if trig else []
            new.append(z3.ForAll([w], z3.Implies(z3.And(lo_ <= kw, kw < hi_), self.pcond(body, ctx, ts, st=js, bound={var: w})), patterns=ps))
        for f in new:
            joint.assume(f)
        joint.names = m.names
        self.do_hints(ph.hints['after'], joint, ph.label + ':after', pre=ctx.snap)
        ctx.forbidden = set()
        joint.par = ctx
        if not final:
            self.open_phase(joint, ctx)
        return [joint]

    def bump(self):
        terms._ctr[0] += 1
        return terms._ctr[0]

    def for_actors(self, vs, rng, g):
        """g for all actors; one quantifier where g is itself quantified over terms of every actor"""
        if len(vs) > 1 and z3.is_quantifier(g) and g.is_forall() and g.num_patterns():
            ws = [z3.Const(fresh(g.var_name(i)).decl().name(), g.var_sort(i)) for i in range(g.num_vars())]
            sub = list(reversed(ws))
            pats = [[z3.substitute_vars(g.pattern(i).arg(j), *sub) for j in range(g.pattern(i).num_args())] for i in range(g.num_patterns())]
            if all(any(occurs(v, p) for p in ps) for ps in pats for v in vs):
                return z3.ForAll(list(vs) + ws, z3.Implies(rng, z3.substitute_vars(g.body(), *sub)),
                                 patterns=[z3.MultiPattern(*ps) if len(ps) > 1 else ps[0] for ps in pats])
        return z3.ForAll(vs, z3.Implies(rng, g))

    def may_write(self, ctx, r):
        return r in ctx.own or r in ctx.racy

    def close_region(self, m, ctx):
        res = vc.St()
        res.env = dict(ctx.entry_env)
        for k in ctx.entry_env:
            if self.is_shared(ctx, k) and k in m.env:
                res.env[k] = m.env[k]
        for k, F in ctx.flagF.items():
            res.env[k] = F
        res.mem = {r: m.mem[r] for r in ctx.entry_mem if r in m.mem}
        res.pc = self.public_facts(m.pc, ctx)
        for k, F in ctx.flagF.items():
            val, why, v0, nm = ctx.flags[k]
            snap = ctx.snap
            res.pc.append(z3.Or(F == v0, z3.And(F == val, self.pcond(why, ctx, None, st=ctx.snap0))))
        for nm, (op, key, v0) in ctx.reds.items():
            E = ctx.redE[nm]
            t = fresh('t')
            if op == '+':
                f = self.reg.logics['asum' if z3.is_int(v0) else 'rsum']
                d = self.logic(f)
                tot = v0 + d(E, iv(0), ctx.nt)
                res.env[key] = tot
                bt = self.key_type(key)
                if bt in vc.RANGE:
                    lo, hi = vc.RANGE[bt]
                    self.ob(res, z3.And(lo <= tot, tot <= hi), 'no-overflow:reduction:%s' % nm, 'safety')
            elif op in ('max', 'min'):
                w = fresh(nm + '_red')
                tt = fresh('t_' + nm)
                le = (lambda a, b: a <= b) if op == 'max' else (lambda a, b: a >= b)
                res.pc.append(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < ctx.nt), le(z3.Select(E, t), w)), patterns=[z3.Select(E, t)]))
                res.pc.append(le(v0, w))
                res.pc.append(z3.Or(w == v0, z3.And(0 <= tt, tt < ctx.nt, w == z3.Select(E, tt))))
                res.env[key] = w
                m.extra['who_' + nm] = tt
                ctx.exports['who_' + nm] = tt
            else:
                raise vc.Unsupported('reduction ' + op)
        res.names, res.this, res.par = ctx.names.copy(), ctx.this, ctx.outer
        res.freed = ctx.entry_freed | frozenset(r for r in m.freed if r in ctx.entry_mem)
        res.extra = dict(ctx.entry_extra)
        res.extra.update(ctx.exports)
        res.looped = m.looped + 1
        res.ret = None
        return res

    def logic(self, L):
        d = self.logic_decl.get(L.name)
        if d is None:
            d = z3.Function(L.name, *([SORT[s] for _, s in L.params] + [SORT[L.ret]]))
            self.logic_decl[L.name] = d
        return d

    # ------------------------------------------------------------ statements inside regions
    def x_OMPBarrierDirective(self, n, sts):
        if not sts:
            return []
        if sts[0].par is None:
            return [('n', s) for s in sts]
        if sts[0].par.serial:
            return [('n', s) for s in sts]
        return [('n', s) for s in self.end_phase(sts)]

    def x_OMPMasterDirective(self, n, sts):
        body = self.body_of(n)
        out = []
        for s in sts:
            t = s.par.tid if s.par is not None else iv(0)
            c = z3.simplify(t == 0)
            if z3.is_true(c):
                out += self.exec(body, [s])
                continue
            s2 = s.copy()
            n0 = len(s.pc)
            s.pc.append(c)
            s2.pc.append(z3.Not(c))
            s.par.branch += 1
            o1 = self.exec(body, [s])
            s.par.branch -= 1
            n1 = [x for k, x in o1 if k == 'n']
            if len(n1) != len(o1):
                raise vc.Unsupported('jump out of master')
            if len(n1) == 1 and n1[0].looped == s2.looped:
                out.append(('n', self.merge2(n1[0], s2, c, n0)))
            else:
                out += [('n', x) for x in n1] + [('n', s2)]
        return out

    x_OMPMaskedDirective = x_OMPMasterDirective

    def x_OMPSingleDirective(self, n, sts):
        if not sts:
            return []
        if sts[0].par is None or sts[0].par.serial:
            return self.exec(self.body_of(n), sts)
        cl = self.clauses(n)
        if 'nowait' in cl:
            raise vc.Unsupported('single nowait')
        ctx = sts[0].par
        self.quiet_segment(sts, ctx, 'single')
        rd = set(ctx.readregs)
        m = self.end_phase(sts)[0]
        # run by one unknown thread, all others wait at its end
        thread = m.copy()
        s = m
        pubpc = self.public_facts(s.pc, ctx)
        s.pc = list(pubpc)
        for k in list(s.env):
            if not self.is_shared(ctx, k):
                v = s.env[k]
                if isinstance(v, z3.ExprRef) and not any(self.is_private(c, ctx) for c in vc.free_consts(v)):
                    continue        # the same in every thread
                self.havoc_key(s, k, 'single')
        c0 = terms._ctr[0]
        ctx.solo += 1
        log0, self.write_log = self.write_log, set()
        who = fresh('single_tid')
        tid0 = ctx.tid
        ctx.tid = who
        s.assume(z3.And(0 <= who, who < ctx.nt))
        outs = self.exec(self.body_of(n), [s])
        ctx.tid = tid0
        wl = self.write_log
        self.write_log = log0
        if log0 is not None:
            log0 |= wl
        ctx.solo -= 1
        fin = [x for k, x in outs if k == 'n']
        if len(fin) != len(outs):
            raise vc.Unsupported('jump out of single')
        x = fin[0] if len(fin) == 1 else self.merge(fin)
        ctx.pubranges.append((c0, terms._ctr[0]))
        for r in wl:
            if isinstance(r, vc.Region) and r in rd:
                raise vc.Unsupported('single writes %s, which a thread may still be reading' % r.name)
        for k, v in x.env.items():
            if self.is_shared(ctx, k):
                thread.env[k] = v
        for r, v in x.mem.items():
            thread.mem[r] = v
            if r not in ctx.entry_mem:
                ctx.entry_mem[r] = v
        seen = set(f.get_id() for f in thread.pc)
        for f in x.pc:
            if f.get_id() not in seen:
                thread.pc.append(f)
        thread.freed = thread.freed | x.freed
        thread.looped = max(thread.looped, x.looped) + 1
        self.reopen(thread, ctx)
        return [('n', thread)]

    def reopen(self, st, ctx):
        """after an implicit barrier inside a construct: the state is joint already"""
        ctx.idx -= 1
        n = len(self.obs)
        self.open_phase(st, ctx)

    def quiet_segment(self, sts, ctx, what):
        if ctx.wregs and not self.mute:
            for r in ctx.wregs:
                if r in ctx.racy and r not in ctx.own:
                    continue
                self.ob(sts[0], z3.BoolVal(False), '%s/%s-after-write:%s@%s' % (ctx.phase.label, what, r.name, self.cur_line), 'ownership')

    def x_OMPCriticalDirective(self, n, sts):
        raise vc.Unsupported('critical section')

    def x_OMPAtomicDirective(self, n, sts):
        raise vc.Unsupported('atomic')

    def x_OMPFlushDirective(self, n, sts):
        return [('n', s) for s in sts]

    # ------------------------------------------------------------ worksharing loops
    def x_OMPParallelForDirective(self, n, sts):
        out = []
        line, file_ = n['_line'], n['_file']
        for s in sts:
            self.cur_line, self.cur_file = line, file_
            if s.par is not None and not s.par.solo:
                raise vc.Unsupported('nested parallel loop at %s' % self.where())
            out.append(('n', self.wsloop(n, s, True)))
        return out

    def x_OMPForDirective(self, n, sts):
        if not sts:
            return []
        line, file_ = n['_line'], n['_file']
        ctx = sts[0].par
        if ctx is None or ctx.serial:
            raise vc.Unsupported('orphaned worksharing loop at %s' % self.where())
        cl = self.clauses(n)
        if 'nowait' in cl:
            raise vc.Unsupported('nowait at %s' % self.where())
        self.quiet_segment(sts, ctx, 'worksharing')
        rd = set(ctx.readregs)
        m = self.end_phase(sts)[0]
        self.cur_line, self.cur_file = line, file_
        priv_pc = list(m.pc)
        res = self.wsloop(n, m, False, forbidden_writes=rd)
        self.reopen(res, ctx)
        return [('n', res)]

    def loop_header(self, f, s):
        """(declaration or key, init, hi, body) of a canonical loop, step +1"""
        ch = inner(f)
        init, cond, inc, body = ch[0], ch[2], ch[3], ch[4]
        if init.get('kind') == 'DeclStmt':
            d = inner(init)[0]
            key, name = d['id'], d['name']
            e0 = [x for x in inner(d) if x.get('valueCategory')][0]
            declared = True
        elif init.get('kind') == 'BinaryOperator' and init['opcode'] == '=':
            v = inner(init)[0]
            key, name = v['referencedDecl']['id'], v['referencedDecl']['name']
            e0 = inner(init)[1]
            declared = False
        else:
            raise vc.Unsupported('loop header at %s' % self.where())
        lo = self.ev(e0, s)
        op = cond.get('opcode')
        l, r = inner(cond)

        def isv(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                x = inner(x)[0]
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == key
        up = True
        if inc.get('kind') == 'UnaryOperator' and inc['opcode'] == '++' and isv(inner(inc)[0]):
            pass
        elif inc.get('kind') == 'UnaryOperator' and inc['opcode'] == '--' and isv(inner(inc)[0]):
            up = False
        else:
            raise vc.Unsupported('loop increment at %s' % self.where())
        if not isv(l):
            l, r = r, l
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
        b = self.ev(r, s)
        if up:
            hi = b if op == '<' else norm(b + 1) if op == '<=' else None
            if hi is None:
                raise vc.Unsupported('loop condition at %s' % self.where())
            return key, name, lo, hi, body, declared
        start = lo
        lo2 = norm(b + 1) if op == '>' else b if op == '>=' else None
        if lo2 is None:
            raise vc.Unsupported('loop condition at %s' % self.where())
        return key, name, lo2, norm(start + 1), body, declared

    def red_form_ok(self, body, key, op):
        """every mention of the reduction variable is an update by its operator"""
        ok = [True]

        def isv(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
                x = inner(x)[0]
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == key

        def mentions(x):
            return isv(x) or any(mentions(c) for c in inner(x))

        def strip(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
                x = inner(x)[0]
            return x

        def go(x):
            k = x.get('kind')
            if k == 'CompoundAssignOperator' and isv(inner(x)[0]):
                if not (op == '+' and x['opcode'] in ('+=', '-=') and not mentions(inner(x)[1])):
                    ok[0] = False
                return
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--') and isv(inner(x)[0]):
                if op != '+':
                    ok[0] = False
                return
            if k == 'BinaryOperator' and x.get('opcode') == '=' and isv(inner(x)[0]):
                r = strip(inner(x)[1])
                if op == '+' and r.get('kind') == 'BinaryOperator' and r['opcode'] == '+':
                    a, b = inner(r)
                    if (isv(a) and not mentions(b)) or (isv(b) and not mentions(a)):
                        return
                if op in ('max', 'min') and r.get('kind') == 'CallExpr':
                    d, _ = self.callee_decl(r)
                    a = inner(r)[1:]
                    if d and d.get('name') == op and len(a) == 2:
                        if (isv(a[0]) and not mentions(a[1])) or (isv(a[1]) and not mentions(a[0])):
                            return
                ok[0] = False
                return
            if k == 'IfStmt' and op in ('max', 'min'):
                c = strip(inner(x)[0])
                th = inner(x)[1]
                if th.get('kind') == 'CompoundStmt' and len(inner(th)) == 1:
                    th = inner(th)[0]
                if mentions(c) and c.get('kind') == 'BinaryOperator' and c['opcode'] in ('<', '>', '<=', '>=') and len(inner(x)) == 2 \
                        and th.get('kind') == 'BinaryOperator' and th.get('opcode') == '=' and isv(inner(th)[0]):
                    a, b = inner(c)
                    o = c['opcode']
                    if isv(b):
                        a, b = b, a
                        o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[o]
                    want = ('<', '<=') if op == 'max' else ('>', '>=')
                    if isv(a) and o in want and not mentions(b) and self.same_tree(strip(b), strip(inner(th)[1])):
                        return
                    ok[0] = False
                    return
            if isv(x):
                ok[0] = False
                return
            for c in inner(x):
                go(c)
        go(body)
        return ok[0]

    def same_tree(self, a, b):
        ka = (a.get('kind'), a.get('opcode'), a.get('value'), (a.get('referencedDecl') or {}).get('id'))
        kb = (b.get('kind'), b.get('opcode'), b.get('value'), (b.get('referencedDecl') or {}).get('id'))
        ca, cb = inner(a), inner(b)
        return ka == kb and len(ca) == len(cb) and all(self.same_tree(x, y) for x, y in zip(ca, cb))

    def wsloop(self, n, s, parallel, forbidden_writes=()):
        cl = self.clauses(n)
        spec, idx = self.par_spec(n, None, 'parfor')
        label = 'parfor%s' % idx
        f = self.omp_for_loop(n)
        line, file_ = f.get('_line', self.cur_line), f.get('_file', self.cur_file)
        outer_names = s.names
        s.names = s.names.copy()
        depth = int(cl.get('collapse', ['1'])[0])
        if 'reduction' in cl:
            return self.red_loop(n, s, cl, f, spec, label, outer_names)
        outer_ctx = s.par
        ctx = self.new_ctx(s, spec, label)
        if not parallel:
            # thread-private variables of the region are not shared among iterations
            for k in list(ctx.shared):
                if not self.is_shared(outer_ctx, k):
                    ctx.shared.discard(k)
            for r in list(ctx.entry_mem):
                if r not in outer_ctx.entry_mem:
                    del ctx.entry_mem[r]
            ctx.exports = dict(outer_ctx.exports)
            ctx.entry_extra.update(outer_ctx.entry_extra)
        else:
            ctx.nt = fresh('nt')
            ctx.tid = fresh('tid')      # whichever thread runs the iteration
            s.assume(z3.And(ctx.nt >= 1, ctx.nt <= self.maxt, 0 <= ctx.tid, ctx.tid < ctx.nt))
        cur, keys = f, []
        for d in range(depth):
            key, name, lo, hi, body, declared = self.loop_header(cur, s)
            v = fresh(name)
            ctx.actors.append((name, v, lo, hi))
            keys.append(key)
            if d + 1 < depth:
                cur = body if body.get('kind') == 'ForStmt' else self.find1(body, ('ForStmt',))
                if body.get('kind') == 'CompoundStmt' and len(inner(body)) != 1:
                    raise vc.Unsupported('collapse of an imperfect nest')
            s.env[key] = v
            ctx.privkeys.add(key)
            s.names.d[name] = key
        ctx.entry_pc = list(s.pc)
        pre = s.copy()
        pre.names = outer_names
        rng = [z3.And(lo <= v, v < hi) for nm, v, lo, hi in ctx.actors]
        for r_ in rng:
            s.assume(r_)
        for nm, v, lo, hi in ctx.actors:
            s.assume(z3.And(v >= vc.INT_MIN, v <= vc.INT_MAX))
        self.apply_private(s, ctx, cl)
        if not parallel:
            # locals of the region written by the body: any value at the start of an iteration
            mods = self.dry_body(s, body, ctx)
            for k in mods:
                if k in s.env and not self.is_shared(ctx, k) and k not in keys:
                    self.havoc_key(s, k, 'ws')
                    self.havoc_key(pre, k, 'ws')
        s.par = ctx
        if spec is None:
            return self.auto_loop(s, pre, ctx, body, outer_ctx, label, line, file_)
        self.setup_flags(s, ctx)
        self.open_phase(s, ctx)
        outs = self.exec(body, [s])
        fin = [x for k, x in outs if k in ('n', 'c')]
        if len(fin) != len(outs):
            raise vc.Unsupported('jump out of a worksharing loop')
        wr = set(ctx.wregs)
        m = self.end_phase(fin, final=True)[0]
        for r in forbidden_writes:
            if r in wr:
                self.ob(m, z3.BoolVal(False), '%s/worksharing-writes-block-still-read:%s' % (label, r.name), 'ownership')
        res = self.close_region(m, ctx)
        if not parallel:
            self.ws_restore(res, pre, ctx, outer_ctx)
        res.names = outer_names
        res.par = outer_ctx
        return res

    def ws_restore(self, res, pre, ctx, outer_ctx):
        """back to the thread of the enclosing region, with its own facts and locals"""
        for k, v in pre.env.items():
            if k not in res.env or not self.is_shared(ctx, k):
                res.env[k] = v
        for r, v in pre.mem.items():
            if r not in ctx.entry_mem:
                res.mem[r] = v
        seen = set(f.get_id() for f in pre.pc)
        new = [f for f in res.pc if f.get_id() not in seen]
        # facts learned from the loop are about shared memory only
        for f in new:
            for c in vc.free_consts(f):
                m = re.search(r'!(\d+)$', c)
                if m and int(m.group(1)) > ctx.start_ctr:
                    outer_ctx.public.add(c)
        res.pc = list(pre.pc) + new
        outer_ctx.exports.update({k: v for k, v in ctx.exports.items()})
        ex = dict(pre.extra)
        ex.update(res.extra)
        res.extra = ex
        res.looped = pre.looped + 1

    def dry_body(self, s, body, ctx):
        t = s.copy()
        old, self.write_log = self.write_log, set()
        self.mute += 1
        outer = t.par
        solo = ctx.solo
        try:
            ctx2 = ctx
            t.par = ctx2
            ctx2.solo += 1
            self.exec(body, [t])
        finally:
            ctx.solo = solo
            self.mute -= 1
            log, self.write_log = self.write_log, old
        return set(k for k in log if k in s.env)

    def auto_loop(self, s, pre, ctx, body, outer_ctx, label, line, file_):
        """loop-free bodies that write at most one cell per block and iteration"""
        ctx.auto = True
        n0 = len(s.pc)
        outs = self.exec(body, [s])
        fin = [x for k, x in outs if k in ('n', 'c')]
        if len(fin) != len(outs):
            raise vc.Unsupported('jump out of a worksharing loop')
        m = fin[0] if len(fin) == 1 else self.merge(fin)
        if m.looped != pre.looped:
            raise vc.Unsupported('parallel loop with an inner loop and no contract at %s:%s' % (file_, line))
        if len(ctx.actors) != 1:
            raise vc.Unsupported('collapsed loop without a contract')
        nm, i, lo, hi = ctx.actors[0]
        iname = i.decl().name()
        res = pre
        res.par = outer_ctx
        self.cur_line, self.cur_file = line, file_
        writes = {}
        for r, idx, w, val in ctx.reads:
            if w:
                writes.setdefault(r, [])
                if not any(idx.eq(x) for x in writes[r]):
                    writes[r].append(idx)
        suffix = m.pc[n0:]
        i2 = fresh(nm)

        def ren(t):
            cs = {}
            for c in self.consts_of(t):
                nmc = c.decl().name()
                if nmc == iname:
                    cs[c] = i2
            return z3.substitute(t, *list(cs.items())) if cs else t
        rngf = lambda v: z3.And(lo <= v, v < hi)
        for r, idxs in writes.items():
            if len(idxs) != 1:
                raise vc.Unsupported('parallel loop writes several cells of %s' % r.name)
            e = idxs[0]
            self.closed(e, ctx, iname)
            e2 = ren(e)
            self.ob(m, z3.Implies(z3.And(rngf(i2), i2 != i), e != e2), '%s/disjoint:%s' % (label, r.name), 'ownership')
            for r2, d, w, val in ctx.reads:
                if r2 is r and not w and not d.eq(e):
                    self.ob(m, z3.Implies(z3.And(rngf(i2), i2 != i), d != e2), '%s/read-stable:%s' % (label, r.name), 'ownership')
            S = pre.mem[r]
            A = m.mem[r]
            v = sel(A, e)
            v = self.subst_mem(v, pre, m)
            self.closed(v, ctx, iname)
            J = fresh('J_' + r.name, r.asort)
            self.logw(r, res)
            p = poly(e)
            c = norm(e - i)
            if not any(x.decl().name() == iname for x in self.consts_of(c)):
                k = fresh('k')
                val = z3.substitute(v, (i, norm(k - c)))
                res.pc.append(z3.ForAll([k], z3.Select(J, k) == z3.If(z3.And(lo + c <= k, k < hi + c), val, z3.Select(S, k)),
                                        patterns=[z3.Select(J, k)]))
            else:
                k = fresh('k')
                pats = [z3.MultiPattern(t) for t in self.sel_terms(e, i)]
                q = fresh('i')
                body_ = z3.Implies(rngf(q), z3.Select(J, z3.substitute(e, (i, q))) == z3.substitute(v, (i, q)))
                ps = [z3.substitute(t, (i, q)) for t in self.sel_terms(e, i)]
                res.pc.append(z3.ForAll([q], body_, patterns=ps) if ps else z3.ForAll([q], body_))
                o = z3.Function('o_%s!%d' % (r.name, self.bump()), I, I)
                ok = o(k)
                res.pc.append(z3.ForAll([k], z3.Or(z3.Select(J, k) == z3.Select(S, k),
                                                   z3.And(rngf(ok), k == z3.substitute(e, (i, ok)))), patterns=[z3.Select(J, k)]))
            res.mem[r] = J
            if r.tracked:
                raise vc.Unsupported('tracked block written by a parallel loop')
            if outer_ctx is not None:
                outer_ctx.public.add(J.decl().name())
        # facts about values read do not survive; they were consequences of the state
        res.looped = pre.looped
        return res

    def subst_mem(self, v, pre, m):
        return v

    def closed(self, t, ctx, iname):
        for c in self.consts_of(t):
            nm = c.decl().name()
            mm = re.search(r'!(\d+)$', nm)
            if nm != iname and mm and int(mm.group(1)) > ctx.start_ctr:
                raise vc.Unsupported('parallel loop stores a value that is not a function of the iteration (%s)' % nm)

    def consts_of(self, t):
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append(x)
                stack.extend(x.children())
        return out

    def sel_terms(self, e, i):
        out, seen, stack = [], set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_SELECT and any(c.eq(i) for c in self.consts_of(x.arg(1))):
                out.append(x)
            stack.extend(x.children())
        return out

    def red_loop(self, n, s, cl, f, spec, label, outer_names):
        """reduction by a commutative, associative operator: the order of the
        iterations does not matter, so the sequential order stands for all"""
        if s.par is not None:
            raise vc.Unsupported('reduction inside a region')
        ch = inner(f)
        for t in cl['reduction']:
            op, vs = [x.strip() for x in t.split(':')]
            for nm in [x.strip() for x in vs.split(',')]:
                k = s.names.get(nm)
                if not self.red_form_ok(ch[4], k, op):
                    raise vc.Unsupported('reduction variable %s used outside its operator at %s' % (nm, self.where()))
        # no other shared variable or block may be written
        ctx = self.new_ctx(s, None, label)
        for t in cl['reduction']:
            for nm in [x.strip() for x in t.split(':')[1].split(',')]:
                ctx.privkeys.add(s.names.get(nm))
        ctx.nt, ctx.tid = fresh('nt'), fresh('tid')
        ctx.phase = Phase(label)
        init = ch[0]
        if init.get('kind') != 'DeclStmt':
            ctx.privkeys.add(s.names.get(inner(init)[0]['referencedDecl']['name']))
        s.par = ctx
        ctx.snap = self.snap_state(s, ctx)
        for k, (x) in list(ctx.own.items()):
            pass
        outs = self.x_ForStmt(f, [s])
        fin = [x for k, x in outs if k == 'n']
        if len(fin) != len(outs):
            raise vc.Unsupported('jump out of a worksharing loop')
        m = fin[0] if len(fin) == 1 else self.merge(fin)
        m.par = None
        m.names = outer_names
        return m

    # ------------------------------------------------------------ team calls
    def collective_call(self, call, sts, fn):
        """every thread of the team calls fn together; it contains barriers"""
        m = sts[0] if len(sts) == 1 else self.merge(sts)
        ctx = m.par
        if ctx is None or ctx.serial or ctx.solo:
            raise vc.Unsupported('team function called outside a team at %s' % self.where())
        line, file_ = self.cur_line, self.cur_file
        t, f = self.prog.find(fn.mangled, self.tu)
        params = [p for p in inner(f) if p.get('kind') == 'ParmVarDecl']
        args = inner(call)[1:]
        vals = [self.chk(self.ev_any(a, m)) for a in args]
        c = fn.make(fn.call_cfg if isinstance(fn.call_cfg, dict) else {})
        self.contracts_used.add(fn.label)
        sp = c.collective
        pv = dict(zip([p.get('name') for p in params], vals))
        tag = 'call:%s@%s' % (fn.label, line)
        # what each thread passes in, visible to all after the call
        xin = pv[sp['inout']]
        if not isinstance(xin, vc.CellPtr):
            raise vc.Unsupported('team function argument at %s' % self.where())
        val = self.load(xin.lv, m)
        E = fresh('coll_in', AI)
        ctx.public.add(E.decl().name())
        m.assume(z3.Select(E, ctx.tid) == val)
        nm = sp['export'] + ('' if sp['export'] not in ctx.exports else '2')
        ctx.exports[nm] = E
        ctx.entry_extra[nm] = E
        m.extra[nm] = E
        ws = pv[sp['workspace']]
        sm = pv[sp['sum']]
        if not isinstance(ws, vc.Ptr) or ws.region is None:
            raise vc.Unsupported('workspace at %s' % self.where())
        self.ob(m, z3.And(ws.off >= 0, ws.off + ctx.nt + 1 <= ws.region.length), tag + ':room:workspace', 'call')
        if ws.region in ctx.wregs or ws.region in ctx.readregs:
            self.ob(m, z3.BoolVal(False), tag + ':workspace-in-use', 'call')
        # the workspace and the sum must be the team's, not a thread's
        if ws.region not in ctx.entry_mem:
            self.ob(m, z3.BoolVal(False), tag + ':workspace-shared', 'call')
        ph = ctx.phase
        m = self.end_phase([m], final=True)[0]
        self.cur_line, self.cur_file = line, file_
        A = self.logic(self.reg.logics['asum'])
        k = fresh('t')
        bound = z3.And(A(E, iv(0), k) >= vc.INT_MIN, A(E, iv(0), k) <= vc.INT_MAX)
        kk = fresh('t')
        self.ob(m, z3.Implies(z3.And(0 <= kk, kk <= ctx.nt), z3.substitute(bound, (k, kk))), tag + ':requires-sums-in-range', 'call')
        for f_ in [z3.Implies(z3.And(0 <= k, k <= ctx.nt), bound)]:
            m.assume(z3.ForAll([k], f_, patterns=[A(E, iv(0), k)]))
        out = A(E, iv(0), ctx.tid)
        l = xin.lv
        if l[0] != 'var' or self.is_shared(ctx, l[1]):
            self.ob(m, z3.BoolVal(False), tag + ':inout-private', 'call')
        m.env[l[1]] = out
        self.logw(l[1], m)
        tot = A(E, iv(0), ctx.nt)
        if isinstance(sm, vc.Ptr):
            r, i = sm.region, sm.off
            self.ob(m, z3.And(0 <= i, i < r.length), tag + ':room:sum', 'call')
            if r not in ctx.entry_mem:
                self.ob(m, z3.BoolVal(False), tag + ':sum-shared', 'call')
            if r is ws.region:
                self.ob(m, z3.BoolVal(False), tag + ':sum-separate', 'call')
            m.mem[r] = z3.Store(m.mem[r], i, tot)
            self.logw(r, m)
        elif isinstance(sm, vc.CellPtr):
            if not self.is_shared(ctx, sm.lv[1]):
                self.ob(m, z3.BoolVal(False), tag + ':sum-shared', 'call')
            m.env[sm.lv[1]] = tot
            self.logw(sm.lv[1], m)
        W = fresh('M_' + ws.region.name, ws.region.asort)
        ctx.public.add(W.decl().name())
        m.mem[ws.region] = W
        self.logw(ws.region, m)
        m.looped += 1
        self.do_hints(ph.hints.get('call', []), m, ph.label + ':call', pre=ctx.snap)
        self.open_phase(m, ctx)
        ctx.forbidden = {ws.region}
        return [m]
