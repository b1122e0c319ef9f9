"""Evaluation of contract expressions in a symbolic state."""
import z3
from terms import *
from spec import parse, SpecError
import vc


def find_ites(t):
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE:
            return [t]
        return [x for c in t.children() for x in find_ites(c)]
    return []


def has_any(t, vs):
    ids = {v.get_id() for v in vs}
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in ids:
            return True
        todo.extend(x.children())
    return False


class SpecMixin:
    def spec_bool(self, e, st, **kw):
        a = parse(e) if isinstance(e, str) else e
        try:
            v = self.sev(a, st, **kw)
        except SpecError as x:
            raise SpecError('%s  [in contract clause: %s]' % (x, e))
        if isinstance(v, vc.Ptr):
            return z3.BoolVal(v.region is not None)
        return tobool(v)

    def lookup(self, name, st, kw):
        b = kw.get('bound')
        if b and name in b:
            return b[name]
        if name == 'tid':
            if kw.get('tid') is not None:
                return kw['tid']
            p = st.par
            while p is not None and p.tid is None:
                p = p.outer
            return p.tid if p is not None else iv(0)
        if name == 'nt' and 'nt' in st.extra:
            return st.extra['nt']
        if name in ('nt', 'nthreads') and st.names.get(name) is None:
            p = st.par
            while p is not None and p.nt is None:
                p = p.outer
            return p.nt if p is not None else iv(1)
        if name == 'max_threads':
            return self.maxt
        if name == 'null':
            return vc.NULL
        if name == 'true':
            return z3.BoolVal(True)
        if name == 'false':
            return z3.BoolVal(False)
        if name == 'INT_MAX':
            return iv(vc.INT_MAX)
        if name == 'INT_MIN':
            return iv(vc.INT_MIN)
        if name in st.extra:
            return st.extra[name]
        spec = getattr(self, 'spec', None)
        if spec is not None and name in spec.lets:
            return self.sev(parse(spec.lets[name]), st, **kw)
        if name == 'this':
            if st.this is not None:
                return st.this
        k = st.names.get(name)
        if k is None and st.this is not None and ('f', st.this.obj, name) in st.env:
            k = ('f', st.this.obj, name)
        if k is None and spec is not None and name in spec.cfg:
            v = spec.cfg[name]
            return z3.BoolVal(v) if isinstance(v, bool) else iv(v)
        if k is None and name.startswith('omp_get_max_threads'):
            return self.maxt
        if k is None:
            raise SpecError('unknown name %s' % name)
        if kw.get('nopriv'):
            par = kw['nopriv']
            if not isinstance(k, tuple) and k not in par.entry_env and k not in par.privok:
                raise SpecError('%s is private to a thread; a phase clause speaks about all threads' % name)
            if k in par.privkeys:
                raise SpecError('%s is private to a thread; a phase clause speaks about all threads' % name)
        v = st.env.get(k)
        if v is None:
            cur = kw.get('cur')
            if cur is not None:
                v = cur.env.get(k)
        if v is None:
            raise SpecError('name %s has no value here' % name)
        if isinstance(v, tuple) and v and v[0] == 'ref':
            return self.sload(v[1], st, kw)
        if isinstance(v, tuple) and v and v[0] == 'objval':
            return vc.ObjPtr(v[1])
        if isinstance(v, vc.Poison):
            raise SpecError('%s: %s' % (name, v.why))
        return v

    def sload(self, lv, st, kw):
        if lv[0] == 'var':
            v = st.env.get(lv[1])
            if v is None and kw.get('cur') is not None:
                v = kw['cur'].env.get(lv[1])
            if isinstance(v, vc.Undecided):
                v.need()
            if isinstance(v, vc.Poison):
                raise SpecError(v.why)
            return v
        if lv[0] == 'mem':
            return sel(st.mem[lv[1]], lv[2])
        if lv[0] == 'obj':
            return vc.ObjPtr(lv[1])
        raise SpecError('load %r' % (lv,))

    def sev(self, a, st, **kw):
        k = a[0]
        ev = lambda x: self.sev(x, st, **kw)
        if k == 'num':
            if '.' in a[1]:
                return real(a[1])
            return iv(int(a[1]))
        if k == 'id':
            return self.lookup(a[1], st, kw)
        if k == 'neg':
            return -toint(ev(a[1]))
        if k == 'not':
            v = ev(a[1])
            if isinstance(v, vc.Ptr):
                return z3.BoolVal(v.region is None)
            return z3.Not(tobool(v))
        if k == 'deref':
            p = ev(a[1])
            if isinstance(p, vc.CellPtr):
                return self.sload(p.lv, st, kw)
            if isinstance(p, vc.Ptr):
                return sel(st.mem[p.region], norm(p.off))
            if isinstance(p, vc.ObjPtr):
                return p
            if isinstance(p, z3.ExprRef):
                return p            # a reference parameter
            raise SpecError('dereference of %r' % (p,))
        if k == 'fld':
            o = ev(a[1])
            if isinstance(o, vc.CellPtr):
                o = self.sload(o.lv, st, kw)
            if not isinstance(o, vc.ObjPtr):
                raise SpecError('field of %r' % (o,))
            v = st.env.get(('f', o.obj, a[2]))
            if v is None and kw.get('cur') is not None:
                v = kw['cur'].env.get(('f', o.obj, a[2]))
            if v is None:
                raise SpecError('no field %s in %s' % (a[2], o.obj))
            if isinstance(v, vc.Undecided):
                v.need()
            if isinstance(v, vc.Poison):
                raise SpecError(v.why)
            return v
        if k == 'idx':
            p = ev(a[1])
            i = ev(a[2])
            if isinstance(p, vc.Ptr):
                if p.region is None:
                    raise SpecError('index into a null pointer')
                m = st.mem.get(p.region)
                if m is None and kw.get('cur') is not None:
                    m = kw['cur'].mem.get(p.region)
                if m is None:
                    raise SpecError('block %s has no contents here' % p.region.name)
                return sel(m, norm(p.off + i))
            if isinstance(p, z3.ExprRef) and z3.is_array(p):
                return sel(p, norm(i))
            raise SpecError('index into %r' % (p,))
        if k == 'ite':
            c = ev(a[1])
            c = z3.simplify(tobool(c)) if isinstance(c, z3.ExprRef) else vc.tobool_any(c)
            if z3.is_true(c):
                return ev(a[2])
            if z3.is_false(c):
                return ev(a[3])
            x, y = self.coerce(ev(a[2]), ev(a[3]))
            return z3.If(c, x, y)
        if k == 'let':
            v = ev(a[2])
            kw2 = dict(kw)
            kw2['bound'] = dict(kw.get('bound') or {})
            kw2['bound'][a[1]] = v
            return self.sev(a[3], st, **kw2)
        if k == 'q':
            return self.squant(a, st, kw)
        if k == 'bin':
            return self.sbin(a, st, kw)
        if k == 'call':
            return self.scall(a, st, kw)
        raise SpecError('cannot evaluate %r' % (a,))

    def coerce(self, x, y):
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            if z3.is_real(x) and z3.is_int(y):
                return x, toreal(y)
            if z3.is_int(x) and z3.is_real(y):
                return toreal(x), y
            if z3.is_bool(x) and z3.is_int(y):
                return toint(x), y
            if z3.is_int(x) and z3.is_bool(y):
                return x, toint(y)
        return x, y

    def sbin(self, a, st, kw):
        op = a[1]
        ev = lambda x: self.sev(x, st, **kw)
        if op in ('==>', '&&', '||', '<==>'):
            l = ev(a[2])
            l = vc.tobool_any(l)
            ls = z3.simplify(l) if not z3.is_quantifier(l) else l
            if op == '==>' and z3.is_false(ls):
                return z3.BoolVal(True)
            if op == '&&' and z3.is_false(ls):
                return ls
            if op == '||' and z3.is_true(ls):
                return ls
            r = vc.tobool_any(ev(a[3]))
            if op == '==>':
                return r if z3.is_true(ls) else z3.Implies(l, r)
            if op == '&&':
                return r if z3.is_true(ls) else z3.And(l, r)
            if op == '||':
                return r if z3.is_false(ls) else z3.Or(l, r)
            return l == r
        x, y = ev(a[2]), ev(a[3])
        if isinstance(x, vc.Ptr) or isinstance(y, vc.Ptr) or isinstance(x, vc.ObjPtr) or isinstance(y, vc.ObjPtr):
            return self.sptr(op, x, y)
        x, y = self.coerce(x, y)
        if op == '==':
            return x == y
        if op == '!=':
            return x != y
        x, y = (toint(x), toint(y))
        if op in ('<', '<=', '>', '>='):
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if op == '+':
            return norm(x + y) if z3.is_int(x) else x + y
        if op == '-':
            return norm(x - y) if z3.is_int(x) else x - y
        if op == '*':
            return mul(x, y) if z3.is_int(x) else rmul(x, y)
        if op == '/':
            if z3.is_real(x):
                return rdiv(x, y)
            return self.divmod_(x, y, None)[0]
        if op == '%':
            return self.divmod_(x, y, None)[1]
        raise SpecError('operator ' + op)

    def sptr(self, op, x, y):
        if isinstance(x, vc.ObjPtr) or isinstance(y, vc.ObjPtr):
            if isinstance(x, vc.Ptr) or isinstance(y, vc.Ptr):
                e = z3.BoolVal(False)
            else:
                e = z3.BoolVal(x.obj == y.obj)
            return e if op == '==' else z3.Not(e)
        if op in ('==', '!='):
            if x.region is not y.region:
                e = z3.BoolVal(False)
            elif x.region is None:
                e = z3.BoolVal(True)
            else:
                e = x.off == y.off
            return e if op == '==' else z3.Not(e)
        if op == '+':
            if isinstance(x, vc.Ptr):
                return vc.Ptr(x.region, norm(x.off + y))
            return vc.Ptr(y.region, norm(y.off + x))
        if op == '-':
            if isinstance(y, vc.Ptr):
                return norm(x.off - y.off)
            return vc.Ptr(x.region, norm(x.off - y))
        raise SpecError('pointer operator ' + op)

    def squant(self, a, st, kw):
        _, q, binders, pats, body = a
        kw2 = dict(kw)
        kw2['bound'] = dict(kw.get('bound') or {})
        vs, rngs = [], []
        for nm, sort, rng in binders:
            if rng is not None:
                lo = self.sev(rng[0], st, **kw2)
                hi = self.sev(rng[1], st, **kw2)
            v = fresh('q_' + nm, SORT[sort])
            kw2['bound'][nm] = v
            vs.append(v)
            if rng is not None:
                rngs.append(z3.And(lo <= v, v < hi))
        b = vc.tobool_any(self.sev(body, st, **kw2))
        ps = []
        for grp in pats:
            ts = [self.sev(p, st, **kw2) for p in grp]
            ts = [t for t in ts if isinstance(t, z3.ExprRef)]
            ps.append(ts)
        if ps:
            # conditional terms cannot be part of a pattern: name them
            subs = {}
            keep = []
            for ts in ps:
                ites = [x for t in ts for x in find_ites(t)]
                if any(has_any(x, vs) for x in ites):
                    continue
                for x in ites:
                    if x.get_id() not in subs:
                        nm_ = fresh('ite', x.sort())
                        subs[x.get_id()] = (x, nm_)
                        st.assume(nm_ == x)
                keep.append(ts)
            if subs:
                sl = list(subs.values())
                b = z3.substitute(b, *sl)
                keep = [[z3.substitute(t, *sl) for t in ts] for ts in keep]
            ps = [z3.MultiPattern(*ts) if len(ts) > 1 else ts[0] for ts in keep]
        if q == 'forall':
            if rngs:
                b = z3.Implies(z3.And(*rngs), b)
            return z3.ForAll(vs, b, patterns=ps) if ps else self.mkforall(vs, b)
        if rngs:
            b = z3.And(*(rngs + [b]))
        return z3.Exists(vs, b)

    def mkforall(self, vs, b):
        """merge directly nested universals so that triggers cover all variables"""
        return z3.ForAll(vs, b)

    def scall(self, a, st, kw):
        _, f, args = a
        if f == 'old':
            old = kw.get('old') or self.entry
            kw2 = dict(kw)
            kw2['cur'] = st
            s = self.with_names(old, st)
            return self.sev(args[0], s, **kw2)
        if f == 'pre':
            pre = kw.get('pre')
            if pre is None:
                raise SpecError('pre() has no meaning here')
            kw2 = dict(kw)
            kw2['cur'] = st
            return self.sev(args[0], self.with_names(pre, st), **kw2)
        if f == 'next':
            return self.sev(args[0], self.with_names(kw['next'], st), **kw)
        if f == 'head':
            h = kw.get('head')
            if h is None:
                raise SpecError('head() has no meaning here')
            kw2 = dict(kw)
            kw2['cur'] = st
            return self.sev(args[0], self.with_names(h, st), **kw2)
        if f == 'entryval':
            return self.sev(args[0], self.entry, **kw)
        if f == 'omp_get_max_threads':
            return self.maxt
        if f == 'len':
            p = self.sev(args[0], st, **kw)
            if p.region is None:
                return iv(-1)
            return norm(p.region.length - p.off)
        if f == 'off':
            return self.sev(args[0], st, **kw).off
        if f == 'content':
            p = self.sev(args[0], st, **kw)
            return st.mem[p.region]
        if f == 'isnull':
            p = self.sev(args[0], st, **kw)
            return z3.BoolVal(isinstance(p, vc.Ptr) and p.region is None)
        if f == 'same_block':
            p, q = self.sev(args[0], st, **kw), self.sev(args[1], st, **kw)
            return z3.BoolVal(p.region is q.region)
        if f == 'prov':
            p = self.sev(args[0], st, **kw)
            if len(args) == 1:
                pv = getattr(p, '_prov', None)
                if pv is None:
                    raise SpecError('no provenance for this value')
                return pv
            i = self.sev(args[1], st, **kw)
            return sel(st.mem[('prov', p.region)], norm(p.off + i))
        if f == 'abs':
            x = self.sev(args[0], st, **kw)
            return z3.If(x >= 0, x, -x)
        if f == 'min':
            x, y = self.coerce(*[self.sev(p, st, **kw) for p in args])
            return z3.If(x <= y, x, y)
        if f == 'max':
            x, y = self.coerce(*[self.sev(p, st, **kw) for p in args])
            return z3.If(x >= y, x, y)
        if f == 'mod':
            x, y = [self.sev(p, st, **kw) for p in args]
            return self.divmod_(x, y, None)[1]
        if f == 'ediv':
            x, y = [self.sev(p, st, **kw) for p in args]
            return x / y
        if f == 'times':
            x, y = [self.sev(p, st, **kw) for p in args]
            return imul(norm(x), norm(y))
        if f == 'real':
            return toreal(self.sev(args[0], st, **kw))
        if f == 'upd':
            x = self.sev(args[0], st, **kw)
            return z3.Store(x, self.sev(args[1], st, **kw), self.sev(args[2], st, **kw))
        L = self.reg.logics.get(f)
        if L is None:
            raise SpecError('unknown logic function %s' % f)
        if len(args) != len(L.params):
            raise SpecError('arity of %s' % f)
        vals = []
        for (pn, ps), x in zip(L.params, args):
            v = self.sev(x, st, **kw)
            if ps in ('arr', 'rarr', 'barr') and isinstance(v, vc.Ptr):
                self._spec_st = st
                if v.region not in st.mem and kw.get('cur') is not None:
                    self._spec_st = kw['cur']
                v = self.ptr_array(v, self._spec_st)
            if ps == 'real' and isinstance(v, z3.ExprRef) and z3.is_int(v):
                v = toreal(v)
            if ps == 'int' and isinstance(v, z3.ExprRef) and z3.is_int(v):
                v = norm(v)
            vals.append(v)
        if L.body is not None and not L.rec:
            kw2 = {'bound': {p: v for (p, _), v in zip(L.params, vals)}}
            for x in ('old', 'pre', 'head', 'cur'):
                if kw.get(x) is not None:
                    kw2[x] = kw[x]
            return self.sev(parse(L.body), self.nameless(st), **kw2)
        d = self.logic_decl.get(f)
        if d is None:
            d = z3.Function(f, *([SORT[s] for _, s in L.params] + [SORT[L.ret]]))
            self.logic_decl[f] = d
        return d(*vals)

    def nameless(self, st):
        s = vc.St()
        s.env, s.mem, s.par = st.env, st.mem, st.par
        s.this = None
        return s

    def with_names(self, old, st):
        """the old memory, read with the names in scope now"""
        s = vc.St()
        s.env, s.mem = old.env, old.mem
        s.names, s.this, s.par = st.names, st.this if st.this is not None else old.this, st.par
        s.extra = dict(st.extra)
        return s
