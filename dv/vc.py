"""Verification condition generator: symbolic execution of the clang AST of the
real functions, loops cut at invariants, calls replaced by contracts (or the
callee's body where it has none), OpenMP regions handled thread-modularly."""
import re
import z3
from terms import *
import terms
from spec import parse, SpecError
import front
from contract import REG, C, LoopSpec, ParSpec, Phase

INT_MIN, INT_MAX = -2**31, 2**31 - 1


def z3_quant(x):
    seen, stack = set(), [x]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            return True
        stack.extend(u.children())
    return False


class Unsupported(Exception):
    pass


class Region:
    def __init__(self, name, elem, length):
        self.name, self.elem, self.length = name, elem, length
        self.tracked = False
        self.lo = z3.IntVal(0)      # a contract may give a function the elements from lo on only
        self.sort = R if elem in ('double', 'float') else (B if elem == 'bool' else I)
        self.asort = z3.ArraySort(I, self.sort)

    def __repr__(self):
        return 'Region(%s)' % self.name


class Ptr:
    def __init__(self, region, off):
        self.region, self.off = region, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.region, self.off)


class CastPtr(Ptr):
    """a pointer viewed as another element type (offset in elements of the block)"""


class Raw:
    """result of malloc before it is given a type"""
    def __init__(self, size):
        self.size = size


class ObjPtr:
    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return 'Obj(%s)' % self.obj


class CellPtr:
    def __init__(self, lv):
        self.lv = lv


class Str:
    def __init__(self, s):
        self.s = s


class Rows:
    """a two-dimensional local array: one block per row"""
    def __init__(self, keys):
        self.keys = keys


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


class NeedField(Exception):
    """the code looks at an optional array: verify with and without it"""


class Undecided(Poison):
    """an optional array of an object, present or absent"""
    def __init__(self, obj, field):
        Poison.__init__(self, 'field %s of %s' % (field, obj))
        self.key = 'has:%s.%s' % (obj, field)

    def need(self):
        raise NeedField(self.key)


NULL = Ptr(None, iv(0))


class Names:
    def __init__(self, d=None, parent=None):
        self.d, self.parent = dict(d or {}), parent

    def copy(self):
        return Names(self.d, self.parent)

    def get(self, n):
        x = self
        while x is not None:
            if n in x.d:
                return x.d[n]
            x = x.parent
        return None


class St:
    def __init__(self):
        self.env, self.mem, self.pc = {}, {}, []
        self.names = Names()
        self.this = None
        self.par = None
        self.ret = None
        self.freed = frozenset()
        self.extra = {}
        self.looped = 0

    def copy(self):
        s = St()
        s.env, s.mem, s.pc = dict(self.env), dict(self.mem), list(self.pc)
        s.names, s.this, s.par, s.ret = self.names.copy(), self.this, self.par, self.ret
        s.freed, s.extra, s.looped = self.freed, dict(self.extra), self.looped
        return s

    def assume(self, f):
        if not z3.is_true(f):
            self.pc.append(f)


class ParCtx:
    def __init__(self):
        self.tid = self.nt = None
        self.spec = None
        self.idx = 0
        self.snap = None
        self.own = {}
        self.racy = {}
        self.owncell = {}
        self.entry_env = {}
        self.entry_mem = {}
        self.auto = False
        self.reads = []
        self.readregs = set()
        self.wregs = set()
        self.flags = {}
        self.flagF = {}
        self.start_ctr = 0
        self.public = set()
        self.exports = {}
        self.lo = self.hi = None
        self.forbidden = set()
        self.outer = None
        self.label = ''
        self.reds = {}
        self.privkeys = set()
        self.iterkey = None
        self.itername = None


class Ob:
    __slots__ = ('name', 'pc', 'goal', 'where', 'kind')

    def __init__(self, name, pc, goal, where, kind):
        self.name, self.pc, self.goal, self.where, self.kind = name, pc, goal, where, kind


class Frame:
    def __init__(self, spec, fnode, path, label):
        self.spec, self.fnode, self.path, self.label = spec, fnode, path, label
        self.loopno, self.parno, self.parforno = {}, {}, {}


def free_consts(f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [f]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(t.decl().name())
            stack.extend(t.children())
    return acc


def inner(n):
    return n.get('inner', [])


def tyname(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def norm_type(t):
    t = t.replace('const', '').replace('volatile', '').replace('restrict', '').replace('__', '')
    t = re.sub(r'\s+', ' ', t).strip()
    t = re.sub(r'\s*([*&\[\]])\s*', r'\1', t)
    return t.strip()


SIZES = {'int': 4, 'unsigned int': 4, 'double': 8, 'float': 4, 'char': 1, 'bool': 1, 'long': 8,
         'unsigned long': 8, 'size_t': 8, 'long long': 8, 'unsigned long long': 8, 'signed char': 1,
         'unsigned char': 1, 'short': 2, 'unsigned short': 2, '_Bool': 1}
RANGE = {'int': (INT_MIN, INT_MAX), 'unsigned int': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1),
         'long long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
         'unsigned long long': (0, 2**64 - 1), 'char': (-128, 127), 'unsigned char': (0, 255),
         'signed char': (-128, 127), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 65535)}
ALIASES = {'size_t': 'unsigned long', 'ptrdiff_t': 'long', 'std::size_t': 'unsigned long', 'uint64_t': 'unsigned long',
           'int64_t': 'long', 'unsigned': 'unsigned int', '_Bool': 'bool', 'uintptr_t': 'unsigned long',
           'int32_t': 'int', 'uint32_t': 'unsigned int', 'std::ptrdiff_t': 'long',
           'iterator_traits<int>::difference_type': 'long'}


def base_ty(t):
    t = norm_type(t)
    return ALIASES.get(t, t)


# system interface, modelled instead of verified
TRUSTED_WRAPPERS = ('malloc_huge_pages', 'free_huge_pages')
LOOPKINDS = ('ForStmt', 'WhileStmt', 'DoStmt')
OMPFOR = ('OMPForDirective', 'OMPParallelForDirective')


class Exec:
    def __init__(self, prog, reg=REG, max_states=12):
        self.prog, self.reg = prog, reg
        self.obs = []
        self.mute = 0
        self.max_states = max_states
        self.write_log = None
        self.loop_mods = {}
        self.maxt = z3.Int('max_threads')
        self.warn = []
        self.called = set()
        self.inlined = set()
        self.contracts_used = set()
        self.trusted = set()
        self.logic_decl = {}
        self.nregions = 0
        self.paths = []

    # ------------------------------------------------------------------ obligations
    def ob(self, st, goal, name, kind, where=None):
        if self.mute:
            return
        g = goal
        if z3.is_bool(g) and z3.is_true(z3.simplify(g)):
            self.obs.append(Ob(self.oname(name), [], z3.BoolVal(True), where or self.where(), kind))
            return
        self.obs.append(Ob(self.oname(name), list(st.pc), g, where or self.where(), kind))

    def oname(self, name):
        return '%s/%s' % (self.frames[-1].label if self.frames else '', name)

    def where(self):
        return '%s:%s' % (self.cur_file.replace(front.REPO + '/', ''), self.cur_line)

    # ------------------------------------------------------------------ entry
    def verify(self, fn, cfg):
        self.fn, self.cfg = fn, cfg
        tu = self.prog.tu(fn.file)
        node = tu.funcs.get(fn.mangled)
        if node is None:
            t2, node = self.prog.find(fn.mangled)
            if node is None:
                raise Unsupported('function %s not found in %s' % (fn.mangled, fn.file))
            tu = t2
        self.tu = tu
        self.cur_file, self.cur_line = node['_file'], node['_line']
        c = fn.make(cfg)
        self.known = {}
        st = St()
        self.spec = c
        fr = Frame(c, node, (), fn.label)
        self.frames = [fr]
        self.number(fr, node)
        st.assume(self.maxt >= 1)
        self.maxt_assume = self.maxt >= 1
        params = [p for p in inner(node) if p.get('kind') == 'ParmVarDecl']
        pmap = {p.get('name'): p for p in params}
        if fn.spmd:
            par = ParCtx()
            par.tid, par.nt = z3.Int('tid'), z3.Int('nthreads')
            par.label = fn.label
            st.par = par
            st.assume(z3.And(0 <= par.tid, par.tid < par.nt, par.nt <= self.maxt))
        for g, s in c.ghosts:
            st.extra[g] = z3.Const(g, SORT[s])
        if c.stream:
            # the one file of the function: words as int, pairs of words as double, length and position in words
            opened = c.stream == 'open'
            if opened:
                self.file_mode = 'r'
            for g, s, v in (('FI', 'arr', None), ('FD', 'rarr', None), ('flen', 'int', None), ('fpos', 'int', None if opened else iv(0)),
                            ('fstate', 'int', iv(2 if opened else 0))):
                st.env[('stream', g)] = z3.Const(g, SORT[s]) if v is None else v
                st.names.d[g] = ('stream', g)
            st.assume(z3.And(st.env[('stream', 'flen')] >= 0, st.env[('stream', 'fpos')] >= 0))
        # objects first (their ints are mentioned in lengths)
        for d in c.params:
            if d[0] == 'obj':
                _, name, fields, ints = d
                for f, t in ints:
                    v = z3.Const('%s.%s' % (name, f), B if t == 'bool' else I)
                    st.env[('f', name, f)] = v
                    if t != 'bool':
                        st.assume(z3.And(v >= RANGE[base_ty(t)][0], v <= RANGE[base_ty(t)][1]))
                if name == 'this':
                    st.this = ObjPtr('this')
                st.names.d[name] = ('p', name)
                st.env[('p', name)] = ObjPtr(name)
        for p in params:
            n = p.get('name')
            if n is None:
                continue
            t = tyname(p)
            key = p['id']
            st.names.d[n] = key
            decl = [d for d in c.params if d[1] == n]
            bt = base_ty(t)
            if decl and decl[0][0] == 'obj':
                if bt.endswith('*'):
                    st.env[key] = ObjPtr(n)
                else:
                    st.env[key] = ('ref', ('obj', n))
                continue
            if decl and decl[0][0] in ('arr', 'cell', 'lval'):
                continue
            if decl and decl[0][0] == 'scalar' and len(decl[0]) > 2 and decl[0][2] is not None:
                v = decl[0][2]
                st.env[key] = z3.BoolVal(v) if isinstance(v, bool) else iv(v)
                continue
            if c.stream and re.match(r'const char \*$', t.strip()):
                st.env[key] = Str('name of the file')
                continue
            if c.stream == 'open' and re.match(r'(struct )?(_IO_)?FILE \*$', t.strip()):
                st.env[key] = iv(1)
                continue
            if bt.endswith('*') or bt.endswith('&'):
                raise Unsupported('parameter %s of %s has pointer type %s and no declaration in the contract' % (n, fn.label, t))
            st.env[key] = self.havoc_scalar(st, n, bt)
        self.entry = st
        self.pctx(st)
        for d in c.params:
            if d[0] == 'arr':
                _, name, elem, length, null, alias = d
                key = pmap[name]['id'] if name in pmap else ('p', name)
                st.names.d[name] = key
                if null:
                    st.env[key] = NULL
                elif alias:
                    tgt = self.sev(parse(alias), st)
                    st.env[key] = tgt
                else:
                    L = self.sev(parse(str(length)), st)
                    r = self.new_region(st, name, elem, L)
                    if name in c.lows:
                        r.lo = self.sev(parse(c.lows[name]), st)
                    st.env[key] = Ptr(r, iv(0))
            elif d[0] == 'cell':
                _, name, shared = d
                key = pmap[name]['id']
                ck = ('cell', name)
                bt = base_ty(tyname(pmap[name]))[:-1].strip()
                st.env[ck] = Poison('%before the call: ' + name) if bt.endswith('*') else self.havoc_scalar(st, name + '_cell', bt)
                st.env[key] = CellPtr(('var', ck, bt))
                if base_ty(tyname(pmap[name])).endswith('&'):
                    st.env[key] = ('ref', ('var', ck, bt))
            elif d[0] == 'obj':
                _, name, fields, ints = d
                for f, elem, length, null in fields:
                    if null == 'either':
                        null = cfg.get('has:%s.%s' % (name, f))
                        if null is None:
                            st.env[('f', name, f)] = Undecided(name, f)
                            continue
                        null = not null
                    if null == 'any':
                        st.env[('f', name, f)] = Poison('field %s of %s, which the contract says is not used' % (f, name))
                        continue
                    if null:
                        st.env[('f', name, f)] = NULL
                        continue
                    alias = None
                    if isinstance(length, tuple):
                        alias, length = length
                    if alias:
                        st.env[('f', name, f)] = self.sev(parse(alias), st)
                        continue
                    L = self.sev(parse(str(length)), st)
                    r = self.new_region(st, '%s.%s' % (name, f), elem, L)
                    st.env[('f', name, f)] = Ptr(r, iv(0))
        for e, v in c.knowns:
            t = self.sev(parse(e), st)
            val = iv(v) if not isinstance(v, bool) else z3.BoolVal(v)
            st.assume(t == val)
            self.known[t.get_id()] = (t, val)
        for t in c.tracked:
            p = self.sev(parse(t), st)
            if p.region is not None:
                p.region.tracked = True
                k = z3.Int('k!prov')
                a = fresh('prov0', AI)
                st.mem[('prov', p.region)] = a
                st.assume(z3.ForAll([k], z3.Select(a, k) == k, patterns=[z3.Select(a, k)]))
        self.reqf = {}
        for e in c.reqs:
            self.reqf[e] = self.spec_bool(e, st)
            st.assume(self.reqf[e])
        for e in c.axioms:
            st.assume(self.spec_bool(e, st))
        for u in c.uses:
            for f in self.lemma_axiom(u):
                st.assume(f)
        self.entry = st.copy()
        self.entry.names = Names(st.names.d)
        self.entry_ctr = terms._ctr[0]
        self.reach(st, 'requires-satisfiable')
        if st.par is not None:
            self.begin_region(st, c.pars.get(0), spmd=True)
        self.do_hints(c.hints['entry'], st, 'entry')
        body = [x for x in inner(node) if x.get('kind') == 'CompoundStmt'][0]
        sts = [st]
        for ci in [x for x in inner(node) if x.get('kind') == 'CXXCtorInitializer']:
            for s in sts:
                self.ctor_init(ci, s)
        outs = self.exec(body, sts)
        n = 0
        finals = []
        for k, s in outs:
            if k not in ('n', 'r'):
                raise Unsupported('stray break/continue')
            finals.append(s)
        if fn.spmd:
            finals = self.end_phase(finals, final=True)
        for s in finals:
            n += 1
            s2 = s
            s2.names = Names(self.entry.names.d)
            s2.extra = dict(s2.extra)
            if s.ret is not None:
                s2.extra['result'] = s.ret
            # parameters denote their values at entry
            old = self.entry
            self.cur_line = node['_line']
            tag = '' if len(finals) == 1 else '@path%d' % n
            for p in params:
                if p.get('name') and p['id'] in old.env:
                    s2.env[p['id']] = old.env[p['id']]
            self.do_hints(c.hints['exit'], s2, 'exit', old=old)
            for j, e in enumerate(c.enss):
                nm, ex = e if isinstance(e, tuple) else ('ensures%d' % (j + 1), e)
                try:
                    f = self.spec_bool(ex, s2, old=old)
                except SpecError as err:
                    if not (c.stream and re.match('%before|index into a null', str(err))):
                        raise
                    f = z3.BoolVal(False)       # speaks of what this path never sets
                self.ob(s2, f, nm + tag, 'ensures')
            for nm, elem, L in c.news:
                try:
                    p = self.sev(parse(nm), s2, old=old)
                except SpecError as err:
                    if not (c.stream and re.match('%before|index into a null', str(err))):
                        raise
                    p = None
                ok = isinstance(p, Ptr) and p.region is not None and p.region not in old.mem and p.region in s2.mem and p.region not in s2.freed and p.region.elem == elem
                self.ob(s2, z3.And(p.off == 0, self.sev(parse(L), s2, old=old) <= p.region.length) if ok else z3.BoolVal(False), 'new:%s%s' % (nm, tag), 'ensures')
            if c.stream == 'open' or c.file_reads:
                self.ob(s2, z3.And(*[s2.env[('stream', g)] == old.env[('stream', g)] for g in ('FI', 'FD', 'flen')]), 'file-unchanged' + tag, 'ensures')
            for nm in c.nulls:
                self.ob(s2, self.spec_bool('isnull(%s)' % nm, s2, old=old), 'null:%s%s' % (nm, tag), 'ensures')
            self.frame_obs(c, s2, old, tag)
        if c.rels:
            self.relational(c, finals)
        if not finals:
            self.warn.append('no normal exit')
        return outs

    def relational(self, c, finals):
        """the run of thread tid next to the run of thread tid+1"""
        m = finals[0] if len(finals) == 1 else self.merge(finals)
        old = self.entry
        tid = old.par.tid
        cs = {}
        for f in m.pc + [v for v in m.env.values() if isinstance(v, z3.ExprRef)] + [v for v in m.mem.values()]:
            for x in self.consts_of(f):
                cs[x.get_id()] = x
        sub = [(tid, tid + 1)]
        for x in cs.values():
            nm = x.decl().name()
            mm = re.search(r'!(\d+)$', nm)
            if mm and int(mm.group(1)) > self.entry_ctr:
                sub.append((x, fresh(nm.split('!')[0] + '_next', x.sort())))
        nx = m.copy()
        nx.env = {k: (z3.substitute(v, *sub) if isinstance(v, z3.ExprRef) else v) for k, v in m.env.items()}
        nx.mem = {k: z3.substitute(v, *sub) for k, v in m.mem.items()}
        n0 = len(old.pc)
        m.assume(tid + 1 < old.par.nt)
        for f in list(m.pc):
            m.assume(z3.substitute(f, *sub))
        for j, e in enumerate(c.rels):
            self.ob(m, self.spec_bool(e, m, old=old, next=nx), 'relation%d' % (j + 1), 'ensures')

    def frame_obs(self, c, st, old, tag):
        """everything not named in 'assigns' is unchanged"""
        allowed = {}
        cells = set()
        freed = set()
        for e in c.freeing:
            p = self.sev(parse(e), old)
            if isinstance(p, Ptr) and p.region is not None:
                freed.add(p.region)
        for e in c.assigns:
            if ' when ' in e:
                lhs, cond = e.split(' when ', 1)
            else:
                lhs, cond = e, 'true'
            a = parse(lhs.strip())
            if a[0] == 'idx':
                p = self.sev(a[1], old)
                if isinstance(p, Ptr) and p.region is not None:
                    allowed.setdefault(p.region, []).append((p.off, a[2][1], cond))
            else:
                cells.add(self.slv_key(a, old))
        for r in old.mem:
            if isinstance(r, tuple):
                continue
            if r in freed:
                self.ob(st, z3.BoolVal(r in st.freed), 'frees:%s%s' % (r.name, tag), 'frame')
                continue
            if r in st.freed:
                self.ob(st, z3.BoolVal(False), 'frame:%s-not-freed%s' % (r.name, tag), 'frame')
            if st.mem[r].eq(old.mem[r]):
                continue
            k = fresh('kfr')
            conds = []
            for off, kn, cond in allowed.get(r, []):
                if cond == 'true':
                    conds.append(z3.BoolVal(True))
                else:
                    conds.append(self.spec_bool(cond, old, bound={kn: k - off}))
            if any(z3.is_true(z3.simplify(x)) for x in conds):
                continue
            g = z3.Select(st.mem[r], k) == z3.Select(old.mem[r], k)
            if conds:
                g = z3.Or(g, *conds)
            # only inside the block
            self.ob(st, z3.Implies(z3.And(0 <= k, k < r.length), g), 'frame:%s%s' % (r.name, tag), 'frame')
        for key, v in old.env.items():
            if isinstance(key, tuple) and key[0] in ('f', 'cell') and key not in cells:
                w = st.env.get(key)
                if w is v:
                    continue
                if isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef):
                    if not v.eq(w):
                        self.ob(st, v == w, 'frame:%s%s' % ('.'.join(map(str, key[1:])), tag), 'frame')
                elif isinstance(v, Ptr) and isinstance(w, Ptr) and v.region is w.region:
                    if v.region is not None:
                        self.ob(st, v.off == w.off, 'frame:%s%s' % ('.'.join(map(str, key[1:])), tag), 'frame')
                elif isinstance(v, CellPtr) or isinstance(v, ObjPtr):
                    pass
                else:
                    self.ob(st, z3.BoolVal(False), 'frame:%s%s' % ('.'.join(map(str, key[1:])), tag), 'frame')

    def slv_key(self, a, st):
        if a[0] == 'fld':
            o = self.sev(a[1], st)
            return ('f', o.obj, a[2])
        if a[0] == 'deref':
            p = self.sev(a[1], st)
            return p.lv[1]
        if a[0] == 'id':
            k = st.names.get(a[1])
            if k is None and st.this is not None:
                return ('f', st.this.obj, a[1])
            v = st.env.get(k)
            if isinstance(v, tuple) and v[0] == 'ref':
                return v[1][1]
            return k
        raise SpecError('assigns target %r' % (a,))

    def reach(self, st, name):
        """vacuity guard: recorded as an obligation that must NOT be provable"""
        if not self.mute:
            self.obs.append(Ob(self.oname(name), list(st.pc), z3.BoolVal(False), self.where(), 'reach'))

    def pctx(self, st):
        pass

    # ------------------------------------------------------------------ helpers
    def havoc_scalar(self, st, name, bt):
        if bt in ('double', 'float'):
            return fresh(name, R)
        if bt == 'bool':
            return fresh(name, B)
        if bt in RANGE:
            v = fresh(name, I)
            lo, hi = RANGE[bt]
            st.assume(z3.And(v >= lo, v <= hi))
            return v
        if bt.endswith('*') or True:
            return Poison('uninitialised %s' % name)

    def new_region(self, st, name, elem, length, init=None):
        self.nregions += 1
        r = Region(name, base_ty(elem), length)
        st.mem[r] = init if init is not None else fresh('M_' + name, r.asort)
        return r

    def type_fact(self, st, r, v):
        if r.elem in RANGE and not is_num(v):
            lo, hi = RANGE[r.elem]
            st.assume(z3.And(v >= lo, v <= hi))

    def number(self, fr, fnode):
        """ordinals of loops and OpenMP constructs, in source order, with
        contract-less callees expanded in place"""
        cnt = [0, 0, 0]
        heads = set()

        def go(n, path, depth):
            if not isinstance(n, dict):
                return
            k = n.get('kind')
            if k in OMPFOR:
                fr.parforno[(path, n['id'])] = cnt[2]
                cnt[2] += 1
                f = self.omp_for_loop(n)
                heads.add((path, f['id']))
                fr.loopno[(path, f['id'])] = 'parfor%d' % (cnt[2] - 1)      # used by reduction loops
            elif k == 'OMPParallelDirective':
                fr.parno[(path, n['id'])] = cnt[1]
                cnt[1] += 1
            elif k in LOOPKINDS and (path, n['id']) not in heads:
                fr.loopno[(path, n['id'])] = cnt[0]
                cnt[0] += 1
            for ch in inner(n):
                if k == 'CapturedDecl' and ch.get('kind') in ('ImplicitParamDecl', 'CapturedDecl'):
                    continue        # (a CapturedDecl also lists the ones nested in its body)
                go(ch, path, depth)
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr') and depth < 12:
                m = self.callee_of(n)
                if m and m not in self.reg.fns:
                    t, f = self.prog.find(m, self.tu)
                    if f is not None and f['_file'].startswith(front.REPO):
                        for ch in inner(f):
                            if ch.get('kind') == 'CompoundStmt':
                                go(ch, path + (n['id'],), depth + 1)
        for ch in inner(fnode):
            if ch.get('kind') == 'CompoundStmt':
                go(ch, fr.path, 0)

    def omp_for_loop(self, n):
        f = self.find1(n, ('ForStmt',))
        if f is None:
            raise Unsupported('worksharing construct without a for loop')
        return f

    def find1(self, n, kinds):
        for ch in inner(n):
            if ch.get('kind') in kinds:
                return ch
            if ch.get('kind') in ('CapturedStmt', 'CapturedDecl', 'CompoundStmt', 'OMPCanonicalLoop'):
                r = self.find1(ch, kinds)
                if r is not None:
                    return r
        return None

    def callee_decl(self, n):
        c = inner(n)[0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
            c = inner(c)[0]
        if c.get('kind') == 'DeclRefExpr':
            return c.get('referencedDecl'), None
        if c.get('kind') == 'MemberExpr':
            return {'id': c.get('referencedMemberDecl'), 'name': c.get('name')}, c
        return None, None

    def callee_of(self, n):
        if n.get('kind') == 'CXXConstructExpr':
            return None
        d, _ = self.callee_decl(n)
        if not d:
            return None
        x = self.tu.byid.get(d['id'])
        if x is None:
            return None
        return x.get('mangledName')

    # ------------------------------------------------------------------ statements
    def exec(self, n, sts):
        """-> list of (kind, state), kind in n(ormal) b(reak) c(ontinue) r(eturn)"""
        k = n.get('kind')
        if '_line' in n:
            self.cur_line, self.cur_file = n['_line'], n['_file']
        m = getattr(self, 'x_' + str(k), None)
        if m is None:
            if n.get('valueCategory'):
                return self.expr_stmt(n, sts)
            raise Unsupported('statement %s at %s' % (k, self.where()))
        return m(n, sts)

    def expr_stmt(self, n, sts):
        # collective calls act on all states together
        call = n
        while call.get('kind') in ('ExprWithCleanups', 'ParenExpr'):
            call = inner(call)[0]
        if call.get('kind') == 'CallExpr':
            mg = self.callee_of(call)
            if mg in self.reg.fns and self.reg.fns[mg].spmd and self.reg.fns[mg].mode == 'collective':
                return [('n', s) for s in self.collective_call(call, sts, self.reg.fns[mg])]
        out = []
        for s in sts:
            self.ev_any(n, s)
            out.append(('n', s))
        return out

    def x_NullStmt(self, n, sts):
        return [('n', s) for s in sts]

    def x_None(self, n, sts):
        return [('n', s) for s in sts]

    def x_CompoundStmt(self, n, sts):
        saved = [(s, s.names) for s in sts]
        outer = sts[0].names if sts else None
        for s in sts:
            s.names = s.names.copy()
        cur, out = sts, []
        for ch in inner(n):
            if not cur:
                break
            nxt = []
            res = self.exec(ch, cur)
            for kd, s in res:
                if kd == 'n':
                    nxt.append(s)
                else:
                    out.append((kd, s))
            cur = self.reduce_states(nxt)
        out += [('n', s) for s in cur]
        for kd, s in out:
            if outer is not None:
                s.names = outer.copy()
        return out

    def reduce_states(self, sts):
        if len(sts) <= 1:
            return sts
        if len(sts) > self.max_states:
            return [self.merge(sts)]
        return sts

    def x_DeclStmt(self, n, sts):
        for s in sts:
            for d in inner(n):
                if d.get('kind') == 'VarDecl':
                    self.decl(d, s)
        return [('n', s) for s in sts]

    def decl(self, d, s):
        t = norm_type(tyname(d))
        key = d['id']
        name = d.get('name', '_')
        s.names.d[name] = key
        init = [x for x in inner(d) if x.get('kind') and not x['kind'].endswith('Attr')]
        am = re.match(r'^(.*?)\[(.*)\]$', t)
        if am and not t.endswith('*'):
            elem, sz = am.group(1), am.group(2)
            if '][' in sz:
                # rows of their own: x[0] is x_0, ...
                d0, rest = sz.split('][', 1)
                if not d0.isdigit() or int(d0) > 8 or '][' in rest or init:
                    raise Unsupported('multi-dimensional local array')
                L = norm(self.sev(parse(rest), s))
                self.ob(s, L >= 0, 'array-size', 'safety')
                rows = []
                for i in range(int(d0)):
                    r = self.new_region(s, '%s_%d' % (name, i), elem, L)
                    s.env[key + '#%d' % i] = Ptr(r, iv(0))
                    self.logw(key + '#%d' % i, s)
                    s.names.d['%s_%d' % (name, i)] = key + '#%d' % i
                    rows.append(key + '#%d' % i)
                s.env[key] = Rows(rows)
                self.logw(key, s)
                return
            L = norm(self.sev(parse(sz), s))
            self.ob(s, L >= 0, 'array-size', 'safety')
            if base_ty(elem) in SIZES:
                r = self.new_region(s, name, elem, L)
                if init:
                    if init[0].get('kind') == 'InitListExpr':
                        a = s.mem[r]
                        vals = [self.ev(x, s) for x in inner(init[0])]
                        if 'array_filler' in init[0]:
                            vals = [self.ev(x, s) for x in init[0]['array_filler'][1:]]
                            if z3.is_int_value(L):
                                vals += [iv(0)] * (L.as_long() - len(vals))
                        for i, v in enumerate(vals):
                            a = z3.Store(a, iv(i), v)
                        s.mem[r] = a
                s.env[key] = Ptr(r, iv(0))
                self.logw(key, s)
                return
            s.env[key] = Poison('array of ' + elem)
            return
        bt = base_ty(t)
        if bt.endswith('&'):
            s.env[key] = ('ref', self.lv(init[0], s))
            return
        if not init:
            s.env[key] = self.havoc_scalar(s, name, bt)
            self.logw(key, s)
            return
        if bt in self.tu.records and init[0].get('kind') == 'CXXConstructExpr':
            obj = self.new_object(s, bt, name)
            s.env[key] = ('objval', obj)
            self.construct(init[0], s, obj)
            return
        v = self.ev(init[0], s)
        v = self.typed(v, d, bt)
        s.env[key] = v
        self.logw(key, s)

    def typed(self, v, n, bt):
        if isinstance(v, Raw):
            return v
        return v

    def x_IfStmt(self, n, sts):
        ch = inner(n)
        out = []
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with initialiser')
        for s in sts:
            c = tobool_any(self.ev(ch[0], s))
            c = z3.simplify(c) if isinstance(c, z3.ExprRef) else z3.BoolVal(c)
            if self.spec is not None and self.spec.decides and not z3.is_true(c) and not z3.is_false(c):
                for v in (True, False):
                    if self.refuted(s, c if v else z3.Not(c)):
                        # the other branch is never taken
                        self.ob(s, z3.Not(c) if v else c, 'branch-decided@%s' % self.cur_line, 'safety')
                        c = z3.BoolVal(not v)
                        break
            if z3.is_true(c):
                out += self.exec(ch[1], [s])
                continue
            if z3.is_false(c):
                if len(ch) > 2:
                    out += self.exec(ch[2], [s])
                else:
                    out.append(('n', s))
                continue
            s2 = s.copy()
            n0 = len(s.pc)
            l0 = s.looped
            s.pc.append(c)
            s2.pc.append(z3.Not(c))
            if s.par:
                s.par.branch = getattr(s.par, 'branch', 0) + 1
            o1 = self.exec(ch[1], [s])
            o2 = self.exec(ch[2], [s2]) if len(ch) > 2 else [('n', s2)]
            if s.par:
                s.par.branch -= 1
            n1 = [x for k, x in o1 if k == 'n']
            n2 = [x for k, x in o2 if k == 'n']
            out += [(k, x) for k, x in o1 + o2 if k != 'n']
            if len(n1) == 1 and len(n2) == 1 and n1[0].looped == l0 and n2[0].looped == l0:
                m = self.merge2(n1[0], n2[0], c, n0)
                if m is not None:
                    out.append(('n', m))
                    continue
            out += [('n', x) for x in n1 + n2]
        return out

    def refuted(self, s, c):
        z = z3.Solver()
        z.set('timeout', 300)
        z.add(*[f for f in s.pc if not z3.is_quantifier(f)])
        z.add(c)
        return z.check() == z3.unsat

    # merging
    def merge(self, sts):
        m = sts[0]
        for s in sts[1:]:
            n0 = 0
            while n0 < len(m.pc) and n0 < len(s.pc) and m.pc[n0].eq(s.pc[n0]):
                n0 += 1
            sel_ = fresh('sel', B)
            m.pc.insert(n0, sel_)
            s.pc.insert(n0, z3.Not(sel_))
            r = self.merge2(m, s, sel_, n0, force=True)
            m = r
        return m

    def merge2(self, a, b, c, n0, force=False):
        r = a.copy()
        r.pc = list(a.pc[:n0])
        for f in a.pc[n0 + 1:]:
            r.pc.append(z3.Implies(c, f))
        nc = z3.Not(c)
        for f in b.pc[n0 + 1:]:
            r.pc.append(z3.Implies(nc, f))
        for key in set(a.env) | set(b.env):
            va, vb = a.env.get(key), b.env.get(key)
            if va is vb:
                continue
            if va is None or vb is None:
                r.env[key] = va if va is not None else vb
                continue
            v = self.merge_val(c, va, vb)
            r.env[key] = v
        for g in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(g), b.mem.get(g)
            if ma is None or mb is None:
                r.mem[g] = ma if ma is not None else mb
                continue
            if ma.eq(mb):
                continue
            r.mem[g] = self.merge_mem(c, ma, mb)
        if a.ret is not b.ret:
            r.ret = self.merge_val(c, a.ret, b.ret)
        r.freed = a.freed | b.freed
        r.looped = max(a.looped, b.looped)
        for k in list(r.extra):
            if k in b.extra and a.extra[k] is not b.extra[k]:
                va, vb = a.extra[k], b.extra[k]
                if isinstance(va, z3.ExprRef) and isinstance(vb, z3.ExprRef) and not va.eq(vb):
                    r.extra[k] = z3.If(c, va, vb)
        return r

    def merge_val(self, c, va, vb):
        if isinstance(va, z3.ExprRef) and isinstance(vb, z3.ExprRef):
            if va.eq(vb) and getattr(va, '_prov', None) is getattr(vb, '_prov', None):
                return va
            if va.sort() != vb.sort():
                return Poison('merge of different sorts')
            v = z3.If(c, va, vb)
            pa, pb = getattr(va, '_prov', None), getattr(vb, '_prov', None)
            if pa is not None and pb is not None:
                v._prov = z3.If(c, pa, pb)
            return v
        if isinstance(va, Ptr) and isinstance(vb, Ptr):
            if va.region is vb.region:
                if type(va) is not type(vb):
                    return Poison('pointer types differ on two paths')
                if va.off.eq(vb.off):
                    return va
                return type(va)(va.region, z3.If(c, va.off, vb.off))
            return Poison('pointer into different blocks on two paths')
        if isinstance(va, ObjPtr) and isinstance(vb, ObjPtr) and va.obj == vb.obj:
            return va
        if isinstance(va, tuple) and va == vb:
            return va
        return Poison('unmergeable')

    def merge_mem(self, c, ma, mb):
        def st(t):
            return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE
        if st(ma) and ma.arg(0).eq(mb):
            return z3.Store(mb, ma.arg(1), z3.If(c, ma.arg(2), sel(mb, ma.arg(1))))
        if st(mb) and mb.arg(0).eq(ma):
            return z3.Store(ma, mb.arg(1), z3.If(c, sel(ma, mb.arg(1)), mb.arg(2)))
        if st(ma) and st(mb) and ma.arg(1).eq(mb.arg(1)):
            base = self.merge_mem(c, ma.arg(0), mb.arg(0)) if not ma.arg(0).eq(mb.arg(0)) else ma.arg(0)
            v = ma.arg(2) if ma.arg(2).eq(mb.arg(2)) else z3.If(c, ma.arg(2), mb.arg(2))
            return z3.Store(base, ma.arg(1), v)
        return z3.If(c, ma, mb)

    def x_ReturnStmt(self, n, sts):
        out = []
        for s in sts:
            ch = inner(n)
            s.ret = self.ev_any(ch[0], s) if ch else None
            out.append(('r', s))
        return out

    def x_BreakStmt(self, n, sts):
        return [('b', s) for s in sts]

    def x_ContinueStmt(self, n, sts):
        return [('c', s) for s in sts]

    def x_CaseStmt(self, n, sts):
        raise Unsupported('switch')

    def x_AttributedStmt(self, n, sts):
        return self.exec([c for c in inner(n) if not c.get('kind', '').endswith('Attr')][0], sts)

    # ------------------------------------------------------------------ loops
    def loop_spec(self, n):
        for fr in reversed(self.frames):
            k = (self.path, n['id'])
            if k in fr.loopno:
                i = fr.loopno[k]
                return fr.spec.loops.get(i), i
        return None, '?'

    @property
    def path(self):
        return self.paths[-1] if self.paths else ()

    def x_ForStmt(self, n, sts):
        ch = inner(n)
        # [init, condvar, cond, inc, body]
        init, cond, inc, body = ch[0], ch[2], ch[3], ch[4]
        saved = None
        out = []
        for s in sts:
            outer = s.names
            s.names = s.names.copy()
            cur = [s]
            if init and init.get('kind'):
                cur = [x for k, x in self.exec(init, cur)]
            for x in cur:
                out += self.loop(n, x, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, False)
            for k, x in out:
                x.names = outer.copy()
        return out

    def x_WhileStmt(self, n, sts):
        ch = inner(n)
        out = []
        for s in sts:
            out += self.loop(n, s, ch[-2], None, ch[-1], False)
        return out

    def x_DoStmt(self, n, sts):
        ch = inner(n)
        out = []
        for s in sts:
            out += self.loop(n, s, ch[1], None, ch[0], True)
        return out

    def dry(self, n, s, cond, inc, body, key):
        """the set of variables and blocks an iteration may write"""
        if key in self.loop_mods:
            return self.loop_mods[key]
        mods = set()
        while True:
            t = s.copy()
            for m in mods:
                self.havoc_key(t, m, 'dry')
            old_log, self.write_log = self.write_log, set()
            self.mute += 1
            obs = self.obs
            npar = self.save_par(t)
            try:
                if cond is not None:
                    t.assume(tobool_any(self.ev(cond, t)))
                outs = self.exec(body, [t])
                for k, x in outs:
                    if k in ('n', 'c') and inc is not None:
                        self.ev_any(inc, x)
            finally:
                log = self.write_log
                self.write_log = old_log
                self.mute -= 1
                self.restore_par(s, npar)
            live = set(k for k in log if (k in s.env or k in s.mem))
            if live <= mods:
                break
            mods |= live
        self.loop_mods[key] = mods
        return mods

    def save_par(self, s):
        if s.par is None:
            return None
        p = s.par
        return (p.idx, p.snap, dict(p.own), dict(p.racy), dict(p.owncell), list(p.reads), set(p.readregs), set(p.wregs),
                dict(p.exports), set(p.forbidden), set(p.public))

    def restore_par(self, s, v):
        if v is None:
            return
        p = s.par
        (p.idx, p.snap, p.own, p.racy, p.owncell, p.reads, p.readregs, p.wregs, p.exports, p.forbidden, p.public) = v

    def logw(self, key, s):
        if self.write_log is not None:
            self.write_log.add(key)

    def havoc_key(self, s, key, why):
        if key in s.mem:
            if isinstance(key, tuple):
                s.mem[key] = fresh('P_' + key[1].name, AI)
            else:
                s.mem[key] = fresh('M_' + key.name, key.asort)
            return
        v = s.env.get(key)
        if isinstance(v, z3.ExprRef):
            nm = str(key) if not isinstance(key, tuple) else '.'.join(str(x) for x in key)
            for nn, kk in s.names.d.items():
                if kk == key:
                    nm = nn
            w = fresh(nm, v.sort())
            if hasattr(v, '_prov') or self.any_tracked(s):
                w._prov = fresh('prov_' + nm, I)
            bt = self.key_type(key)
            s.env[key] = w
            if bt in RANGE and z3.is_int(w):
                lo, hi = RANGE[bt]
                s.assume(z3.And(w >= lo, w <= hi))
        elif isinstance(v, Ptr):
            if v.region is not None:
                s.env[key] = Ptr(v.region, fresh('off'))
            else:
                s.env[key] = Poison('null pointer rewritten in a loop')
        elif isinstance(v, Poison) or v is None:
            d = self.tu.byid.get(key) if not isinstance(key, tuple) else None
            if d is not None and base_ty(tyname(d)) in RANGE or d is not None and base_ty(tyname(d)) in ('double', 'bool'):
                s.env[key] = self.havoc_scalar(s, d.get('name', '_'), base_ty(tyname(d)))
        else:
            s.env[key] = Poison('rewritten in a loop')

    def any_tracked(self, s):
        return any(isinstance(k, tuple) and k[0] == 'prov' for k in s.mem)

    def key_type(self, key):
        if isinstance(key, tuple):
            if key[0] == 'f':
                return {'m': 'int', 'n': 'int'}.get(key[2], 'int')
            return '' if key[0] == 'stream' else 'int'
        d = self.tu.byid.get(key)
        return base_ty(tyname(d)) if d is not None else ''

    def syntactic_bound(self, n, cond, inc, body, s0, mods):
        """'for (..; i < e; ++i)' with e and i not otherwise written: i stays within [init, e]"""
        out = []
        if cond is None or inc is None or cond.get('kind') != 'BinaryOperator':
            return out
        if inc.get('kind') != 'UnaryOperator' or inc.get('opcode') not in ('++', '--'):
            return out
        v = inner(inc)[0]
        if v.get('kind') != 'DeclRefExpr':
            return out
        vid = v['referencedDecl']['id']
        if self.assigned_in(body, vid):
            return out
        if not isinstance(s0.env.get(vid), z3.ExprRef) or not z3.is_int(s0.env[vid]):
            return out
        return [(vid, inc['opcode'], cond)]

    def assigned_in(self, n, vid):
        if not isinstance(n, dict):
            return False
        k = n.get('kind')
        if (k == 'BinaryOperator' and n.get('opcode') == '=') or k == 'CompoundAssignOperator' or \
           (k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&')):
            t = inner(n)[0]
            while t.get('kind') == 'ParenExpr':
                t = inner(t)[0]
            if t.get('kind') == 'DeclRefExpr' and t['referencedDecl']['id'] == vid:
                return True
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            for a in inner(n)[1:]:
                if a.get('kind') == 'DeclRefExpr' and a['referencedDecl']['id'] == vid:
                    return True         # passed by reference
        return any(self.assigned_in(c, vid) for c in inner(n))

    def loop(self, n, s, cond, inc, body, is_do):
        spec, no = self.loop_spec(n)
        key = (self.path, n['id'])
        label = 'loop%s' % no
        if spec is None:
            # small constant loops are unrolled completely
            r = self.try_unroll(n, s, cond, inc, body, is_do)
            if r is not None:
                return r
            spec = LoopSpec(label)
        elif spec.unroll:
            r = self.try_unroll(n, s, cond, inc, body, is_do, spec.unroll)
            if r is not None:
                return r
        s.looped += 1
        pre = s.copy()
        if is_do:
            raise Unsupported('do loop (no contract form)')
        line = self.cur_line
        file_ = self.cur_file
        mods = self.dry(n, s, cond, inc, body, key)
        mods = set(k for k in mods if not self.leaves_only(k, s))
        for tries in range(6):
            mark = len(self.obs)
            res = self.loop_once(n, pre.copy(), cond, inc, body, spec, label, mods, line, file_)
            new, outs = res
            if new <= mods:
                return outs
            mods = mods | new
            self.loop_mods[key] = mods
            del self.obs[mark:]
        raise Unsupported('loop write set does not stabilise')

    def leaves_only(self, k, s):
        return bool(self.spec.stream) and (k == ('stream', 'fstate') or isinstance(k, tuple) and k[0] == 'cell' and isinstance(s.env.get(k), Ptr))

    def unchanged(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.region is b.region and a.region is not None and a.off.eq(b.off)
        return a is b or isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)

    def loop_once(self, n, s, cond, inc, body, spec, label, mods, line, file_):
        pre = s.copy()
        for g in spec.ghosts:
            s.extra[g[0]] = self.sev(parse(g[2]), s)
        self.cur_line, self.cur_file = line, file_
        self.do_hints(spec.hints['entry'], s, label + ':entry', pre=pre)
        npre = len(s.pc)
        for nm, e in spec.invs:
            self.ob(s, self.spec_bool(e, s, old=self.entry, pre=pre), '%s/%s/established' % (label, nm), 'invariant')
        autos = []
        for vid, op, cnd in self.syntactic_bound(n, cond, inc, body, s, mods):
            autos.append((vid, op, cnd, s.env[vid]))
        h = s
        for m in mods:
            self.havoc_key(h, m, label)
        for g in spec.ghosts:
            h.extra[g[0]] = fresh(g[0], SORT[g[1]])
        for vid, op, cnd, v0 in autos:
            v = h.env[vid]
            h.assume(v >= v0 if op == '++' else v <= v0)
            self._mods_stack = getattr(self, '_mods_stack', [])
            self._mods_stack.append(mods)
            b = self.auto_bound(vid, op, cnd, v0, h)
            self._mods_stack.pop()
            if b is not None:
                h.assume(b)
        inv_at_head = []
        for nm, e in spec.invs:
            f = self.spec_bool(e, h, old=self.entry, pre=pre)
            h.assume(f)
        self.cur_line, self.cur_file = line, file_
        outs = []
        exit_ = None
        b = h.copy()
        if cond is not None:
            c = tobool_any(self.ev(cond, b))
            side = b.pc[len(h.pc):]
            exit_ = h.copy()
            # evaluating the condition has no side effects on variables in this code base
            for kk, vv in b.env.items():
                exit_.env[kk] = vv
            exit_.mem = dict(b.mem)
            exit_.pc = list(b.pc)
            exit_.assume(z3.Not(c))
            b.assume(c)
        variant0 = None
        if spec.variant:
            variant0 = self.sev(parse(spec.variant), b)
        head = b.copy()
        self.do_hints(spec.hints['body'], b, label + ':body', pre=pre)
        log0, self.write_log = self.write_log, set()
        res = self.exec(body, [b])
        cont = []
        for k, x in res:
            if k in ('n', 'c'):
                cont.append(x)
            elif k == 'b':
                x.names = pre.names.copy()
                x.extra = self.drop(x.extra, spec)
                outs.append(('n', x))
            else:
                outs.append((k, x))
        i = 0
        for x in cont:
            i += 1
            x.names = pre.names.copy()
            x.extra = dict(x.extra)
            x.extra['__head'] = head
            self.cur_line, self.cur_file = line, file_
            self.do_hints(spec.hints['end'], x, label + ':end', pre=pre, head=head)
            for g in spec.ghosts:
                x.extra[g[0]] = self.sev(parse(g[3]), x, head=head)
            if inc is not None:
                self.ev_any(inc, x)
            self.cur_line, self.cur_file = line, file_
            tag = '' if len(cont) == 1 else '@%d' % i
            for nm, e in spec.invs:
                self.ob(x, self.spec_bool(e, x, old=self.entry, pre=pre), '%s/%s/preserved%s' % (label, nm, tag), 'invariant')
            if variant0 is not None:
                v1 = self.sev(parse(spec.variant), x)
                self.ob(x, z3.And(variant0 >= 0, v1 < variant0), '%s/variant%s' % (label, tag), 'variant')
        log = self.write_log
        self.write_log = log0
        if log0 is not None:
            log0 |= log
        new = set(k for k in log if (k in pre.env or k in pre.mem))
        # written only on the way out of the function, never before another iteration
        new = set(k for k in new if not (self.leaves_only(k, pre) and k not in mods and all(self.unchanged(x.env.get(k), head.env.get(k)) for x in cont)
                                         and all(kk == 'r' or self.unchanged(x.env.get(k), head.env.get(k)) for kk, x in outs)))
        if exit_ is not None:
            exit_.extra = self.drop(exit_.extra, spec) if False else exit_.extra
            self.do_hints(spec.hints['exit'], exit_, label + ':exit', pre=pre)
            outs.insert(0, ('n', exit_))
        for k, x in outs:
            x.looped = pre.looped
            x.extra.pop('__head', None)
        return new, outs

    def drop(self, extra, spec):
        return dict(extra)

    def auto_bound(self, vid, op, cnd, v0, h):
        l, r = inner(cnd)
        opc = cnd.get('opcode')

        def is_v(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
                x = inner(x)[0]
            return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid
        self.mute += 1
        t = h.copy()
        try:
            if is_v(l):
                e = self.ev(r, t)
            elif is_v(r):
                e = self.ev(l, t)
                opc = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(opc, opc)
            else:
                return None
        except (Unsupported, SpecError):
            return None
        finally:
            self.mute -= 1
        if not isinstance(e, z3.ExprRef) or not z3.is_int(e):
            return None
        # the bound must not change while the loop runs
        t2 = h
        if not self.bound_stable(r if is_v(l) else l, h):
            return None
        v = h.env[vid]
        if op == '++' and opc == '<':
            return z3.Or(v <= e, v == v0)
        if op == '++' and opc == '<=':
            return z3.Or(v <= e + 1, v == v0)
        if op == '--' and opc == '>':
            return z3.Or(v >= e, v == v0)
        if op == '--' and opc == '>=':
            return z3.Or(v >= e - 1, v == v0)
        return None

    def bound_stable(self, n, h):
        """only variables/blocks outside the loop's write set may be read"""
        mods = getattr(self, '_cur_mods', None)
        k = n.get('kind')
        if k == 'DeclRefExpr':
            if n['referencedDecl']['id'] in self.cur_mods(h):
                return False
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            return False
        if k in ('ArraySubscriptExpr', 'UnaryOperator') and k == 'ArraySubscriptExpr':
            # block read: stable if no block of that type is written; be conservative
            for m in self.cur_mods(h):
                if isinstance(m, Region):
                    return False
        if k == 'MemberExpr':
            for m in self.cur_mods(h):
                if isinstance(m, tuple) and m[0] == 'f':
                    return False
        return all(self.bound_stable(c, h) for c in inner(n))

    def cur_mods(self, h):
        # the innermost loop being cut
        return self._mods_stack[-1] if getattr(self, '_mods_stack', None) else set()

    def try_unroll(self, n, s, cond, inc, body, is_do, limit=16):
        if cond is None:
            return None
        # only if the condition is decided at every step
        states = [s.copy()]
        outs = []
        obs_mark = len(self.obs)
        log0 = set(self.write_log) if self.write_log is not None else None
        for it in range(limit + 1):
            nxt = []
            for x in states:
                c = tobool_any(self.ev(cond, x))
                c = z3.simplify(c)
                if z3.is_false(c):
                    outs.append(('n', x))
                elif z3.is_true(c) and it < limit:
                    for k, y in self.exec(body, [x]):
                        if k in ('n', 'c'):
                            if inc is not None:
                                self.ev_any(inc, y)
                            nxt.append(y)
                        elif k == 'b':
                            outs.append(('n', y))
                        else:
                            outs.append((k, y))
                else:
                    del self.obs[obs_mark:]
                    if log0 is not None:
                        self.write_log.clear()
                        self.write_log |= log0
                    return None
            states = nxt
            if not states:
                return outs
        del self.obs[obs_mark:]
        return None

    # ------------------------------------------------------------------ hints
    def do_hints(self, hints, st, where, old=None, pre=None, head=None):
        for i, h in enumerate(hints):
            if callable(h):
                h(self, st)
                continue
            h = h.strip()
            nm = '%s/hint%d' % (where, i + 1)
            if h.startswith('drop '):
                # a precondition that is not needed from here on
                f = self.reqf[h[5:]]
                st.pc = [x for x in st.pc if not x.eq(f)]
            elif h == 'forget':
                # what is known only of earlier contents of memory is not needed from here on
                live = set()
                for src in [st, self.entry] + ([st.par.snap0] if st.par is not None and st.par.snap0 is not None else []):
                    for v in src.mem.values():
                        if isinstance(v, z3.ExprRef):
                            live |= free_consts(v)
                st.pc = [x for x in st.pc if not z3_quant(x) or all(c in live or not re.match(r'[MJ]_', c) for c in free_consts(x))]
            elif h.startswith('assert ') and ' by ' in h:
                # proved with the help of further hints, which are then forgotten
                g, rest = h[7:].split(' by ', 1)
                t = st.copy()
                self.do_hints(rest.split(' ;; '), t, nm, old, pre, head)
                self.ob(t, self.spec_bool(g, t, old=old or self.entry, pre=pre, head=head), nm, 'hint')
                st.assume(self.spec_bool(g, st, old=old or self.entry, pre=pre, head=head))
            elif h.startswith('assert '):
                f = self.spec_bool(h[7:], st, old=old or self.entry, pre=pre, head=head)
                self.ob(st, f, nm, 'hint')
                st.assume(f)
            elif h.startswith('when '):
                cnd, rest = h[5:].split(' do ', 1)
                c = self.spec_bool(cnd, st, old=old or self.entry, pre=pre, head=head)
                t = st.copy()
                n0 = len(t.pc)
                t.pc.append(c)
                self.do_hints([rest], t, nm, old, pre, head)
                for f in t.pc[n0 + 1:]:
                    st.assume(z3.Implies(c, f))
            elif h.startswith('apply '):
                self.apply_lemma(h[6:], st, nm, old or self.entry, pre, head)
            elif h.startswith('let '):
                n_, e = h[4:].split('==', 1)
                st.extra[n_.strip()] = self.sev(parse(e), st, old=old or self.entry, pre=pre, head=head)
            elif h.startswith('term '):
                # introduces a term, so that definitions and triggers see it
                t = self.sev(parse(h[5:]), st, old=old or self.entry, pre=pre, head=head)
                f = z3.Function('seen_' + re.sub(r'\W', '_', str(t.sort())), t.sort(), B)
                if st.par is not None:
                    st.par.public.add(f.name())
                st.assume(f(t))
            else:
                raise SpecError('hint %r' % h)

    def apply_lemma(self, text, st, nm, old, pre, head=None):
        m = re.match(r'^forall\s+(\w+(?:\s*,\s*\w+)*)\s+(?:\{(.*?)\}\s+)?in\s+(.*?)\.\.(.*?):\s*(\w+\(.*\))$', text.strip())
        if m:
            vs, pats, lo, hi, call = m.groups()
            vs = [x.strip() for x in vs.split(',')]
            bd = {v: fresh(v + '!q', I) for v in vs}
            ks = list(bd.values())
            lo_ = self.sev(parse(lo), st, old=old, pre=pre, head=head)
            hi_ = self.sev(parse(hi), st, old=old, pre=pre, head=head)
            e = parse(call)
            L = self.reg.lemmas[e[1]]
            args = [self.sev(a, st, old=old, pre=pre, head=head, bound=bd) for a in e[2]]
            self._spec_st = st
            req, ens = self.lemma_inst(L, args)
            rng = z3.And(*[z3.And(lo_ <= k, k < hi_) for k in ks])
            if req is not None:
                self.ob(st, z3.ForAll(ks, z3.Implies(rng, req)), nm + ':' + L.name + ':requires', 'lemma-use')
            ps = []
            if pats:
                ts = [self.sev(parse(x), st, old=old, pre=pre, head=head, bound=bd) for x in pats.split(';')]
                ps = [z3.MultiPattern(*ts) if len(ts) > 1 else ts[0]]
            st.assume(z3.ForAll(ks, z3.Implies(rng, ens), patterns=ps))
            return
        e = parse(text)
        L = self.reg.lemmas[e[1]]
        args = [self.sev(a, st, old=old, pre=pre, head=head) for a in e[2]]
        self._spec_st = st
        req, ens = self.lemma_inst(L, args)
        if req is not None:
            self.ob(st, req, nm + ':' + L.name + ':requires', 'lemma-use')
        st.assume(ens)

    def lemma_inst(self, L, args):
        if len(args) != len(L.params):
            raise SpecError('lemma %s arity' % L.name)
        b = {}
        for (p, s), a in zip(L.params, args):
            if isinstance(a, Ptr):
                a = self.ptr_array(a)
            if SORT[s] == R and isinstance(a, z3.ExprRef) and z3.is_int(a):
                a = toreal(a)
            b[p] = a
        self.lemmas_used = getattr(self, 'lemmas_used', set())
        self.lemmas_used.add(L.name)
        s0 = St()
        req = [self.spec_bool(r, s0, bound=b) for r in L.requires]
        ens = [self.spec_bool(r, s0, bound=b) for r in L.ensures]
        return (z3.And(*req) if req else None), (z3.And(*ens) if len(ens) != 1 else ens[0])

    def ptr_array(self, p, st=None):
        st = st or self._spec_st
        if p.region is None:
            raise SpecError('null pointer used as array')
        if not (z3.is_int_value(z3.simplify(p.off)) and z3.simplify(p.off).as_long() == 0):
            raise SpecError('shifted pointer used as array value: %s' % p)
        return st.mem[p.region]

    def lemma_axiom(self, name):
        L = self.reg.lemmas[name]
        self.lemmas_used = getattr(self, 'lemmas_used', set())
        self.lemmas_used.add(name)
        vs = [z3.Const('%s!%s' % (p, name), SORT[s]) for p, s in L.params]
        b = {p: v for (p, s), v in zip(L.params, vs)}
        s0 = St()
        req = [self.spec_bool(r, s0, bound=b) for r in L.requires]
        ens = [self.spec_bool(r, s0, bound=b) for r in L.ensures]
        body = z3.And(*ens) if len(ens) != 1 else ens[0]
        if req:
            body = z3.Implies(z3.And(*req), body)
        pats = []
        for tr in (L.trigger or []):
            ps = [self.sev(parse(x), s0, bound=b) for x in ([tr] if isinstance(tr, str) else tr)]
            pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
        return [z3.ForAll(vs, body, patterns=pats)]

    def lemma_obligations(self, L):
        """proof obligations of one lemma"""
        self.frames = [Frame(C({}, 'lemma:' + L.name), None, (), 'lemma:' + L.name)]
        self.lemma_nl = L.nl
        self.cur_file, self.cur_line = '', 0
        self.known = {}
        vs = {p: z3.Const(p, SORT[s]) for p, s in L.params}
        st = St()
        self.entry = st
        st.extra = dict(vs)
        for u in L.uses:
            for f in self.lemma_axiom(u):
                st.assume(f)
        for r in L.requires:
            st.assume(self.spec_bool(r, st))
        self.obs.append(Ob('lemma:%s/requires-satisfiable' % L.name, list(st.pc), z3.BoolVal(False), '', 'reach'))
        if L.induct:
            v, base = L.induct, L.base
            x = vs[v]
            # strong induction on v above base: hypothesis for all smaller values
            lo = self.sev(parse(base), st)
            st.assume(x >= lo)
            y = z3.Int(v + '!ih')
            b = dict(vs)
            b[v] = y
            s0 = St()
            s0.extra = b
            req = [self.spec_bool(r, s0) for r in L.requires]
            ens = [self.spec_bool(r, s0) for r in L.ensures]
            hyp = z3.Implies(z3.And(lo <= y, y < x, *req), z3.And(*ens))
            # instances at v-1 only (ground), enough for the recursions used here
            inst = z3.substitute(hyp, (y, x - 1))
            st.assume(inst)
            if getattr(L, 'ih_all', False):
                st.assume(z3.ForAll([y], hyp))
        self.do_hints(L.hints, st, 'proof')
        for j, e in enumerate(L.ensures):
            self.ob(st, self.spec_bool(e, st), 'ensures%d' % (j + 1), 'lemma')

from vc_expr import ExprMixin
from vc_par import ParMixin
from vc_spec import SpecMixin


def tobool_any(v):
    if isinstance(v, z3.ExprRef):
        return tobool(v)
    if isinstance(v, Ptr):
        return z3.BoolVal(v.region is not None)
    if isinstance(v, (ObjPtr, CellPtr, Str)):
        return z3.BoolVal(True)
    raise Unsupported('truth value of %r' % (v,))


class Verifier(ExprMixin, ParMixin, SpecMixin, Exec):
    pass
