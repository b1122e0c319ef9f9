"""Contract objects: what /verif/contracts/*.py fill in."""


class LoopSpec:
    def __init__(self, label):
        self.label = label
        self.invs = []        # (name, expr)
        self.hints = {'entry': [], 'body': [], 'end': [], 'exit': []}
        self.variant = None
        self.unroll = None
        self.assigns = []
        self.ghosts = []      # (name, sort, init expr, step expr)

    def inv(self, *exprs):
        for e in exprs:
            self.invs.append(('inv%d' % (len(self.invs) + 1), e))
        return self

    def hint(self, where, *h):
        self.hints[where].extend(h)
        return self


class Phase:
    """one barrier-to-barrier segment (or one iteration of a worksharing loop)"""

    def __init__(self, label):
        self.label = label
        self.owns = []        # (pointer expr, index name, condition)
        self.owncells = []    # (lvalue expr, condition)
        self.racy = []        # (pointer expr, index name, condition, value)
        self.posts = []
        self.covers = []      # (var, part function expr of t, lo, hi, body)
        self.local = set()    # of those, proved of the thread's own memory first
        self.exports = []     # (export name, local expr)
        self.hints = {'end': [], 'after': []}

    def own(self, ptr, k, cond):
        self.owns.append((ptr, k, cond))
        return self

    def owncell(self, lv, cond):
        self.owncells.append((lv, cond))
        return self

    def race(self, ptr, k, cond, value):
        import re
        assert not re.search(r'\btid\b', cond + ' ' + value), 'a shared element and its value are the same for all threads'
        self.racy.append((ptr, k, cond, value))
        return self

    def post(self, *e):
        self.posts.extend(e)
        return self

    def cover(self, var, part, lo, hi, body, key=None, trigger=None, local=False):
        """forall var with part(t) <= key < part(t+1): body, for every thread; hence for key in lo..hi (key: var itself)
        local: first proved of the thread's own memory, then (from that and what held at the start of the phase) of the joined memory"""
        self.covers.append((var, part, lo, hi, body, key, trigger))
        if local:
            self.local.add(len(self.covers) - 1)
        return self

    def export(self, name, expr, sort='int'):
        self.exports.append((name, expr, sort))
        return self

    def hint(self, where, *h):
        self.hints[where].extend(h)
        return self


class ParSpec:
    def __init__(self, label):
        self.label = label
        self.phases = []
        self.flags = {}       # variable name -> (value written, justification)
        self.reds = {}        # variable name -> export name
        self.nt = None

    def phase(self):
        p = Phase('%s.phase%d' % (self.label, len(self.phases) + 1))
        self.phases.append(p)
        return p

    def flag(self, name, value, why):
        self.flags[name] = (value, why)
        return self

    def reduce(self, name, export):
        self.reds[name] = export
        return self


class C:
    """one contract, for one configuration"""

    def __init__(self, cfg, label):
        self.cfg = cfg
        self.label = label
        self.params = []      # declarations in order
        self.ghosts = []
        self.reqs = []
        self.enss = []
        self.assigns = []
        self.loops = {}
        self.pars = {}
        self.parfors = {}
        self.uses = []
        self.knowns = []
        self.axioms = []
        self.hints = {'entry': [], 'exit': []}
        self.collective = None
        self.noinline = set()
        self.inline_over = set()
        self.tracked = []
        self.lets = {}
        self.lows = {}        # array parameter -> first element the function may touch
        self.nl = 'uf'
        self.rels = []
        self.callers = None
        self.caller_uses = []
        self.private_arrays = []
        self.aliasing = set()
        self.freeing = []
        self.news = []
        self.nulls = []
        self.stream = False
        self.asserts = 'assume'
        self.file_reads = False
        self.decides = False    # ask a solver which way branches go while generating (each answer becomes an obligation)
        self.result = None      # a constant the function returns

    def arr(self, name, elem, length, null=False, alias=None, lo=None):
        if lo is not None:
            self.lows[name] = str(lo)
        self.params.append(('arr', name, elem, length, null, alias))
        return self

    def cell(self, name, shared=False):
        self.params.append(('cell', name, shared))
        return self

    def obj(self, name, fields, ints=()):
        self.params.append(('obj', name, fields, ints))
        return self

    def csr(self, name, nnz='nnz', values=True, idiag='either', diag='either', diagptr='either', extptr='either',
            m=None, n=None, rowptr=True, colidx=True, share=None):
        """a CSR object; every array it owns is a separate block of the stated length"""
        pre = name + '->'

        def nul(x):
            return x if x in ('any', 'either') else not x
        f = [('rowptr', 'int', pre + 'm + 1', nul(rowptr)), ('colidx', 'int', nnz, nul(colidx)),
             ('values', 'double', nnz, nul(values)), ('idiag', 'double', pre + 'm', nul(idiag)),
             ('diag', 'double', pre + 'm', nul(diag)), ('diagptr', 'int', pre + 'm', nul(diagptr)),
             ('extptr', 'int', pre + 'm', nul(extptr))]
        self.params.append(('obj', name, f, (('m', 'int'), ('n', 'int'), ('ownData_', 'bool'))))
        return self

    def may_alias(self, a, b):
        return (a, b) in self.aliasing or (b, a) in self.aliasing

    def scalar(self, name):
        self.params.append(('scalar', name))
        return self

    def ghost(self, name, sort='int'):
        self.ghosts.append((name, sort))
        return self

    def let(self, name, expr):
        self.lets[name] = expr
        return self

    def known(self, expr, value):
        self.knowns.append((expr, value))
        return self

    def req(self, *e):
        self.reqs.extend(e)
        return self

    def ens(self, *e):
        self.enss.extend(e)
        return self

    def assign(self, *e):
        self.assigns.extend(e)
        return self

    def newarr(self, name, elem, length):
        """on return the field names a new block, nobody else's, of at least this length"""
        self.news.append((name, elem, length))
        self.assigns.append(name)
        return self

    def file(self, opens=False, reads=False):
        """opens: assume that opening it succeeds; the function opens one file: FI, FD, flen are its contents and length, fstate 0 until opened, 1 when that failed, 2 open, 3 closed"""
        self.file_reads = reads         # never written
        self.stream = 'open' if opens == 'open' else 'opens' if opens else True
        return self

    def null(self, name):
        """on return the field is null"""
        self.nulls.append(name)
        self.assigns.append(name)
        return self

    def frees(self, *e):
        """blocks that are released, on every path"""
        self.freeing.extend(e)
        return self

    def loop(self, i):
        return self.loops.setdefault(i, LoopSpec('loop%s' % i))

    def par(self, i=0):
        return self.pars.setdefault(i, ParSpec('par%s' % i))

    def parfor(self, i=0):
        return self.parfors.setdefault(i, ParSpec('parfor%s' % i))

    def use(self, *names):
        self.uses.extend(names)
        return self

    def axiom(self, *e):
        self.axioms.extend(e)
        return self

    def rel(self, *e):
        """relates this thread's run to the run of thread tid+1: next(x)"""
        self.rels.extend(e)
        return self

    def for_callers(self, ens, uses=()):
        self.callers = list(ens)
        self.caller_uses = list(uses)
        return self

    def hint(self, where, *h):
        self.hints[where].extend(h)
        return self

    def track(self, *ptrs):
        self.tracked.extend(ptrs)
        return self


class Fn:
    def __init__(self, mangled, file, label, build, configs=None, mode='verify', call_cfg=None,
                 spmd=False, doc='', quick=None):
        self.mangled, self.file, self.label, self.build = mangled, file, label, build
        self.configs = configs or [{}]
        self.mode = mode
        self.call_cfg = call_cfg
        self.spmd = spmd
        self.doc = doc
        self.quick = [c for c in self.configs if quick is None or quick(c)]     # verified on every change; thorough runs: all

    def make(self, cfg):
        c = C(cfg, self.label)
        self.build(c, cfg)
        return c


class Lemma:
    """ensures follows from requires, for all parameters; proved by induction or directly"""

    def __init__(self, name, params, requires, ensures, induct=None, base=None, hints=(), uses=(), trigger=None, nl='uf'):
        self.name, self.params = name, params
        self.nl = nl        # 'real': products are the multiplication of the solver, not an uninterpreted function
        self.requires, self.ensures = requires, ensures
        self.induct, self.base = induct, base
        self.hints, self.uses, self.trigger = list(hints), list(uses), trigger


class Logic:
    """logic function. body None: uninterpreted. rec: unfolded on ground terms"""

    def __init__(self, name, params, ret, body=None, rec=False):
        self.name, self.params, self.ret, self.body, self.rec = name, params, ret, body, rec


class Registry:
    def __init__(self):
        self.fns = {}
        self.lemmas = {}
        self.logics = {}
        self.builtin_posts = {}

    def fn(self, *a, **k):
        f = Fn(*a, **k)
        self.fns[f.mangled] = f
        return f

    def lemma(self, *a, **k):
        l = Lemma(*a, **k)
        assert l.name not in self.lemmas, l.name
        self.lemmas[l.name] = l
        return l

    def logic(self, *a, **k):
        l = Logic(*a, **k)
        assert l.name not in self.logics, l.name
        self.logics[l.name] = l
        return l


REG = Registry()
