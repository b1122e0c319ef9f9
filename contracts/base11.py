"""Index base conversion and copying (C11)."""
from contract import REG
from csrbase import wf
import itertools

OPT = ('values', 'diagptr', 'idiag', 'diag', 'extptr')

FULL = [dict(src=s, diagptr=d, extptr=e) for s in (0, 1) for d in (False, True) for e in (False, True)]


def convert(dst):
    def build(c, cfg):
        b = cfg['src']
        c.ghost('nnz')
        c.let('ghost:nnz', 'rowptr[m] - rowptr[0]')
        c.csr('this', values='either', diagptr=cfg['diagptr'], extptr=cfg['extptr'])
        c.known('rowptr[0]', str(b))
        c.req(*wf(base=str(b)))
        c.req('forall i {diagptr[i]} in 0..m: INT_MIN < diagptr[i] && diagptr[i] < INT_MAX' if cfg['diagptr'] else 'true')
        c.req('forall i {extptr[i]} in 0..m: INT_MIN < extptr[i] && extptr[i] < INT_MAX' if cfg['extptr'] else 'true')
        d = dst - b
        sh = ' + %d' % d if d > 0 else ' - %d' % -d if d else ''
        arrs = [('rowptr', 'm + 1', 'row-pointers'), ('colidx', 'nnz', 'column-indices')]
        arrs += [('diagptr', 'm', 'diagonal-positions')] if cfg['diagptr'] else []
        arrs += [('extptr', 'm', 'external-positions')] if cfg['extptr'] else []
        for a, n, nm in arrs:
            if d:
                c.assign(a + '[k]')
            c.ens((nm + '-shifted' if d else nm + '-unchanged', 'forall k in 0..%s: %s[k] == old(%s[k])%s' % (n, a, a, sh)))
        c.ens(('base', 'rowptr[0] == %d' % dst))
    return build


def conversion(dst):
    def cfg(ver, st, vals):
        has = lambda f: getattr(st.env[('f', ver.call_this.obj, f)], 'region', None) is not None
        return dict(src=0 if dst else ver.cfg['base'], diagptr=has('diagptr'), extptr=has('extptr'))
    return cfg


for dst in (0, 1):
    REG.fn('_ZN4SpMP3CSR18make%dBasedIndexingEv' % dst, 'CSR.cpp', 'CSR::make%dBasedIndexing' % dst, convert(dst),
           configs=FULL, call_cfg=conversion(dst))


def copy_ctor(c, cfg):
    b = str(cfg['base'])
    c.ghost('nnz')
    c.csr('this', values='any', rowptr='any', colidx='any', idiag='any', diag='any', diagptr='any', extptr='any')
    c.csr('A', **{f: cfg[f] for f in OPT})
    c.req(*wf('A', base=b))
    arrs = [('rowptr', 'm + 1', 'row-pointers'), ('colidx', 'nnz', 'column-indices'), ('values', 'nnz', 'values'),
            ('diagptr', 'm', 'diagonal-positions'), ('idiag', 'm', 'inverse-diagonals'), ('diag', 'm', 'diagonals'), ('extptr', 'm', 'external-positions')]
    for f in ('rowptr', 'colidx', 'values', 'diagptr', 'idiag', 'diag', 'extptr', 'm', 'n', 'ownData_'):
        c.assign(f)
    c.ens(('dimensions', 'm == A->m && n == A->n'), ('owns-its-arrays', 'ownData_'))
    for a, n, nm in arrs:
        have = cfg.get(a, True)
        if have:
            c.ens((nm + '-equal', '!isnull(%s) && (forall k in 0..%s: %s[k] == A->%s[k])' % (a, n, a, a)),
                  (nm + '-independent', '!same_block(%s, A->%s) && len(%s) >= %s' % (a, a, a, n)))
        else:
            c.ens((nm + '-absent', 'isnull(%s)' % a))


REG.fn('_ZN4SpMP3CSRC1ERKS0_', 'CSR.cpp', 'CSR::CSR(const CSR&)', copy_ctor,
       configs=[dict(zip(OPT, p), base=b) for b in (0, 1) for p in itertools.product((False, True), repeat=len(OPT))])
