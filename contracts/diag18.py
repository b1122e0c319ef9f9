"""Diagonal positions and inverse diagonals (C18)."""
from contract import REG
from csrbase import wf

R, C, V = 'content(rowptr)', 'content(colidx)', 'content(values)'


def lower_first(b):
    """entries stored before a row's diagonal entry lie below the diagonal"""
    return ('forall i {{{R}[i]}} in 0..m: forall j, k {{{C}[j], {C}[k]}} in {R}[i] - {b}..{R}[i + 1] - {b}: '
            '{C}[k] == i + {b} && j < k ==> {C}[j] < i + {b}').format(R=R, C=C, b=b)


def names(p, lo, hi, b):
    """every row that stores a diagonal entry has its position recorded"""
    return ('forall i {{{p}[i]}} in {lo}..{hi}: (exists j {{{C}[j]}} in {R}[i] - {b}..{R}[i + 1] - {b}: {C}[j] == i + {b}) ==> '
            '{R}[i] <= {p}[i] && {p}[i] < {R}[i + 1] && {C}[{p}[i] - {b}] == i + {b}').format(p=p, R=R, C=C, b=b, lo=lo, hi=hi)


def base(c, cfg, **kw):
    b = cfg['base']
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.csr('this', diagptr=cfg['diagptr'], **kw)
    c.known('rowptr[0]', str(b))
    c.req(*wf(base=str(b)))
    c.req(lower_first(b))
    return b


def diag_ptr(c, cfg):
    b = base(c, cfg, values=cfg['values'])
    if cfg['diagptr']:
        c.ens(('existing-positions-kept', 'diagptr == old(diagptr) && (forall i in 0..m: diagptr[i] == old(diagptr[i]))'))
        return
    R_, C_ = 'content(rowptr)', 'content(colidx)'
    p = c.parfor(b).phase()
    p.own('diagptr', 'k', 'k == i')
    p.post(names('content(diagptr)', 'i', 'i + 1', b))
    c.loop(b).inv('%s[i] - %d <= j && j <= %s[i + 1] - %d' % (R_, b, R_, b),
                  'forall k {{{C}[k]}} in {R}[i] - {b}..j: {C}[k] < i + {b}'.format(C=C_, R=R_, b=b))
    c.newarr('diagptr', 'int', 'm')
    c.ens(('positions-name-diagonals', names('content(diagptr)', '0', 'm', b)),
          ('nothing-else-changes', 'rowptr == old(rowptr) && colidx == old(colidx) && values == old(values)'))


REG.fn('_ZN4SpMP3CSR16constructDiagPtrEv', 'LevelSchedule.cpp', 'CSR::constructDiagPtr', diag_ptr,
       configs=[dict(base=b, diagptr=d, values=v) for b in (0, 1) for d in (False, True) for v in (True, False)],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], diagptr=ver.cfg['diagptr'], values=True))


def inverse_diag(c, cfg):
    b = base(c, cfg, idiag=cfg['idiag'])
    if cfg['idiag']:
        c.ens(('existing-inverses-kept', 'idiag == old(idiag) && (forall i in 0..m: idiag[i] == old(idiag[i]))'))
        return
    c.req('forall i {{{R}[i]}} in 0..m: exists j {{{C}[j]}} in {R}[i] - {b}..{R}[i + 1] - {b}: {C}[j] == i + {b}'.format(R=R, C=C, b=b))
    if cfg['diagptr']:
        c.req(names('content(diagptr)', '0', 'm', b))
    p = c.parfor(0).phase()
    p.own('idiag', 'k', 'k == i')
    p.post('content(idiag)[i] == 1.0 / %s[content(diagptr)[i] - %d]' % (V, b))
    c.newarr('idiag', 'double', 'm')
    if not cfg['diagptr']:
        c.newarr('diagptr', 'int', 'm')
    c.ens(('inverses-of-diagonals', '(forall i in 0..m: {C}[content(diagptr)[i] - {b}] == i + {b} && idiag[i] == 1.0 / {V}[content(diagptr)[i] - {b}])'.format(V=V, C=C, b=b)),
          ('positions-name-diagonals', names('content(diagptr)', '0', 'm', b)),
          ('nothing-else-changes', 'rowptr == old(rowptr) && colidx == old(colidx) && values == old(values)' + (' && diagptr == old(diagptr)' if cfg['diagptr'] else '')))


REG.fn('_ZN4SpMP3CSR18computeInverseDiagEv', 'CSR.cpp', 'CSR::computeInverseDiag', inverse_diag,
       configs=[dict(base=b, diagptr=d, idiag=i) for b in (0, 1) for d in (False, True) for i in (False, True)])
