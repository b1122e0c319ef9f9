"""Storage of matrices (C27): what constructors set up, and what releasing gives back."""
from contract import REG

ARR = [('rowptr', 'int', 'm + 1'), ('colidx', 'int', 'nnz'), ('values', 'double', 'nnz'), ('idiag', 'double', 'm'), ('diag', 'double', 'm'),
       ('diagptr', 'int', 'm'), ('extptr', 'int', 'm')]
NAMES = [a[0] for a in ARR]
ANY = {f: 'any' for f in NAMES}
ALWAYS = ('idiag', 'diag', 'diagptr')       # released whoever owns the rest


def empty(c, cfg):
    c.csr('this', **ANY)
    for f in NAMES:
        c.null(f)
    c.assign('ownData_')
    c.ens(('owns-nothing', '!ownData_'))


REG.fn('_ZN4SpMP3CSRC1Ev', 'CSR.cpp', 'CSR::CSR()', empty, configs=[{}])


def sized(c, cfg):
    """fresh blocks of the right sizes, owned"""
    whole = cfg.get('whole')            # a constructor: nothing was there before
    sep = cfg.get('sep', True)
    if whole:
        c.csr('this', **ANY)
    else:
        c.csr('this', **{f: False for f in NAMES})
    for p in ('m', 'n', 'nnz') if whole else ('m', 'nnz', 'createSeparateDiagData'):
        c.scalar(p)
    c.req('0 <= m', '0 <= nnz', 'm + 1 <= INT_MAX')
    if not whole:
        c.known('createSeparateDiagData', sep)
    c.assign('this->m', 'this->ownData_', *(['this->n'] if whole else []))
    for f, t, l in ARR:
        if f == 'extptr':
            if whole:
                c.null('this->extptr')
        elif f in ('idiag', 'diag') and not sep:
            pass
        else:
            c.newarr('this->' + f, t, l)
    c.ens(('dimensions', 'this->m == m' + (' && this->n == n' if whole else '')), ('owns-its-arrays', 'this->ownData_'))


REG.fn('_ZN4SpMP3CSR5allocEiib', 'CSR.cpp', 'CSR::alloc', sized, configs=[dict(sep=s) for s in (True, False)])
REG.fn('_ZN4SpMP3CSRC1Eiii', 'CSR.cpp', 'CSR::CSR(m, n, nnz)', sized, configs=[dict(whole=True)])


def wrapper(c, cfg):
    """the caller's arrays, as they are"""
    c.csr('this', **ANY)
    c.scalar('m').scalar('n')
    c.ghost('nnz')
    c.arr('rowptr', 'int', 'm + 1').arr('colidx', 'int', 'nnz').arr('values', 'double', 'nnz')
    c.req('0 <= m', '0 <= nnz', 'm + 1 <= INT_MAX')
    for f in NAMES:
        c.assign('this->' + f)
    c.assign('this->m', 'this->n', 'this->ownData_')
    c.ens(('dimensions', 'this->m == m && this->n == n'), ('borrows', '!this->ownData_'))
    for f in ('rowptr', 'colidx', 'values'):
        c.ens((f + '-wrapped', 'same_block(this->%s, %s)' % (f, f)))
    for f in ALWAYS + ('extptr',):
        c.ens((f + '-absent', 'isnull(this->%s)' % f))


REG.fn('_ZN4SpMP3CSRC1EiiPiS1_Pd', 'CSR.cpp', 'CSR::CSR(m, n, rowptr, colidx, values)', wrapper, configs=[{}])


def release(c, cfg):
    """owned blocks are released exactly once and forgotten; borrowed ones and those of the pool are left alone"""
    own, pooled, has = cfg['own'], cfg['pooled'], cfg['has']
    c.ghost('nnz')
    c.csr('this', **{f: f in has for f in NAMES})
    c.req('0 <= m', '0 <= nnz', 'm + 1 <= INT_MAX')
    c.known('ownData_', own)
    for f in NAMES:
        if pooled:
            c.null(f)
        elif own or f in ALWAYS:
            c.null(f)
            if f in has:
                c.frees(f)


HAS = [tuple(NAMES), ()] + [tuple(x for x in NAMES if x != f) for f in NAMES] + [(f,) for f in NAMES]
CFGS = [dict(own=o, pooled=p, has=h) for o in (True, False) for p in (False, True) for h in HAS]
REG.fn('_ZN4SpMP3CSR7deallocEv', 'CSR.cpp', 'CSR::dealloc', release, configs=CFGS)
REG.fn('_ZN4SpMP3CSRD1Ev', 'CSR.cpp', 'CSR::~CSR', release, configs=CFGS)


# ---------------------------------------------------------------- coordinate lists
CN = ['rowidx', 'colidx', 'values']


def coo(c, has):
    c.ghost('len')
    c.params.append(('obj', 'this', [(f, 'double' if f == 'values' else 'int', 'len', 'any' if has is None else f not in has) for f in CN],
                     (('m', 'int'), ('n', 'int'), ('nnz', 'int'), ('isSymmetric', 'bool'))))
    for f in CN:
        c.null(f)


def coo_new(c, cfg):
    coo(c, None)
    c.assign('isSymmetric')
    c.ens(('not-symmetric', '!isSymmetric'))


def coo_release(c, cfg):
    coo(c, cfg['has'])
    c.req('0 <= len')
    for f in cfg['has']:
        c.frees(f)


SUB = [tuple(f for k, f in enumerate(CN) if s >> k & 1) for s in range(8)]
REG.fn('_ZN4SpMP3COOC1Ev', 'COO.cpp', 'COO::COO', coo_new, configs=[{}])
REG.fn('_ZN4SpMP3COO7deallocEv', 'COO.cpp', 'COO::dealloc', coo_release, configs=[dict(has=h) for h in SUB])
REG.fn('_ZN4SpMP3COOD1Ev', 'COO.cpp', 'COO::~COO', coo_release, configs=[dict(has=h) for h in SUB])
