"""Shared vocabulary about matrices."""
from contract import REG

KMAX = 'INT_MAX'


def wf(A='', nnz='nnz', base='base', cols=True, nt=False):
    """well-formed CSR: row pointers from base to base+nnz, monotone; column indices in range"""
    p = A + '->' if A else ''
    r = ['0 <= %sm' % p, '0 <= %sn' % p, '0 <= %s' % nnz, '0 <= %s <= 1' % base,
         '%srowptr[0] == %s' % (p, base), '%srowptr[%sm] == %s + %s' % (p, p, nnz, base),
         'forall i, j {P[i], P[j]} in 0..Q: i <= j ==> P[i] <= P[j]'.replace('P', p + 'rowptr').replace('Q', p + 'm + 1'),
         '%s + %s + 1 <= INT_MAX' % (nnz, base), '%sm + %s + 1 <= INT_MAX' % (p, base), '%sn + %s + 1 <= INT_MAX' % (p, base)]
    if cols:
        r.append('forall k {P[k]} in 0..Q: B <= P[k] && P[k] < N + B'.replace('P', p + 'colidx').replace('Q', nnz).replace('N', p + 'n').replace('B', base))
    return r


def matrix(c, A='this', nnz='nnz', base=0, cols=True, **kw):
    c.ghost(nnz)
    c.csr(A, nnz=nnz, **kw)
    return c
