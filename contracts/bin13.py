"""Binary files (C13).  A file is a sequence of 4-byte words: the identification, m, n, nnz, m row
lengths, nnz columns (from 0), and nnz values of two words each."""
from contract import REG
from csrbase import wf
import base11

ID = 1211216
CSZ = [('F', 'arr'), ('R', 'arr'), ('m', 'int'), ('i', 'int')]
# row lengths of a stored matrix add up to its row pointers
REG.lemma('lengths_sum', CSZ, ['forall k {F[k]} in 4..m + 4: F[k] == R[k - 3] - R[k - 4]', '0 <= i', 'i <= m'], ['asum(F, 4, i + 4) == R[i] - R[0]'], induct='i', base='0',
          hints=['when i > 0 do term F[i + 3]'])


def stored(M, N, Z, row, col, val):
    """the file holds this matrix"""
    return [('header', 'FI[0] == %d && FI[1] == %s && FI[2] == %s && FI[3] == %s' % (ID, M, N, Z)),
            ('row-lengths', 'forall k {FI[k]} in 4..%s + 4: FI[k] == %s' % (M, row('(k - 4)'))),
            ('columns', 'forall k {{FI[k]}} in 4 + {m}..4 + {m} + {z}: FI[k] == {c}'.format(m=M, z=Z, c=col('(k - 4 - %s)' % M))),
            ('values', 'forall k {{{v}}} in 0..{z}: FD[4 + {m} + {z} + 2 * k] == {v}'.format(m=M, z=Z, v=val('k'))),
            ('length', 'flen == 4 + %s + 3 * %s' % (M, Z))]


def store(c, cfg):
    b = cfg['base']
    c.file()
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.csr('this', diagptr=cfg['diagptr'], extptr=cfg['extptr'])
    c.known('rowptr[0]', str(b))
    c.req(*wf(base=str(b)))
    for f in ('diagptr', 'extptr'):
        if cfg[f]:
            c.req('forall i {%s[i]} in 0..m: INT_MIN + 1 < %s[i] && %s[i] < INT_MAX' % (f, f, f))
    if b:
        for f, n in (('rowptr', 'm + 1'), ('colidx', 'nnz'), ('diagptr', 'm'), ('extptr', 'm')):
            if cfg.get(f, True):
                c.assign(f + '[k]')
                c.ens((f + '-as-it-was', 'forall k {%s[k]} in 0..%s: %s[k] == old(%s[k])' % (f, n, f, f)))
    R, C, V = ['old(content(%s))' % f for f in ('rowptr', 'colidx', 'values')]
    c.loop(0).inv('0 <= i && i <= m', 'forall k {rownnz[k]} in 0..i: rownnz[k] == %s[k + 1] - %s[k]' % (R, R))
    c.ens(('closed', 'fstate == 1 || fstate == 3'))
    for nm, e in stored('m', 'n', 'nnz', lambda k: '%s[%s + 1] - %s[%s]' % (R, k, R, k), lambda k: '%s[%s] - %d' % (C, k, b), lambda k: '%s[%s]' % (V, k)):
        c.ens((nm, 'fstate == 3 ==> ' + ('(%s)' % e)))


REG.fn('_ZN4SpMP3CSR8storeBinEPKc', 'CSR.cpp', 'CSR::storeBin', store,
       configs=[dict(base=b, diagptr=d, extptr=e) for b in (0, 1) for d in (True, False) for e in (True, False)])

NN = ['forall k {F[k]} in 4..m + 4: 0 <= F[k]', '0 <= x', 'x <= i', 'i <= m']
REG.lemma('asum_grow', [('F', 'arr'), ('m', 'int'), ('x', 'int'), ('i', 'int')], NN, ['asum(F, 4, x + 4) <= asum(F, 4, i + 4)'], induct='i', base='x')
REG.lemma('asum_mono', [('F', 'arr'), ('m', 'int'), ('x', 'int'), ('i', 'int')], [NN[0]], ['0 <= x && x <= i && i <= m ==> asum(F, 4, x + 4) <= asum(F, 4, i + 4)'],
          hints=['when 0 <= x && x <= i && i <= m do apply asum_grow(F, m, x, i)'])


def load(c, cfg):
    """loads what storeBin promises to store; M, N, Z: the matrix in the file"""
    b, used = cfg['base'], cfg['used']
    c.file(opens=True)
    for g in 'MNZ':
        c.ghost(g)
    c.ghost('nnz')
    c.csr('this', nnz='nnz', m=None, rowptr=used, colidx=used, values=used, idiag=used, diag=used, diagptr=used, extptr=used)
    c.known('ownData_', used)
    c.known('base', b)
    if used:
        c.req('0 <= m')
    c.req('0 <= M', '0 <= N', '0 <= Z', 'M + 1 <= INT_MAX', 'N + 1 <= INT_MAX', 'Z + 1 <= INT_MAX')
    c.req('FI[0] == %d && FI[1] == M && FI[2] == N && FI[3] == Z' % ID, 'flen == 4 + M + 3 * Z')
    c.req('forall k {FI[k]} in 4..M + 4: 0 <= FI[k]', 'asum(FI, 4, M + 4) == Z',
          'forall k {FI[k]} in 4 + M..4 + M + Z: 0 <= FI[k] && FI[k] < N')
    if b:
        # (the position of a row without diagonal entry is not set, so it cannot be shifted)
        c.ghost('W', 'arr')
        c.req('forall q {W[q]} in 0..M: asum(FI, 4, q + 4) <= W[q] && W[q] < asum(FI, 4, q + 5) && FI[4 + M + W[q]] == q')
    R = 'asum(FI, 4, %s + 4)'
    c.null('extptr')
    for f in ('m', 'n', 'ownData_'):
        c.assign(f)
    for f, t, l in (('rowptr', 'int', 'M + 1'), ('colidx', 'int', 'Z'), ('values', 'double', 'Z'), ('diagptr', 'int', 'M'), ('idiag', 'double', 'M'), ('diag', 'double', 'M')):
        c.newarr(f, t, l)
        if used:
            c.frees(f)
    if used:
        c.frees('extptr')
    rp, ci, va = 'content(rowptr)', 'content(colidx)', 'content(values)'
    c.loop(0).inv('1 <= i && (i <= M || M == 0)', 'forall k {%s[k]} in 0..i + 1: k <= M ==> %s[k] == %s' % (rp, rp, R % 'k'), 'forall k {%s[k]} in i + 1..M + 1: %s[k] == FI[k + 3]' % (rp, rp))
    c.loop(0).hint('entry', 'term ' + R % '0', 'term ' + R % '1')
    c.loop(0).hint('body', 'apply asum_grow(FI, M, i + 1, M)', 'apply asum_grow(FI, M, 0, i)', 'term ' + R % '0', 'term ' + R % 'i', 'term ' + R % '(i + 1)', 'term FI[i + 4]')
    c.loop(0).hint('exit', 'assert forall k {%s[k]} in 0..M + 1: %s[k] == %s' % (rp, rp, R % 'k'),
                   'apply forall x, y {%s[x]; %s[y]} in 0..M + 1: asum_mono(FI, M, x, y)' % (rp, rp))
    # diagonals
    p = c.parfor(0).phase()
    for f in ('diagptr', 'idiag', 'diag'):
        p.own(f, 'k', 'k == i')
    diag = lambda i, hi, d=0: ('(exists j {{{C}[j]}} in {R}[{i}] - {d}..{hi}: {C}[j] == {i} + {d}) ==> {R}[{i}] <= diagptr[{i}] && diagptr[{i}] - {d} < {hi} && {C}[diagptr[{i}] - {d}] == {i} + {d} && '
                               'diag[{i}] == {V}[diagptr[{i}] - {d}] && idiag[{i}] == 1.0 / {V}[diagptr[{i}] - {d}]').format(C=ci, R=rp, V=va, i=i, hi=hi, d=d)
    c.loop(1).inv('%s[i] <= j && j <= %s[i + 1]' % (rp, rp), diag('i', 'j'))
    p.post(diag('i', '%s[i + 1]' % rp))
    if b:
        c.loop(1).inv('W[i] < j ==> %s[i] <= diagptr[i] && diagptr[i] < j' % rp)
        c.loop(1).hint('entry', 'term W[i]', 'term %s[W[i]]' % ci)
        c.loop(1).hint('body', 'term W[i]', 'term %s[W[i]]' % ci)
        p.post('0 <= diagptr[i] && diagptr[i] < Z')
    c.ens(('dimensions', 'm == M && n == N'), ('closed', 'fstate == 3'),
          ('row-pointers', 'forall k {%s[k]} in 0..m + 1: %s[k] == %s + %d' % (rp, rp, R % 'k', b)),
          ('columns', 'forall k {%s[k]} in 0..Z: %s[k] == FI[4 + M + k] + %d' % (ci, ci, b)),
          ('values', 'forall k {%s[k]} in 0..Z: %s[k] == FD[4 + M + Z + 2 * k]' % (va, va)),
          ('diagonals', 'forall i {diagptr[i]} in 0..m: ' + diag('i', '%s[i + 1] - %d' % (rp, b), b)))

REG.fn('_ZN4SpMP3CSR7loadBinEPKci', 'CSR.cpp', 'CSR::loadBin', load, configs=[dict(base=b, used=u) for b in (0, 1) for u in (False, True)])
