"""Matrix queries (C12)."""
from contract import REG
from csrbase import wf

R, C, V, X = 'content(rowptr)', 'content(colidx)', 'content(values)', 'content(extptr)'


def mat(c, cfg, **kw):
    b = cfg.get('base', 0)
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    kw.setdefault('values', 'either')
    c.csr('this', **kw)
    c.known('rowptr[0]', str(b))
    c.req(*wf(base=str(b)))
    c.req('nnz + %d + max_threads <= INT_MAX' % b)
    c.use('LB_ax', 'LB_mono')
    return b


def max_degree(c, cfg):
    mat(c, cfg)
    best = 'D == 0 || (exists k in 0..N: rowptr[k + 1] - rowptr[k] == D)'
    c.loop(0).inv('0 <= i <= m', '0 <= max_degree', 'forall k {rowptr[k]} in 0..i: rowptr[k + 1] - rowptr[k] <= max_degree',
                  best.replace('D', 'max_degree').replace('N', 'i'))
    c.ens(('no-row-is-longer', 'forall k {rowptr[k]} in 0..m: rowptr[k + 1] - rowptr[k] <= result'),
          ('some-row-attains-it', best.replace('D', 'result').replace('N', 'm')))


REG.fn('_ZNK4SpMP3CSR12getMaxDegreeEv', 'CSR.cpp', 'CSR::getMaxDegree', max_degree, configs=[dict(base=0), dict(base=1)])


def bandwidth(c, cfg):
    b = mat(c, cfg)
    inrow = '{R}[i - {b}] - {b} <= j && j < {R}[i - {b} + 1] - {b}'.format(R=R, b=b)
    dist = 'abs({C}[j] - i)'.format(C=C)

    def upper(lo, hi, w):
        return 'forall i in %s..%s, j in 0..nnz {%s[i - %d], %s[j]}: %s ==> %s <= %s' % (lo, hi, R, b, C, inrow, dist, w)

    def attained(lo, hi, w):
        return '%s == INT_MIN || (exists i in %s..%s, j in 0..nnz {%s[i - %d], %s[j]}: %s && %s == %s)' % (w, lo, hi, R, b, C, inrow, dist, w)
    c.loop(0).inv('iBegin <= i && (iBegin <= iEnd ==> i <= iEnd)', upper('iBegin', 'i', 'bw'), attained('iBegin', 'i', 'bw'))
    row = '{R}[i - {b}] <= j && j <= {R}[i - {b} + 1]'.format(R=R, b=b)
    c.loop(1).inv(row, upper('iBegin', 'i', 'bw'),
                  'forall k in {R}[i - {b}] - {b}..j - {b} {{{C}[k]}}: abs({C}[k] - i) <= bw'.format(R=R, C=C, b=b),
                  attained('iBegin', 'i + 1', 'bw'))
    p = c.par(0).phase()
    L = 'LB(%s, m, nt, tid)' % R
    p.post(attained('%d' % b, 'm + %d' % b, 'red_bw[tid]'))
    p.cover('i', L, '0', 'm', 'exists t in 0..nt {red_bw[t]}: forall j in %s[i] - %d..%s[i + 1] - %d {%s[j]}: abs(%s[j] - (i + %d)) <= red_bw[t]' % (R, b, R, b, C, C, b))
    c.ens(('no-entry-is-farther', upper(str(b), 'm + %d' % b, 'result')), ('some-entry-attains-it', attained(str(b), 'm + %d' % b, 'result')))


REG.fn('_ZNK4SpMP3CSR12getBandwidthEv', 'CSR.cpp', 'CSR::getBandwidth', bandwidth, configs=[dict(base=0), dict(base=1)])


def row(i, b):
    return '{R}[{i}] - {b}..{R}[{i} + 1] - {b}'.format(R=R, b=b, i=i)


def zero_diag(c, cfg):
    b = mat(c, cfg, values=cfg['values'])
    nz = ' && %s[j] != 0.0' % V if cfg['values'] else ''

    def has(i):
        return '(exists j {%s[j]} in %s: %s[j] == %s + %d%s)' % (C, row(i, b), C, i, b, nz)
    p = c.par(0)
    p.flag('hasZeroDiag', True, '!(forall i {%s[i]} in 0..m: %s)' % (R, has('i')))
    p.phase().cover('i', 'LB(%s, m, nt, tid)' % R, '0', 'm', 'final_hasZeroDiag || ' + has('i'), trigger='%s[i]' % R)
    c.loop(0).inv('iBegin <= i && (iBegin <= iEnd ==> i <= iEnd)',
                  'forall k {%s[k]} in iBegin - %d..i - %d: final_hasZeroDiag || %s' % (R, b, b, has('k')))
    c.loop(1).inv('{R}[i - {b}] <= j && j <= {R}[i - {b} + 1]'.format(R=R, b=b), '!hasDiag',
                  'forall k {{{C}[k]}} in {R}[i - {b}] - {b}..j - {b}: !({C}[k] == i{nz})'.format(C=C, R=R, b=b, nz=nz.replace('[j]', '[k]')))
    c.ens(('true-means-some-row-lacks-it', 'result ==> !(forall i {%s[i]} in 0..m: %s)' % (R, has('i'))),
          ('false-means-every-row-has-it', '!result ==> (forall i {%s[i]} in 0..m: %s)' % (R, has('i'))))


REG.fn('_ZNK4SpMP3CSR11hasZeroDiagEv', 'CSR.cpp', 'CSR::hasZeroDiag', zero_diag,
       configs=[dict(base=b, values=v) for b in (0, 1) for v in (True, False)])


def symmetric(c, cfg):
    """every entry of a row before its extptr, off the diagonal and in a column that is a row, has its mirror image"""
    vals, ext, chk, prt, sq = cfg['values'], cfg['ext'], cfg['check'], cfg['print'], cfg['square']
    c.scalar('checkValues').scalar('printFirstNonSymmetry').known('checkValues', chk)
    c.known('printFirstNonSymmetry', prt)
    b = mat(c, cfg, values=vals, extptr=ext)
    c.req('m == n' if sq else 'm != n', 'm + max_threads <= INT_MAX')
    end = (lambda i: '%s[%s]' % (X, i)) if ext else (lambda i: '%s[%s + 1]' % (R, i))
    if ext:
        c.req('forall i {%s[i]} in 0..m: %s[i] <= %s[i] && %s[i] <= %s[i + 1]' % (X, R, X, X, R))

    def inrow(i, j):
        return '%s[%s] - %d <= %s && %s < %s - %d' % (R, i, b, j, j, end(i), b)

    # distinct columns within a row
    c.req('forall i {%s[i]} in 0..m: forall j, k {%s[j], %s[k]} in %s[i] - %d..%s - %d: j != k ==> %s[j] != %s[k]'
          % (R, C, C, R, b, end('i'), b, C, C))

    def ok(i, j):
        """i: row, j: entry, both counted from zero"""
        col = '%s[%s]' % (C, j)
        eq = ' && %s[k] == %s[%s]' % (V, V, j) if chk and vals else ''
        z = '%s - %d' % (col, b)
        return '({col} == {i} + {b} || {col} < {b} || {col} >= m + {b} || (exists k {{{C}[k]}} in {R}[{z}] - {b}..{e} - {b}: {C}[k] == {i} + {b}{eq}))'.format(
            col=col, i=i, b=b, C=C, R=R, z=z, e=end(z), eq=eq)

    def rows(lo, hi, other=''):
        return 'forall i {%s[i]} in %s..%s: forall j {%s[j]} in %s[i] - %d..%s - %d: %s%s' % (R, lo, hi, C, R, b, end('i'), b, other, ok('i', 'j'))
    ALL = rows('0', 'm')
    if not sq and not ext:
        c.ens(('not-square-is-not-symmetric', '!result'))
        return
    if not prt:
        p = c.par(0)
        p.flag('isSymmetric', False, '!(%s)' % ALL)
        p.phase().cover('i', 'SP(m, nt, tid)', '0', 'm',
                        '!final_isSymmetric || (forall j {%s[j]} in %s[i] - %d..%s - %d: %s)' % (C, R, b, end('i'), b, ok('i', 'j')), trigger='%s[i]' % R)
        c.use('SP_ax', 'SP_mono')
        l, lo, hi, esc = 0, 'begin', 'end', '!final_isSymmetric || '
        c.loop(0).inv('begin <= i && (begin <= end ==> i <= end)')
    else:
        l, lo, hi, esc = 3, str(b), 'm + %d' % b, ''
        c.loop(3).inv('%d <= i <= m + %d' % (b, b))
    c.loop(l).inv(rows('%s - %d' % (lo, b), 'i - %d' % b, esc))
    c.loop(l + 1).inv('%s[i - %d] <= j && j <= %s' % (R, b, end('i - %d' % b)),
                      'forall j2 {{{C}[j2]}} in {R}[i - {b}] - {b}..j - {b}: {esc}{ok}'.format(C=C, R=R, b=b, esc=esc, ok=ok('i - %d' % b, 'j2')))
    c.loop(l + 2).inv('{R}[c - {b}] <= k && k <= {e}'.format(R=R, b=b, e=end('c - %d' % b)), '!hasPair',
                      'forall k2 {{{C}[k2]}} in {R}[c - {b}] - {b}..k - {b}: {C}[k2] != i'.format(C=C, R=R, b=b))
    c.ens(('true-means-symmetric', 'result ==> (%s)' % ALL), ('false-means-not-symmetric', '!result ==> !(%s)' % ALL))


SYM = [dict(base=b, values=v, ext=e, check=k, print=p, square=q) for b in (0, 1) for v, k in ((True, True), (True, False), (False, True))
       for e in (False, True) for p in (False, True) for q in (True, False)]
REG.fn('_ZNK4SpMP3CSR11isSymmetricEbb', 'CSR.cpp', 'CSR::isSymmetric', symmetric, configs=SYM)


def equals(c, cfg):
    b, b2, v, v2 = cfg['base'], cfg['base2'], cfg['values'], cfg['values2']
    c.ghost('nnz').ghost('nnz2')
    c.csr('this', values=v)
    c.csr('A', nnz='nnz2', values=v2)
    c.known('rowptr[0]', str(b)).known('A->rowptr[0]', str(b2))
    c.req(*wf(base=str(b)))
    c.req(*wf('A', nnz='nnz2', base=str(b2)))
    c.scalar('print')
    same = ['m == A->m', 'n == A->n', 'nnz == nnz2', '(forall i {%s[i]} in 0..m + 1: %s[i] == A->rowptr[i])' % (R, R),
            '(forall j {%s[j]} in 0..nnz: %s[j] == A->colidx[j])' % (C, C)]
    if v and v2:
        same.append('(forall j {%s[j]} in 0..nnz: %s[j] == A->values[j])' % (V, V))
    if b != b2 or v != v2:
        c.ens(('different-bases-or-kinds-differ', '!result'))
        return
    c.loop(0).inv('0 <= i <= m', 'forall k {%s[k]} in 0..i: %s[k] == A->rowptr[k]' % (R, R),
                  'forall k {%s[k]} in 0..%s[i] - %d: %s[k] == A->colidx[k]' % (C, R, b, C))
    c.loop(1).inv('%s[i] - %d <= j <= %s[i + 1] - %d' % (R, b, R, b), 'forall k {%s[k]} in 0..j: %s[k] == A->colidx[k]' % (C, C))
    if v:
        c.loop(0).inv('forall k {%s[k]} in 0..%s[i] - %d: %s[k] == A->values[k]' % (V, R, b, V))
        c.loop(1).inv('forall k {%s[k]} in 0..j: %s[k] == A->values[k]' % (V, V))
    c.ens(('true-means-equal', 'result ==> ' + ' && '.join(same)), ('false-means-different', ' && '.join(same) + ' ==> result'))


REG.fn('_ZNK4SpMP3CSR6equalsERKS0_b', 'CSR.cpp', 'CSR::equals', equals,
       configs=[dict(base=b, base2=b2, values=v, values2=v2) for b in (0, 1) for b2 in (0, 1) for v in (True, False) for v2 in (True, False)])

REG.lemma('asum_bound', [('A', 'arr'), ('lo', 'int'), ('n', 'int')], ['lo <= n', 'forall k {A[k]} in lo..n: 0 <= A[k] && A[k] <= INT_MAX'],
          ['0 <= asum(A, lo, n)', 'asum(A, lo, n) <= (n - lo) * INT_MAX'], induct='n', base='lo', trigger=['asum(A, lo, n)'])
REG.lemma('asum_split', [('A', 'arr'), ('lo', 'int'), ('hi', 'int')], ['0 <= lo <= hi'],
          ['asum(A, 0, hi) == asum(A, 0, lo) + asum(A, lo, hi)'], induct='hi', base='lo', trigger=['asum(A, lo, hi)'])
# per-thread sums over the thread's rows add up to the sum over all rows
REG.lemma('asum_parts', [('E', 'arr'), ('A', 'arr'), ('P', 'arr'), ('m', 'int'), ('nt', 'int'), ('t', 'int')],
          ['0 <= m', '0 <= t <= nt', '1 <= nt', 'forall k {E[k]} in 0..nt: E[k] == asum(A, LB(P, m, nt, k), LB(P, m, nt, k + 1))'],
          ['asum(E, 0, t) == asum(A, 0, LB(P, m, nt, t))'], induct='t', base='0', uses=['LB_ax', 'LB_mono', 'asum_split'],
          trigger=[('asum(E, 0, t)', 'LB(P, m, nt, t)', 'asum(A, 0, m)')])


def average_width(c, cfg):
    """WID[i]: distance between the largest and the smallest column of row i (0 for an empty row)"""
    b = mat(c, cfg)
    c.ghost('WID', 'arr').scalar('sorted').known('sorted', cfg['sorted'])
    c.req('1 <= m', 'forall i {WID[i]} in 0..m: 0 <= WID[i] && WID[i] <= INT_MAX',
          'forall i {{WID[i]}} in 0..m: {R}[i] == {R}[i + 1] ==> WID[i] == 0'.format(R=R),
          'forall i {{WID[i]}} in 0..m: {R}[i] < {R}[i + 1] ==> (exists j, k {{{C}[j], {C}[k]}} in {r}: WID[i] == {C}[j] - {C}[k])'.format(R=R, C=C, r=row('i', b)),
          'forall i {{WID[i]}} in 0..m: forall j, k {{{C}[j], {C}[k]}} in {r}: {C}[j] - {C}[k] <= WID[i]'.format(C=C, r=row('i', b)))
    c.use('asum_bound', 'asum_parts', 'LB_ax', 'LB_mono')
    if cfg['sorted']:
        c.req('forall i {{{R}[i]}} in 0..m: forall j, k {{{C}[j], {C}[k]}} in {r}: j <= k ==> {C}[j] <= {C}[k]'.format(R=R, C=C, r=row('i', b)))
        c.loop('parfor0').inv('%d <= i <= m + %d' % (b, b), 'total_width == asum(WID, 0, i - %d)' % b).hint('body', 'term WID[i - %d]' % b, 'term asum(WID, 0, i + 1 - %d)' % b)
    else:
        c.loop(0).inv('iBegin <= i && (iBegin <= iEnd ==> i <= iEnd)', 'total_width == asum(WID, iBegin - %d, i - %d)' % (b, b))
        c.loop(0).hint('body', 'term WID[i - %d]' % b, 'term asum(WID, 0, i + 1 - %d)' % b)
        c.loop(1).inv('{R}[i - {b}] <= j && j <= {R}[i - {b} + 1]'.format(R=R, b=b),
                      'forall k {{{C}[k]}} in {R}[i - {b}] - {b}..j - {b}: min_row <= {C}[k] && {C}[k] <= max_row'.format(C=C, R=R, b=b),
                      'if j == {R}[i - {b}] then min_row == INT_MAX && max_row == INT_MIN else (exists k {{{C}[k]}} in {R}[i - {b}] - {b}..j - {b}: {C}[k] == min_row) && (exists k {{{C}[k]}} in {R}[i - {b}] - {b}..j - {b}: {C}[k] == max_row)'.format(C=C, R=R, b=b))
        p = c.par(0).phase()
        p.hint('after', 'term LB(%s, m, nt, nt)' % R, 'term asum(WID, 0, m)')
        p.post('red_total_width[tid] == asum(WID, LB({R}, m, nt, tid), LB({R}, m, nt, tid + 1))'.format(R=R))
    c.ens(('is-the-mean-row-width', 'result == real(asum(WID, 0, m)) / real(m)'))


REG.fn('_ZNK4SpMP3CSR15getAverageWidthEb', 'CSR.cpp', 'CSR::getAverageWidth', average_width,
       configs=[dict(base=b, sorted=s) for b in (0, 1) for s in (False, True)])
