"""Sparse times dense matrix product (C07)."""
from contract import REG
from spmv06 import wf_arrays

# sum over entries of value times the source element in that row, at column offset o
REG.logic('mdot', [('V', 'rarr'), ('C', 'arr'), ('X', 'rarr'), ('b', 'int'), ('s', 'int'), ('o', 'int'), ('lo', 'int'), ('hi', 'int')], 'real',
          'if hi <= lo then 0 else mdot(V, C, X, b, s, o, lo, hi - 1) + V[hi - 1] * X[C[hi - 1] * s - b * s + o]', rec=True)

# when the elements i*r + j*c (i < m, j < k) are distinct, MROW and MCOL decode a position
DISTINCT = ('forall i in 0..M, j in 0..M, g in 0..k, h in 0..k {times(i, R), times(j, R), times(g, K), times(h, K)}: '
            'times(i, R) + times(g, K) == times(j, R) + times(h, K) ==> i == j && g == h')


def distinct(r, c, m='m'):
    return DISTINCT.replace('R)', r + ')').replace('K)', c + ')').replace('M', m)


# MDIST names that condition; MROW and MCOL are a left inverse of the then injective
# map, rows counted from b (definitional: the lemmas hold by the choice of the symbols)
I4 = [('r', 'int'), ('c', 'int'), ('m', 'int'), ('k', 'int')]
REG.logic('MDIST', I4, 'bool')
REG.logic('MROW', [('b', 'int')] + I4, 'arr')
REG.logic('MCOL', [('b', 'int')] + I4, 'arr')
REG.lemma('MDIST_def', I4, [distinct('r', 'c')], ['MDIST(r, c, m, k)'], trigger=['MDIST(r, c, m, k)'])
REG.lemma('decode', [('b', 'int')] + I4 + [('i', 'int'), ('j', 'int')],
          ['MDIST(r, c, m, k)', 'b <= i < m + b', '0 <= j < k'],
          ['MROW(b, r, c, m, k)[i * r - b * r + j * c] == i', 'MCOL(b, r, c, m, k)[i * r - b * r + j * c] == j'],
          trigger=[('times(i, r)', 'times(j, c)', 'MROW(b, r, c, m, k)')])
REG.lemmas['decode'].assumed = True
REG.lemmas['MDIST_def'].assumed = True


def room(c, block, n, b, r, k):
    """every element of an n x k block addressed with strides r, k lies in it, and the int arithmetic is exact"""
    c.req('0 <= ' + r, '0 <= ' + k,
          'forall i in 0..{n} + 1, j in 0..k {{times(i, {r}), times(j, {k})}}: times(i, {r}) + times(j, {k}) <= INT_MAX'.format(n=n, r=r, k=k),
          'forall i in {b}..{n} + {b}, j in 0..k {{times(i, {r}), times(j, {k})}}: times(i, {r}) + times(j, {k}) - {b} * {r} < l{B}'.format(n=n, b=b, r=r, k=k, B=block))


def spmdm(c, cfg):
    b, alias = cfg['base'], cfg['alias']
    c.ghost('n').ghost('nnz').ghost('lW').ghost('lX').ghost('lY')
    c.let('ghost:n', 'this->n').let('ghost:nnz', 'rowptr[m] - rowptr[0]').let('ghost:lW', 'len(W)').let('ghost:lX', 'len(X)').let('ghost:lY', 'len(Y)')
    for s in 'm k wRowStride wColumnStride alpha xRowStride xColumnStride beta yRowStride yColumnStride gamma'.split():
        c.scalar(s)
    c.arr('W', 'double', 'lW').arr('rowptr', 'int', 'm + 1').arr('colidx', 'int', 'nnz').arr('values', 'double', 'nnz').arr('X', 'double', 'lX')
    if alias:
        c.arr('Y', 'double', 'lY', alias='W')
        c.req('yRowStride == wRowStride && yColumnStride == wColumnStride && lY == lW')
    else:
        c.arr('Y', 'double', 'lY')
    c.known('rowptr[0]', str(b))
    c.req(*wf_arrays(b))
    c.req('1 <= k', '0 <= lW && 0 <= lX && 0 <= lY')
    room(c, 'W', 'm', b, 'wRowStride', 'wColumnStride')
    room(c, 'X', 'n', b, 'xRowStride', 'xColumnStride')
    room(c, 'Y', 'm', b, 'yRowStride', 'yColumnStride')
    c.req('MDIST(wRowStride, wColumnStride, m, k)')
    c.use('LB_ax', 'LB_mono', 'decode')
    c.nl = 'units'
    R = 'content(rowptr)'
    S = 'MROW(%d, wRowStride, wColumnStride, m, k)' % b
    T = 'MCOL(%d, wRowStride, wColumnStride, m, k)' % b
    dot = 'mdot(content(values), content(colidx), content(X), %d, xRowStride, J * xColumnStride, LO, HI)' % b
    row = dot.replace('LO', '%s[I - %d] - %d' % (R, b, b)).replace('HI', '%s[I - %d + 1] - %d' % (R, b, b))
    # I: row (counted from the base), J: column
    f = 'alpha * %s + beta * old(content(Y)[I * yRowStride - %d * yRowStride + J * yColumnStride]) + gamma' % (row, b)

    def at(t, i, j):
        return t.replace('[I', '[' + i).replace('I *', '%s *' % i).replace('J', j)
    # q is the position of an output element
    elem = '{b} <= {S}[q] && {S}[q] < m + {b} && 0 <= {T}[q] && {T}[q] < k && q == {S}[q] * wRowStride - {b} * wRowStride + {T}[q] * wColumnStride'.format(S=S, T=T, b=b)
    W = 'content(W)[q]'
    fq = at(f, S + '[q]', T + '[q]')
    q_all = 'forall q {content(W)[q]}: ' + elem + ' ==> '
    c.hint('entry', 'term ' + S + '[0]')
    p = c.par(0).phase()
    p.own('entryval(W)', 'q', 'LB({R}, m, nt, tid) + {b} <= {S}[q] && {S}[q] < LB({R}, m, nt, tid + 1) + {b} && '.format(R=R, S=S, b=b) + elem)
    p.cover('q', 'LB(%s, m, nt, tid)' % R, '0', 'm', '%s ==> %s == %s' % (elem, W, fq), key='%s[q] - %d' % (S, b), trigger=W)
    for q in (0, 5):
        c.loop(q).inv('iBegin <= i1 && (iBegin <= iEnd ==> i1 <= iEnd)',
                      q_all + 'iBegin <= {S}[q] && {S}[q] < i1 ==> {W} == {f}'.format(S=S, W=W, f=fq))
        if alias:
            c.loop(q).inv(q_all + 'i1 <= {S}[q] && {S}[q] < iEnd ==> {W} == old({W})'.format(S=S, W=W))
        c.loop(q + 1).inv('0 <= i3 <= k', 'forall j in 0..i3: sum[j] == 0')
        part = dot.replace('LO', '%s[i1 - %d] - %d' % (R, b, b))
        done, todo = part.replace('HI', 'i2 + 1 - %d' % b), part.replace('HI', 'i2 - %d' % b)
        c.loop(q + 2).inv('%s[i1 - %d] <= i2 <= %s[i1 - %d]' % (R, b, R, b - 1),
                          'forall j in 0..k {sum[j]}: sum[j] == ' + todo.replace('J', 'j'))
        c.loop(q + 3).inv('0 <= i3 <= k',
                          'forall j in 0..i3 {sum[j]}: sum[j] == ' + done.replace('J', 'j'),
                          'forall j in i3..k {sum[j]}: sum[j] == ' + todo.replace('J', 'j'))
        c.loop(q + 3).hint('body', 'term ' + done.replace('J', 'i3'))
        pos = 'i1 - %d + i3 * wColumnStride' % b if q == 0 else 'i1 * wRowStride - %d * wRowStride + i3 * wColumnStride' % b
        if q == 0:
            c.loop(q + 4).hint('body', 'assert times(i1, wRowStride) == i1')
        c.loop(q + 4).hint('body', 'apply decode(%d, wRowStride, wColumnStride, m, k, i1, i3)' % b,
                           'assert {S}[{p}] == i1 && {T}[{p}] == i3'.format(S=S, T=T, p=pos))
        c.loop(q + 4).inv('0 <= i3 <= k',
                          q_all + 'iBegin <= {S}[q] && ({S}[q] < i1 || {S}[q] == i1 && {T}[q] < i3) ==> {W} == {f}'.format(S=S, T=T, W=W, f=fq))
        if alias:
            c.loop(q + 4).inv(q_all + '(i1 < {S}[q] && {S}[q] < iEnd || {S}[q] == i1 && i3 <= {T}[q]) ==> {W} == old({W})'.format(S=S, T=T, W=W))
    c.assign('W[q] when ' + elem)
    c.hint('exit', 'term times(0, wRowStride)')
    c.ens(('equals-the-formula', 'forall i in {b}..m + {b}, j in 0..k {{times(i, wRowStride), times(j, wColumnStride)}}: content(W)[i * wRowStride - {b} * wRowStride + j * wColumnStride] == '.format(b=b) + at(f, 'i', 'j')))


REG.fn('_ZN4SpMPL6SpMDM_IdEEviiPT_iiS1_PKiS4_PKS1_S6_iiS1_S6_iiS1_', 'SpMV.cpp', 'SpMDM_<double>', spmdm,
       configs=[dict(base=b, alias=a) for b in (0, 1) for a in (False, True)],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], alias=vals[13].region is vals[2].region))


def dense(c, cfg):
    """cfg short: W = A*X with column-major blocks; otherwise general strides"""
    b, alias, short = cfg['base'], cfg.get('alias'), cfg.get('short')
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.csr('this')
    c.known('rowptr[0]', str(b))
    c.req(*wf_arrays(b))
    c.scalar('k')
    c.nl = 'uf' if short else 'units'
    dot = 'mdot(content(values), content(colidx), content(X), %d, XR, j * XC, rowptr[i - %d] - %d, rowptr[i - %d + 1] - %d)' % (b, b, b, b, b)
    c.assign('W[q]')
    if short:
        c.arr('W', 'double', 'm * k').arr('X', 'double', 'n * k')
        c.req('1 <= k', '(m + 1) * k + m <= INT_MAX', '(n + 1) * k + n <= INT_MAX')
        c.use('MDIST_def')
        c.ens(('equals-the-product', 'forall i in {b}..m + {b}, j in 0..k {{times(i, 1), times(j, m)}}: W[i - {b} + j * m] == '.format(b=b) +
               dot.replace('XR', '1').replace('XC', 'n')))
        return
    c.ghost('lW').ghost('lX').ghost('lY')
    c.let('ghost:lW', 'len(W)').let('ghost:lX', 'len(X)').let('ghost:lY', 'len(Y)')
    for s in 'wRowStride wColumnStride alpha xRowStride xColumnStride beta yRowStride yColumnStride gamma'.split():
        c.scalar(s)
    c.arr('W', 'double', 'lW').arr('X', 'double', 'lX')
    if alias:
        c.arr('Y', 'double', 'lY', alias='W')
        c.req('yRowStride == wRowStride && yColumnStride == wColumnStride && lY == lW')
    else:
        c.arr('Y', 'double', 'lY')
    c.req('1 <= k', '0 <= lW && 0 <= lX && 0 <= lY')
    room(c, 'W', 'm', b, 'wRowStride', 'wColumnStride')
    room(c, 'X', 'n', b, 'xRowStride', 'xColumnStride')
    room(c, 'Y', 'm', b, 'yRowStride', 'yColumnStride')
    c.req('MDIST(wRowStride, wColumnStride, m, k)')
    S, T = ['%s(%d, wRowStride, wColumnStride, m, k)' % (x, b) for x in ('MROW', 'MCOL')]
    c.ens(('equals-the-formula', ('forall i in {b}..m + {b}, j in 0..k {{times(i, wRowStride), times(j, wColumnStride)}}: '
           'W[i * wRowStride - {b} * wRowStride + j * wColumnStride] == alpha * {dot} + '
           'beta * old(Y[i * yRowStride - {b} * yRowStride + j * yColumnStride]) + gamma').format(b=b, dot=dot.replace('XR', 'xRowStride').replace('XC', 'xColumnStride'))),
          ('nothing-else', 'forall q {{W[q]}} in 0..lW: !({b} <= {S}[q] && {S}[q] < m + {b} && 0 <= {T}[q] && {T}[q] < k && '
           'q == {S}[q] * wRowStride - {b} * wRowStride + {T}[q] * wColumnStride) ==> W[q] == old(W[q])'.format(b=b, S=S, T=T)))


REG.fn('_ZNK4SpMP3CSR23multiplyWithDenseMatrixEPdiiidPKdiidS3_iid', 'SpMV.cpp', 'CSR::multiplyWithDenseMatrix', dense,
       configs=[dict(base=b, alias=a) for b in (0, 1) for a in (False, True)],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], alias=vals[9].region is vals[0].region))
REG.fn('_ZNK4SpMP3CSR23multiplyWithDenseMatrixEPdiPKd', 'SpMV.cpp', 'CSR::multiplyWithDenseMatrix(W, k, X)', dense,
       configs=[dict(base=b, short=True) for b in (0, 1)])
