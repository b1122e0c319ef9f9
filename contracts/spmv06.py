"""Sparse matrix-vector product (C06)."""
from contract import REG
from csrbase import wf

# sum over entries lo..hi-1 of value times source element (1 times it without values)
REG.logic('spdot', [('V', 'rarr'), ('C', 'arr'), ('X', 'rarr'), ('b', 'int'), ('lo', 'int'), ('hi', 'int')], 'real',
          'if hi <= lo then 0 else spdot(V, C, X, b, lo, hi - 1) + V[hi - 1] * X[C[hi - 1] - b]', rec=True)
REG.logic('spsum', [('C', 'arr'), ('X', 'rarr'), ('b', 'int'), ('lo', 'int'), ('hi', 'int')], 'real',
          'if hi <= lo then 0 else spsum(C, X, b, lo, hi - 1) + X[C[hi - 1] - b]', rec=True)

# only the source elements that columns name matter
REG.lemma('spdot_ext', [('V', 'rarr'), ('C', 'arr'), ('X', 'rarr'), ('Y', 'rarr'), ('b', 'int'), ('lo', 'int'), ('hi', 'int')],
          ['forall k {C[k]} in lo..hi: X[C[k] - b] == Y[C[k] - b]'],
          ['spdot(V, C, X, b, lo, hi) == spdot(V, C, Y, b, lo, hi)'], induct='hi', base='lo',
          trigger=[('spdot(V, C, X, b, lo, hi)', 'spdot(V, C, Y, b, lo, hi)')])
REG.lemma('spsum_ext', [('C', 'arr'), ('X', 'rarr'), ('Y', 'rarr'), ('b', 'int'), ('lo', 'int'), ('hi', 'int')],
          ['forall k {C[k]} in lo..hi: X[C[k] - b] == Y[C[k] - b]'],
          ['spsum(C, X, b, lo, hi) == spsum(C, Y, b, lo, hi)'], induct='hi', base='lo',
          trigger=[('spsum(C, X, b, lo, hi)', 'spsum(C, Y, b, lo, hi)')])


def wf_arrays(b, m='m', n='n'):
    return ['0 <= %s' % m, '0 <= %s' % n, '0 <= nnz', 'rowptr[0] == %d' % b, 'rowptr[%s] == nnz + %d' % (m, b),
            'forall i, j {rowptr[i], rowptr[j]} in 0..M + 1: i <= j ==> rowptr[i] <= rowptr[j]'.replace('M', m),
            'nnz + %d + max_threads + 1 <= INT_MAX' % b, '%s + %d + 1 <= INT_MAX' % (m, b), '%s + %d + 1 <= INT_MAX' % (n, b),
            'forall k {colidx[k]} in 0..nnz: %d <= colidx[k] && colidx[k] < %s + %d' % (b, n, b)]


def at(f, i):
    return f.replace('@', i)


def formula_for(b, vals, x='content(x)'):
    dot = ('spdot(content(values), content(colidx), %s, %d, LO, HI)' % (x, b) if vals
           else 'spsum(content(colidx), %s, %d, LO, HI)' % (x, b))
    R = 'content(rowptr)'
    row = dot.replace('LO', '%s[@] - %d' % (R, b)).replace('HI', '%s[@ + 1] - %d' % (R, b))
    return dot, 'alpha * %s + beta * old(content(y)[@]) + gamma' % row


def spmv(c, cfg):
    b, vals, alias = cfg['base'], cfg['values'], cfg['alias']
    c.ghost('n').ghost('nnz')
    c.let('ghost:n', 'len(x)').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.scalar('m').scalar('alpha').scalar('beta').scalar('gamma')
    c.arr('w', 'double', 'm').arr('rowptr', 'int', 'm + 1').arr('colidx', 'int', 'nnz')
    c.arr('values', 'double', 'nnz', null=not vals).arr('x', 'double', 'max(m, n)' if alias == 'x' else 'n')
    if alias:
        c.arr('y', 'double', 'm', alias=alias)
    else:
        c.arr('y', 'double', 'm')
    c.known('rowptr[0]', str(b))
    c.req(*wf_arrays(b))
    dot, formula = formula_for(b, vals)
    R = 'content(rowptr)'
    c.use('LB_ax', 'LB_mono')
    p = c.par(0).phase()
    p.own('w', 'k', 'LB({R}, m, nt, tid) + {b} <= k && k < LB({R}, m, nt, tid + 1) + {b}'.format(R=R, b=b))
    p.cover('k', 'LB(%s, m, nt, tid)' % R, '0', 'm', 'content(w)[k] == ' + at(formula, 'k'))
    for q in range(6):
        c.loop(2 * q).inv('iBegin <= i && (iBegin <= iEnd ==> i <= iEnd)',
                          'forall k in iBegin - %d..i - %d: content(w)[k] == %s' % (b, b, at(formula, 'k')))
        if alias == 'w':
            c.loop(2 * q).inv('forall k in i - %d..iEnd - %d: content(w)[k] == old(content(y)[k])' % (b, b))
        part = dot.replace('LO', '%s[i - %d] - %d' % (R, b, b)).replace('HI', 'j - %d' % b)
        acc = 'sum == ' + part if q in (0, 1, 4, 5) else 'sum == old(content(y)[i - %d]) - %s' % (b, part)
        c.loop(2 * q + 1).inv('%s[i - %d] <= j <= %s[i - %d]' % (R, b, R, b - 1), acc)
        c.loop(2 * q + 1).hint('body', 'term ' + part.replace('j - %d' % b, 'j + 1 - %d' % b))
    c.assign('w[k]')
    c.ens(('equals-the-formula', 'forall i in 0..m: w[i] == ' + at(formula, 'i')))


REG.fn('_ZN4SpMPL5SpMV_IdEEviPT_S1_PKiS4_PKS1_S6_S1_S6_S1_', 'SpMV.cpp', 'SpMV_<double>', spmv,
       configs=[dict(base=b, values=v, alias=a) for b in (0, 1) for v in (True, False) for a in (None, 'w', 'x')],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], values=vals[5].region is not None,
                                           alias='w' if vals[8].region is vals[1].region else 'x' if vals[8].region is vals[6].region else None))


def mult(c, cfg):
    """cfg alias: which of the vectors w, x, y are one vector"""
    b, vals, alias, short = cfg['base'], cfg['values'], cfg['alias'], cfg.get('short')
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.csr('this', values=vals)
    c.known('rowptr[0]', str(b))
    c.req(*wf_arrays(b))
    wx = 'x' in alias and 'w' in alias
    c.arr('w', 'double', 'max(m, n)' if wx else 'm')
    if wx:
        c.arr('x', 'double', 'max(m, n)', alias='w')
    else:
        c.arr('x', 'double', 'max(m, n)' if alias == 'xy' else 'n')
    if not short:
        c.scalar('alpha').scalar('beta').scalar('gamma')
        if 'y' in alias:
            c.arr('y', 'double', 'm', alias='w' if 'w' in alias else 'x')
        else:
            c.arr('y', 'double', 'm')
    dot, formula = formula_for(b, vals, 'old(content(x))')
    c.assign('w[k]')
    if short:
        row = formula[len('alpha * '):formula.index(' + beta')]
        c.ens(('equals-the-product', 'forall i in 0..m: w[i] == ' + at(row, 'i')))
    else:
        c.ens(('equals-the-formula', 'forall i in 0..m: w[i] == ' + at(formula, 'i')))
    if wx:
        c.use('spdot_ext' if vals else 'spsum_ext')
        c.ens(('rest-untouched', 'forall i in m..n: w[i] == old(w[i])'))


REG.fn('_ZNK4SpMP3CSR18multiplyWithVectorEPddPKddS3_d', 'SpMV.cpp', 'CSR::multiplyWithVector', mult,
       configs=[dict(base=b, values=v, alias=a) for b in (0, 1) for v in (True, False) for a in ('', 'wx', 'wy', 'xy', 'wxy')],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], values=ver.cfg['values'], alias='wxy' if ver.cfg['alias'] else 'wy'))
REG.fn('_ZNK4SpMP3CSR18multiplyWithVectorEPdPKd', 'SpMV.cpp', 'CSR::multiplyWithVector(w, x)', mult,
       configs=[dict(base=b, values=v, alias=a, short=True) for b in (0, 1) for v in (True, False) for a in ('', 'wx')])
