"""Coordinate lists to compressed rows (C05)."""
from contract import REG
import perm02

# ---------------------------------------------------------------- counting
LV = [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('hi', 'int')]
# elements below v
REG.logic('lcnt', LV, 'int', 'if hi <= lo then 0 else lcnt(A, v, lo, hi - 1) + (if A[hi - 1] < v then 1 else 0)', rec=True)
# triples (r, c, v)
TC = [('A', 'arr'), ('C', 'arr'), ('V', 'rarr'), ('r', 'int'), ('c', 'int'), ('v', 'real'), ('lo', 'int'), ('hi', 'int')]
REG.logic('tcnt', TC, 'int', 'if hi <= lo then 0 else tcnt(A, C, V, r, c, v, lo, hi - 1) + (if A[hi - 1] == r && C[hi - 1] == c && V[hi - 1] == v then 1 else 0)', rec=True)

REG.lemma('lcnt_next', LV, ['lo <= hi'], ['lcnt(A, v + 1, lo, hi) == lcnt(A, v, lo, hi) + ccnt(A, v, lo, hi)'], induct='hi', base='lo')
REG.lemma('lcnt_mono', [('A', 'arr'), ('v', 'int'), ('w', 'int'), ('lo', 'int'), ('hi', 'int')], ['lo <= hi', 'v <= w'],
          ['0 <= lcnt(A, v, lo, hi)', 'lcnt(A, v, lo, hi) <= lcnt(A, w, lo, hi)', 'lcnt(A, w, lo, hi) <= hi - lo'], induct='hi', base='lo',
          trigger=[('lcnt(A, v, lo, hi)', 'lcnt(A, w, lo, hi)')])
REG.lemma('lcnt_none', LV, ['lo <= hi', 'forall k {A[k]} in lo..hi: v <= A[k]'], ['lcnt(A, v, lo, hi) == 0'], induct='hi', base='lo')
REG.lemma('lcnt_all', LV, ['lo <= hi', 'forall k {A[k]} in lo..hi: A[k] < v'], ['lcnt(A, v, lo, hi) == hi - lo'], induct='hi', base='lo')
REG.lemma('ccnt_none', [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('hi', 'int')], ['lo <= hi', 'forall k {A[k]} in lo..hi: A[k] != v'], ['ccnt(A, v, lo, hi) == 0'], induct='hi', base='lo')
CW = [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('x', 'int'), ('hi', 'int')]
REG.lemma('ccnt_mono', CW, ['lo <= x', 'x <= hi'], ['0 <= ccnt(A, v, lo, x)', 'ccnt(A, v, lo, x) <= ccnt(A, v, lo, hi)'], induct='hi', base='x',
          hints=['apply ccnt_some(A, v, lo, x)'], trigger=[('ccnt(A, v, lo, x)', 'ccnt(A, v, lo, hi)')])
REG.lemma('ccnt_range', [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('hi', 'int')], ['lo <= hi'], ['0 <= ccnt(A, v, lo, hi)', 'ccnt(A, v, lo, hi) <= hi - lo'], induct='hi', base='lo')
REG.lemma('ccnt_lt', CW, ['lo <= x', 'x < hi', 'A[x] == v'], ['0 <= ccnt(A, v, lo, x)', 'ccnt(A, v, lo, x) < ccnt(A, v, lo, hi)'],
          hints=['apply ccnt_mono(A, v, lo, x + 1, hi)', 'term ccnt(A, v, lo, x + 1)', 'apply ccnt_some(A, v, lo, x)'])
# what a rearrangement holds was there before
REG.lemma('ccnt_origin', [('C', 'arr'), ('D', 'arr'), ('lo', 'int'), ('hi', 'int'), ('k', 'int')],
          ['lo <= k < hi', 'ccnt(D, D[k], lo, hi) == ccnt(C, D[k], lo, hi)'], ['exists q in lo..hi {C[q]}: C[q] == D[k]'],
          hints=['apply ccnt_member(D, D[k], lo, hi, k)', 'apply ccnt_some(C, D[k], lo, hi)'])


# ---------------------------------------------------------------- sorting one row
I, W = 'content(idx)', 'content(w)'


def quicksort(c, cfg):
    c.arr('idx', 'int', 'right + 1', lo='left').arr('w', 'double', 'right + 1', lo='left').scalar('left').scalar('right')
    c.req('0 <= left', 'left <= right + 1', 'right + 1 <= INT_MAX')
    c.assign('idx[k] when left <= k && k <= right', 'w[k] when left <= k && k <= right')
    c.use('ccnt_c', 'pcnt_c', 'pcnt_v')
    same = ['forall v, lo, hi {{ccnt({I}, v, lo, hi)}}: lo <= left && right < hi ==> ccnt({I}, v, lo, hi) == ccnt($({I}), v, lo, hi)'.format(I=I),
            'forall x as real, v, lo, hi {{pcnt({I}, {W}, v, x, lo, hi)}}: lo <= left && right < hi ==> pcnt({I}, {W}, v, x, lo, hi) == pcnt($({I}), $({W}), v, x, lo, hi)'.format(I=I, W=W)]
    out = ['forall k {{{a}[k]}}: k < left || right < k ==> {a}[k] == $({a})[k]'.format(a=a) for a in (I, W)]
    c.ens(('ascends', 'forall p, q {{{I}[p], {I}[q]}} in left..right + 1: p <= q ==> {I}[p] <= {I}[q]'.format(I=I)),
          ('same-columns', same[0].replace('$', 'old')), ('same-entries', same[1].replace('$', 'old')),
          ('nothing-new', 'forall k {{{I}[k]}} in left..right + 1: exists q in left..right + 1 {{old({I})[q]}}: old({I})[q] == {I}[k]'.format(I=I)),
          ('outside-kept', ' && '.join('(%s)' % o.replace('$', 'old') for o in out)))
    c.loop(0).inv('left + 1 <= i && i <= right + 1', 'left <= last && last < i', '{I}[left] == pre({I})[left]'.format(I=I),
                  'forall k {{{I}[k]}} in left + 1..last + 1: {I}[k] < {I}[left]'.format(I=I),
                  'forall k {{{I}[k]}} in last + 1..i: {I}[left] <= {I}[k]'.format(I=I),
                  *[x.replace('$', 'old') for x in same + out])
    c.hint('exit', 'when left < right do apply forall k {{{I}[k]}} in left..right + 1: ccnt_origin(old({I}), {I}, left, right + 1, k)'.format(I=I))


REG.fn('_ZN4SpMPL5qsortIdEEvPiPT_ii', 'COO.cpp', 'qsort<double>', quicksort, call_cfg={})


# ---------------------------------------------------------------- placing the entries
R, C, V = 'content(rowptr)', 'content(colidx)', 'content(values)'
CR, CC_, CV_ = 'content(cooRowidx)', 'content(cooColidx)', 'content(cooValues)'


def rows_post(R, C, V, CR, CC, CV, m, nnz, b, sort=True):
    seg = '%s[r] - %d, %s[r + 1] - %d' % (R, b, R, b)
    e = [('row-pointers-start', '%s[0] == %d' % (R, b)), ('row-pointers-end', '%s[%s] == %s + %d' % (R, m, nnz, b)),
         ('row-pointers-ascend', 'forall i, j {{{R}[i], {R}[j]}} in 0..{m} + 1: i <= j ==> {R}[i] <= {R}[j]'.format(R=R, m=m)),
         ('entries-kept', 'forall r {{{R}[r]}} in 0..{m}: pcnt({C}, {V}, gc, gv, {seg}) == tcnt({CR}, {CC}, {CV}, r + 1, gc + 1 - {b}, gv, 0, {nnz})'.format(
             R=R, C=C, V=V, CR=CR, CC=CC, CV=CV, m=m, nnz=nnz, b=b, seg=seg))]
    e.append(('columns-in-range', 'forall r {{{R}[r]}} in 0..{m}: forall k {{{C}[k]}} in {R}[r] - {b}..{R}[r + 1] - {b}: {b} <= {C}[k] && {C}[k] < cb + {b}'.format(R=R, C=C, m=m, b=b)))
    if sort:
        e.append(('columns-ascend', 'forall r {{{R}[r]}} in 0..{m}: forall p, q {{{C}[p], {C}[q]}} in {R}[r] - {b}..{R}[r + 1] - {b}: p <= q ==> {C}[p] <= {C}[q]'.format(R=R, C=C, m=m, b=b)))
    return e


def place(c, cfg):
    b, sort = cfg['base'], cfg['sort']
    c.scalar('m').scalar('nnz').scalar('sort').scalar('outBase').known('outBase', str(b)).known('sort', sort)
    c.arr('rowptr', 'int', 'm + 1').arr('colidx', 'int', 'nnz').arr('values', 'double', 'nnz')
    c.arr('cooRowidx', 'int', 'nnz').arr('cooColidx', 'int', 'nnz').arr('cooValues', 'double', 'nnz')
    c.req('0 <= m', '0 <= nnz', 'm + 1 <= INT_MAX', 'nnz + 1 <= INT_MAX',
          'forall k {cooRowidx[k]} in 0..nnz: 1 <= cooRowidx[k] && cooRowidx[k] <= m',
          'forall k {cooColidx[k]} in 0..nnz: 1 <= cooColidx[k] && cooColidx[k] <= cb', 'cb + 1 <= INT_MAX')
    c.ghost('cb').ghost('gc').ghost('gv', 'real')
    c.assign('rowptr[k]', 'colidx[k]', 'values[k]')
    c.ens(*rows_post(R, C, V, CR, CC_, CV_, 'm', 'nnz', b, sort))
    if cfg.get('wrapper'):
        return
    L = lambda r: 'lcnt(%s, %s, 0, nnz)' % (CR, r)
    N = lambda r, hi='nnz': 'ccnt(%s, %s, 0, %s)' % (CR, r, hi)
    c.parfor(0).phase().own('rowptr', 'k', 'k == i').post('rowptr[i] == 0')
    T = 'tcnt({CR}, {CC}, {CV}, r + 1, gc + 1 - {b}, gv, 0, $H)'.format(CR=CR, CC=CC_, CV=CV_, b=b)
    P = 'pcnt(%s, %s, gc, gv, %s, $E)' % (C, V, L('r + 1'))
    c.use('lcnt_mono', 'ccnt_mono', 'pcnt_c', 'pcnt_v')
    # counts
    c.loop(0).inv('0 <= i && i <= nnz', 'forall r {{{R}[r]}} in 0..m + 1: {R}[r] == {N}'.format(R=R, N=N('r', 'i')))
    c.loop(0).hint('body', 'apply ccnt_range(%s, %s[i], 0, i)' % (CR, CR))
    # ends of the rows below
    c.loop(1).hint('entry', 'apply lcnt_none(%s, 1, 0, nnz)' % CR, 'apply ccnt_none(%s, 0, 0, nnz)' % CR)
    c.loop(1).inv('0 <= i && i <= m', 'forall r {{{R}[r]}} in 0..i + 1: {R}[r] == {L}'.format(R=R, L=L('r + 1')),
                  'forall r {{{R}[r]}} in i + 1..m + 1: {R}[r] == {N}'.format(R=R, N=N('r')))
    c.loop(1).hint('body', 'apply lcnt_next(%s, i + 1, 0, nnz)' % CR, 'apply lcnt_mono(%s, i + 2, i + 2, 0, nnz)' % CR, 'apply ccnt_mono(%s, i + 1, 0, 0, nnz)' % CR)
    c.loop(1).hint('exit', 'apply lcnt_all(%s, m + 1, 0, nnz)' % CR)
    # placement
    c.loop(2).inv('0 <= l && l <= nnz', 'forall r {{{R}[r]}} in 0..m: {R}[r] == {L} + {N}'.format(R=R, L=L('r + 1'), N=N('r + 1', 'l')), '%s[m] == nnz' % R,
                  'forall r {%s[r]} in 0..m: %s == %s' % (R, P.replace('$E', R + '[r]'), T.replace('$H', 'l')))
    rng = 'forall k {{{C}[k]}} in {L}..$E: {b} <= {C}[k] && {C}[k] < cb + {b}'.format(C=C, L=L('r + 1'), b=b)
    c.loop(2).inv('forall r {%s[r]} in 0..m: %s' % (R, rng.replace('$E', R + '[r]')))
    row = '%s[l]' % CR
    nx = 'apply forall r {%s[r]} in 0..m: lcnt_next(%s, r + 1, 0, nnz)' % (R, CR)
    c.loop(2).hint('body', 'apply ccnt_lt(%s, %s, 0, l, nnz)' % (CR, row), 'apply lcnt_next(%s, %s, 0, nnz)' % (CR, row),
                   'let w == %s[%s - 1]' % (R, row), 'assert 0 <= w && w < nnz',
                   'assert forall r {{{R}[r]}} in 0..m: r < {row} - 1 ==> {R}[r] <= w by {nx}'.format(R=R, row=row, nx=nx),
                   'assert forall r {{{R}[r]}} in 0..m: r > {row} - 1 ==> w < {L}'.format(R=R, row=row, L=L('r + 1')))
    here = lambda f: f.replace('r + 1', row)
    c.loop(2).hint('end', 'assert %s == %s' % (here(P).replace('$E', 'w'), here(T).replace('$H', 'l')), 'assert %s == %s' % (here(P).replace('$E', 'w + 1'), here(T).replace('$H', 'l + 1')))
    # back
    fact = {nm: f.split('in 0..m: ', 1)[1] for nm, f in rows_post(R, C, V, CR, CC_, CV_, 'm', 'nnz', b, True) if 'in 0..m: ' in f}
    old = lambda f, lo: f.replace('%s[r + 1] - %d' % (R, b), '%s[r]' % R).replace('%s[r] - %d' % (R, b), lo)
    c.loop(2).hint('exit', 'assert forall r {{{R}[r]}} in 0..m: {R}[r] == {L} by {nx}'.format(R=R, L=L('r + 2'), nx=nx),
                   'assert forall q, r {{{R}[q], {R}[r]}} in 0..m: q + 1 == r ==> {L} == {R}[q]'.format(R=R, L=L('r + 1')),
                   'assert m > 0 ==> %s == 0 by apply lcnt_none(%s, 1, 0, nnz)' % (L('1'), CR))
    for nm in ('entries-kept', 'columns-in-range'):
        c.loop(2).hint('exit', 'assert forall q, r {{{R}[q], {R}[r]}} in 0..m: q + 1 == r ==> ({f})'.format(R=R, f=old(fact[nm], R + '[q]')),
                       'assert forall r {{{R}[r]}} in 0..m: r == 0 ==> ({f})'.format(R=R, f=old(fact[nm], '0').replace('{' + R + '[r]}', '')))
    c.loop(2).hint('exit', 'assert forall q, r {{{R}[q], {R}[r]}} in 0..m + 1: q <= r ==> {R}[q] <= {R}[r]'.format(R=R), 'assert forall r {{{R}[r]}} in 0..m: 0 <= {R}[r] && {R}[r] <= nnz'.format(R=R),
                   'assert m > 0 ==> %s[m - 1] == nnz by apply lcnt_all(%s, m + 1, 0, nnz)' % (R, CR), 'assert m == 0 ==> nnz == 0')
    c.loop(3).inv('0 <= i && i <= m', 'forall r {{{R}[r]}} in 0..i: {R}[r] == pre({R})[r]'.format(R=R), 'i == m ==> {R}[m] == nnz'.format(R=R),
                  'forall r {{{R}[r]}} in i + 1..m + 1: {R}[r] == pre({R})[r - 1] + {b}'.format(R=R, b=b))
    p = c.parfor(1).phase()
    own = '{R}[i] - {b} <= k && k < {R}[i + 1] - {b}'.format(R=R, b=b)
    p.own('colidx', 'k', own).own('values', 'k', own)
    if sort:
        c.use('pcnt_ext')
        for f in fact.values():
            p.cover('r', 'i', '0', 'm', f, trigger='%s[r]' % R, local=True)


REG.fn('_ZN4SpMP7coo2csrIdEEviiPiS1_PT_PKiS5_PKS2_bi', 'COO.cpp', 'coo2csr<double>', place,
       configs=[dict(base=b, sort=s) for b in (0, 1) for s in (True, False)],
       call_cfg=lambda ver, st, vals: {k: ver.cfg[k] for k in ('base', 'sort')})
REG.fn('_ZN4SpMP8dcoo2csrEiiPiS0_PdPKiS3_PKdbi', 'COO.cpp', 'dcoo2csr(arrays)', place,
       configs=[dict(base=b, sort=s, wrapper=True) for b in (0, 1) for s in (True, False)],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], sort=True, wrapper=True))


# ---------------------------------------------------------------- into a matrix
def to_csr(c, cfg):
    b, dia, sep = cfg['base'], cfg['diagptr'], cfg['separate']
    A = lambda f: 'content(Acrs->%s)' % f
    c.params.append(('obj', 'Acrs', [('rowptr', 'int', 'Acoo->m + 1', False), ('colidx', 'int', 'Acoo->nnz', False), ('values', 'double', 'Acoo->nnz', False)] +
                     [(f, t, 'Acoo->m', not on) for f, t, on in (('diagptr', 'int', dia), ('idiag', 'double', cfg['idiag']), ('diag', 'double', cfg['diag']))],
                     (('m', 'int'), ('n', 'int'))))
    c.params.append(('obj', 'Acoo', [('rowidx', 'int', 'Acoo->nnz', False), ('colidx', 'int', 'Acoo->nnz', False), ('values', 'double', 'Acoo->nnz', False)],
                     (('m', 'int'), ('n', 'int'), ('nnz', 'int'))))
    c.scalar('outBase').known('outBase', str(b)).scalar('createSeparateDiagData').known('createSeparateDiagData', sep)
    c.req('0 <= Acoo->m', '0 <= Acoo->nnz', 'Acoo->m + 1 <= INT_MAX', 'Acoo->nnz + 1 <= INT_MAX',
          'forall k {Acoo->rowidx[k]} in 0..Acoo->nnz: 1 <= Acoo->rowidx[k] && Acoo->rowidx[k] <= Acoo->m',
          'forall k {Acoo->colidx[k]} in 0..Acoo->nnz: 1 <= Acoo->colidx[k] && Acoo->colidx[k] <= Acoo->n', 'Acoo->n + 1 <= INT_MAX', 'cb == Acoo->n')
    c.ghost('cb').ghost('gc').ghost('gv', 'real')
    c.assign('Acrs->m', 'Acrs->n', 'Acrs->rowptr[k]', 'Acrs->colidx[k]', 'Acrs->values[k]')
    R, C, V = A('rowptr'), A('colidx'), A('values')
    c.ens(('dimensions', 'Acrs->m == Acoo->m && Acrs->n == Acoo->n'))
    c.ens(*rows_post(R, C, V, *['content(Acoo->%s)' % f for f in ('rowidx', 'colidx', 'values')], 'Acoo->m', 'Acoo->nnz', b))
    if not dia:
        return
    both = sep and cfg['idiag'] and cfg['diag']
    p = c.parfor(0).phase()
    p.own('Acrs->diagptr', 'k', 'k == i')
    c.assign('Acrs->diagptr[k]')
    for f in ('idiag', 'diag'):
        if cfg[f] and not both:
            p.own('Acrs->' + f, 'k', 'false')
    facts = '{R}[$I] <= {D}[$I] && {D}[$I] < {R}[$I + 1] && {C}[{D}[$I] - {b}] == $I + {b}'.format(R=R, C=C, D=A('diagptr'), b=b)
    if both:
        for f in ('idiag', 'diag'):
            p.own('Acrs->' + f, 'k', 'k == i')
            c.assign('Acrs->%s[k]' % f)
        facts += ' && {I}[$I] == 1.0 / {V}[{D}[$I] - {b}] && {G}[$I] == {V}[{D}[$I] - {b}]'.format(I=A('idiag'), G=A('diag'), V=V, D=A('diagptr'), b=b)
    some = '(exists j {{{C}[j]}} in {R}[$I] - {b}..$H: {C}[j] == $I + {b}) ==> '.format(R=R, C=C, b=b)
    end = '%s[$I + 1] - %d' % (R, b)
    p.post((some + facts).replace('$H', end).replace('$I', 'i'))
    c.loop(0).inv('{R}[i] - {b} <= j && j <= {R}[i + 1] - {b}'.format(R=R, b=b), (some + facts).replace('$H', 'j').replace('$I', 'i'))
    c.ens(('diagonals-recorded', 'forall i {%s[i]} in 0..Acoo->m: ' % A('diagptr') + (some + facts).replace('$H', end).replace('$I', 'i')))
    c.loop(0).inv(*['forall r {{{0}[r]}}: r != i ==> {0}[r] == pre({0})[r]'.format(A(f)) for f in (['diagptr'] + (['idiag', 'diag'] if both else []))])


REG.fn('_ZN4SpMP8dcoo2csrEPNS_3CSREPKNS_3COOEib', 'COO.cpp', 'dcoo2csr(matrix)', to_csr,
       configs=[dict(base=b, diagptr=d, idiag=i, diag=g, separate=s) for b in (0, 1) for d in (True, False) for i in (True, False) for g in (True, False) for s in (True, False)])
