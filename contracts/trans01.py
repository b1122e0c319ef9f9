"""Transposition (C01)."""
from contract import REG
from csrbase import wf
import coo05

# ---------------------------------------------------------------- division
XY = [('x', 'int'), ('y', 'int')]
REG.lemma('dv_def', XY, ['0 <= x', '0 < y'], ['0 <= x % y', 'x % y < y', '0 <= x / y', 'x / y * y + x % y == x'])
REG.lemmas['dv_def'].assumed = True     # what C's / and % mean
REG.lemma('dv_uniq', [('q', 'int'), ('r', 'int'), ('y', 'int')], ['0 <= q', '0 <= r < y'], ['(q * y + r) / y == q', '(q * y + r) % y == r'],
          hints=['apply dv_def(q * y + r, y)', 'term ((q * y + r) / y) * y', 'term q * y'])
REG.lemma('dv_next', XY, ['0 <= x', '0 < y'],
          ['x % y + 1 < y ==> (x + 1) / y == x / y && (x + 1) % y == x % y + 1', 'x % y + 1 >= y ==> (x + 1) / y == x / y + 1 && (x + 1) % y == 0'],
          hints=['apply dv_def(x, y)', 'when x % y + 1 < y do apply dv_uniq(x / y, x % y + 1, y)', 'apply dv_uniq(x / y + 1, 0, y)'])
# column-major numbering of an nt x n array stored row by row
TI = lambda x: '(%s %% nt * n + %s / nt)' % (x, x)
REG.lemma('ti', [('x', 'int'), ('nt', 'int'), ('n', 'int')], ['0 <= x', 'x < nt * n', '0 < nt', '0 < n'],
          ['0 <= x % nt', 'x % nt < nt', '0 <= x / nt', 'x / nt < n', 'x / nt * nt + x % nt == x',
           TI('x') + ' / n == x % nt', TI('x') + ' % n == x / nt', '0 <= ' + TI('x'), TI('x') + ' < nt * n'],
          hints=['apply dv_def(x, nt)', 'assert x / nt < n by term n * nt', 'apply dv_uniq(x % nt, x / nt, n)'])

# the same, kept folded: bucket (thread t, column c) is at t*n + c, its rank in column order is c*nt + t
XN = [('x', 'int'), ('nt', 'int'), ('n', 'int')]
REG.logic('tix', XN, 'int', 'x % nt * n + x / nt', rec=True)
REG.logic('txi', XN, 'int', 'x % n * nt + x / n', rec=True)
REG.lemma('tix_inv', XN, ['0 <= x', 'x < nt * n', '0 < nt', '0 < n'], ['txi(tix(x, nt, n), nt, n) == x', '0 <= tix(x, nt, n)', 'tix(x, nt, n) < nt * n'],
          hints=['apply ti(x, nt, n)', 'assert tix(x, nt, n) == ' + TI('x')], trigger=['tix(x, nt, n)'])
REG.lemma('tix_tc', [('t', 'int'), ('c', 'int'), ('nt', 'int'), ('n', 'int')], ['0 <= t < nt', '0 <= c < n'],
          ['tix(c * nt + t, nt, n) == t * n + c', 'txi(t * n + c, nt, n) == c * nt + t', '(c * nt + t) / nt == c', '(c * nt + t) % nt == t', '0 <= c * nt + t', 'c * nt + t < nt * n',
           '(t * n + c) / n == t', '(t * n + c) % n == c', '0 <= t * n + c', 't * n + c < nt * n'],
          hints=['apply dv_uniq(c, t, nt)', 'apply dv_uniq(t, c, n)', 'assert t * n + c < nt * n by term (nt - 1 - t) * n', 'assert c * nt + t < nt * n by term (n - 1 - c) * nt'])
# entries of column x / nt in the rows of thread x % nt
EN = [('C', 'arr'), ('R', 'arr'), ('m', 'int'), ('nt', 'int'), ('b', 'int'), ('x', 'int')]
E_ = lambda t: '(R[LB(R, m, nt, %s)] - b)' % t
REG.logic('cel', EN, 'int', 'ccnt(C, x / nt + b, %s, %s)' % (E_('x % nt'), E_('x % nt + 1')), rec=True)
REG.logic('psum', EN, 'int', 'if x <= 0 then 0 else psum(C, R, m, nt, b, x - 1) + cel(C, R, m, nt, b, x - 1)', rec=True)
PS = lambda x: 'psum(C, R, m, nt, b, %s)' % x
EL = lambda x: 'cel(C, R, m, nt, b, %s)' % x
PN = EN + [('n', 'int'), ('nnz', 'int')]
PARTS = ['0 < nt', '0 <= m', '0 <= nnz', 'R[0] == b', 'R[m] == nnz + b', 'forall i, j {R[i], R[j]} in 0..m + 1: i <= j ==> R[i] <= R[j]', 'forall k {C[k]} in 0..nnz: b <= C[k]']
REG.lemma('part_ends', [('R', 'arr'), ('m', 'int'), ('nt', 'int'), ('b', 'int'), ('nnz', 'int'), ('t', 'int')],
          [p for p in PARTS if 'C[' not in p] + ['0 <= t < nt'], ['0 <= ' + E_('t'), E_('t') + ' <= ' + E_('t + 1'), E_('t + 1') + ' <= nnz', 't == 0 ==> %s == 0' % E_('t'), 't + 1 == nt ==> %s == nnz' % E_('t + 1')],
          uses=['LB_ax', 'LB_mono'])
FX = lambda x, t: '(lcnt(C, %s / nt + b, 0, nnz) + ccnt(C, %s / nt + b, 0, %s))' % (x, x, E_(t))
X1 = '(x - 1)'
REG.lemma('psum_is', PN, PARTS + ['0 <= x', 'x < nt * n'], [PS('x') + ' == ' + FX('x', 'x % nt')], induct='x', base='0',
          hints=['when x > 0 do apply dv_next(x - 1, nt)', 'when x > 0 do apply dv_def(x - 1, nt)', 'apply dv_def(x, nt)', 'when x > 0 do apply part_ends(R, m, nt, b, nnz, (x - 1) % nt)', 'apply part_ends(R, m, nt, b, nnz, x % nt)',
                 'when x > 0 do apply ccnt_cat(C, {0} / nt + b, 0, {1}, {2})'.format(X1, E_(X1 + ' % nt'), E_(X1 + ' % nt + 1')),
                 'when x > 0 do apply lcnt_next(C, {0} / nt + b, 0, nnz)'.format(X1), 'when x == 0 do apply lcnt_none(C, b, 0, nnz)', 'when x == 0 do apply dv_uniq(0, 0, nt)'])
REG.lemma('psum_place', PN, PARTS + ['0 <= x', 'x < nt * n'], [PS('x + 1') + ' == ' + FX('x', 'x % nt + 1'), '0 <= ' + PS('x'), PS('x') + ' <= ' + PS('x + 1'), PS('x + 1') + ' <= nnz'],
          hints=['apply psum_is(C, R, m, nt, b, x, n, nnz)', 'apply dv_def(x, nt)', 'apply part_ends(R, m, nt, b, nnz, x % nt)', 'apply ccnt_cat(C, x / nt + b, 0, {0}, {1})'.format(E_('x % nt'), E_('x % nt + 1')),
                 'apply ccnt_range(C, x / nt + b, {0}, {1})'.format(E_('x % nt'), E_('x % nt + 1')), 'apply ccnt_range(C, x / nt + b, 0, %s)' % E_('x % nt'),
                 'apply ccnt_mono(C, x / nt + b, 0, %s, nnz)' % E_('x % nt + 1'), 'apply lcnt_next(C, x / nt + b, 0, nnz)', 'apply lcnt_mono(C, x / nt + b, x / nt + b + 1, 0, nnz)'])
REG.lemma('psum_mono', PN + [('y', 'int')], PARTS + ['0 <= x', 'x <= y', 'y <= nt * n'], ['0 <= ' + PS('x'), PS('x') + ' <= ' + PS('y'), PS('y') + ' <= nnz'], induct='y', base='x',
          hints=['when y > 0 do apply psum_place(C, R, m, nt, b, y - 1, n, nnz)', 'when x < nt * n do apply psum_place(C, R, m, nt, b, x, n, nnz)', 'when y == x && x > 0 do apply psum_place(C, R, m, nt, b, x - 1, n, nnz)'])

R, C, V, D = 'content(rowptr)', 'content(colidx)', 'content(values)', 'content(diagptr)'

# entries with a column below v, plus those with column v before position e
F = lambda v, e: '(lcnt(%s, %s, 0, nnz) + ccnt(%s, %s, 0, %s))' % (C, v, C, v, e)
POS = F('%s[q]' % C, 'q')

REG.lemma('ccnt_cat', [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('x', 'int'), ('hi', 'int')], ['lo <= x', 'x <= hi'],
          ['ccnt(A, v, lo, hi) == ccnt(A, v, lo, x) + ccnt(A, v, x, hi)'], induct='hi', base='x')
# the place of an entry is its own
REG.lemma('pos_inj', [('A', 'arr'), ('nnz', 'int'), ('p', 'int'), ('q', 'int')], ['0 <= p', 'p < q', 'q < nnz'],
          ['lcnt(A, A[p], 0, nnz) + ccnt(A, A[p], 0, p) != lcnt(A, A[q], 0, nnz) + ccnt(A, A[q], 0, q)'],
          hints=['apply ccnt_lt(A, A[p], 0, p, q)', 'apply ccnt_lt(A, A[q], 0, q, nnz)', 'apply ccnt_lt(A, A[p], 0, p, nnz)',
                 'apply lcnt_next(A, A[p], 0, nnz)', 'apply lcnt_next(A, A[q], 0, nnz)',
                 'when A[p] < A[q] do apply lcnt_mono(A, A[p] + 1, A[q], 0, nnz)', 'when A[q] < A[p] do apply lcnt_mono(A, A[q] + 1, A[p], 0, nnz)',
                 'apply ccnt_mono(A, A[p], 0, 0, p)', 'apply ccnt_mono(A, A[q], 0, 0, q)'])
REG.lemma('pos_range', [('A', 'arr'), ('nnz', 'int'), ('q', 'int')], ['0 <= q', 'q < nnz'],
          ['0 <= lcnt(A, A[q], 0, nnz) + ccnt(A, A[q], 0, q)', 'lcnt(A, A[q], 0, nnz) + ccnt(A, A[q], 0, q) < lcnt(A, A[q] + 1, 0, nnz)', 'lcnt(A, A[q] + 1, 0, nnz) <= nnz'],
          hints=['apply ccnt_lt(A, A[q], 0, q, nnz)', 'apply lcnt_next(A, A[q], 0, nnz)', 'apply lcnt_mono(A, A[q], A[q] + 1, 0, nnz)'])

REG.lemma('bucket_at', PN[:5] + PN[6:] + [('t', 'int'), ('c', 'int')], PARTS + ['0 <= t < nt', '0 <= c < n'],
          ['tix(c * nt + t, nt, n) == t * n + c', '0 <= c * nt + t', 'c * nt + t < nt * n', PS('c * nt + t + 1') + ' == lcnt(C, c + b, 0, nnz) + ccnt(C, c + b, 0, %s)' % E_('t + 1')],
          hints=['apply tix_tc(t, c, nt, n)', 'apply psum_place(C, R, m, nt, b, c * nt + t, n, nnz)'])
REG.lemma('ccnt_last', [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('hi', 'int')], ['lo < hi'], ['ccnt(A, v, lo, hi) == ccnt(A, v, lo, hi - 1) + (if A[hi - 1] == v then 1 else 0)'])

# the place of an entry in column order, and the entry at a place
REG.logic('place', [('A', 'arr'), ('nnz', 'int'), ('q', 'int')], 'int', 'lcnt(A, A[q], 0, nnz) + ccnt(A, A[q], 0, q)', rec=True)
REG.logic('who', [('A', 'arr'), ('nnz', 'int'), ('p', 'int'), ('h', 'int')], 'int',
          'if h <= 0 then 0 - 1 else if place(A, nnz, h - 1) == p then h - 1 else who(A, nnz, p, h - 1)', rec=True)
REG.lemma('who_is', [('A', 'arr'), ('nnz', 'int'), ('q', 'int'), ('h', 'int')], ['0 <= q < h', 'h <= nnz'], ['who(A, nnz, place(A, nnz, q), h) == q'], induct='h', base='q + 1',
          hints=['when q < h - 1 do apply pos_inj(A, nnz, q, h - 1)'])
REG.lemma('placed', [('A', 'arr'), ('nnz', 'int'), ('q', 'int')], ['0 <= q < nnz'], ['who(A, nnz, place(A, nnz, q), nnz) == q', '0 <= place(A, nnz, q)', 'place(A, nnz, q) < nnz'],
          hints=['apply who_is(A, nnz, q, nnz)', 'apply pos_range(A, nnz, q)'], trigger=['place(A, nnz, q)'])
# the row an entry lies in
REG.logic('rowof', [('R', 'arr'), ('b', 'int'), ('q', 'int'), ('h', 'int')], 'int', 'if h <= 0 then 0 - 1 else if R[h - 1] - b <= q then h - 1 else rowof(R, b, q, h - 1)', rec=True)
REG.lemma('row_is', [('R', 'arr'), ('b', 'int'), ('q', 'int'), ('h', 'int'), ('m', 'int'), ('r', 'int')],
          ['0 <= r < h', 'h <= m', 'forall i, j {R[i], R[j]} in 0..m + 1: i <= j ==> R[i] <= R[j]', 'R[r] - b <= q', 'q < R[r + 1] - b'], ['rowof(R, b, q, h) == r'], induct='h', base='r + 1')
REG.lemma('row_all', [('R', 'arr'), ('b', 'int'), ('h', 'int'), ('m', 'int')], ['0 <= h <= m', 'forall i, j {R[i], R[j]} in 0..m + 1: i <= j ==> R[i] <= R[j]'],
          ['forall r, q {R[r], rowof(R, b, q, h)}: 0 <= r && r < h && R[r] - b <= q && q < R[r + 1] - b ==> rowof(R, b, q, h) == r'], induct='h', base='0')
REG.lemma('ccnt_nil', [('A', 'arr'), ('v', 'int'), ('lo', 'int')], [], ['ccnt(A, v, lo, lo) == 0'])


def transpose(c, cfg):
    b, val, dia = cfg['base'], cfg['values'], cfg['diagptr']
    c.ghost('nnz')
    c.csr('this', values=val, diagptr=dia)
    c.known('rowptr[0]', str(b))
    c.req(*wf(base=str(b)))
    c.req('(n + 1) * max_threads <= INT_MAX', 'n + 1 <= INT_MAX', 'nnz + %d + max_threads <= INT_MAX' % b)
    c.use('LB_ax', 'LB_mono', 'placed', 'tix_inv')
    fill = lambda s, **k: s.format(R=R, C=C, V=V, b=b, B='content(bucket)', OC='content(AT->colidx)', OV='content(AT->values)', OD='content(AT->diagptr)', **k)
    E = lambda t: fill('({R}[LB({R}, m, nt, {t})] - {b})', t=t)
    PLACE = lambda q: fill('place({C}, nnz, {q})', q=q)
    ROW = lambda q: fill('rowof({R}, {b}, {q}, m)', q=q)
    SUM = lambda x: fill('psum({C}, {R}, m, nt, {b}, {x})', x=x)
    CEL = lambda x: fill('cel({C}, {R}, m, nt, {b}, {x})', x=x)
    TIX = lambda x: 'tix(%s, nt, n)' % x
    AT_ = lambda x: fill('{B}[{t}]', t=TIX(x))
    LAW = lambda nm, *a: fill(nm + '({C}, {R}, m, nt, {b}, {a}, n, nnz{y})', a=a[0], y=''.join(', ' + z for z in a[1:]))
    ENDS = lambda t: fill('part_ends({R}, m, nt, {b}, nnz, {t})', t=t)
    # thread-major buckets; k counts from 0 whatever the base
    buckets = lambda cond: ('bucket + %d' % b, 'k', cond)
    mine = 'tid * n <= k && k < tid * n + n'
    rank = 'txi(k, nt, n)'
    p = c.par(0)
    # every thread counts its entries by column
    a = p.phase().own(*buckets(mine))
    c.loop(0).inv(fill('{R}[LB({R}, m, nt, tid)] <= j && j <= {R}[LB({R}, m, nt, tid + 1)]'),
                  fill('forall k {{{B}[k]}} in tid * n..tid * n + n: {B}[k] == ccnt({C}, k - tid * n + {b}, {e}, j - {b})', e=E('tid')))
    c.loop(0).hint('entry', 'apply ' + ENDS('tid'))
    c.loop(0).hint('body', 'apply ' + ENDS('tid'), fill('apply ccnt_range({C}, {C}[j - {b}], {e}, j - {b})', e=E('tid')))
    a.hint('end', fill('apply forall k {{{B}[k]}} in tid * n..tid * n + n: tix_tc(tid, k - tid * n, nt, n)'))
    count = fill('{B}[k] == ccnt({C}, k % n + {b}, {e0}, {e1})', e0=E('k / n'), e1=E('k / n + 1'))
    a.cover('k', 'tid * n', '0', 'nt * n', count, trigger=fill('{B}[k]'))
    a.hint('after', fill('apply forall x {{{T}}} in 0..nt * n: ti(x, nt, n)', T=TIX('x')),
           'assert forall x {%s} in 0..nt * n: %s == %s' % (TIX('x'), AT_('x'), CEL('x')), 'forget')
    # prefix sums in column order, over n buckets each
    a = p.phase().own(*buckets('0 <= k && k < nt * n && tid * n <= %s && %s < tid * n + n' % (rank, rank)))
    c.loop(1).inv('tid * n + 1 <= i && i <= tid * n + n',
                  'forall x {%s} in tid * n..i: %s == %s - %s' % (TIX('x'), AT_('x'), SUM('x + 1'), SUM('tid * n')),
                  'forall x {%s} in i..tid * n + n: %s == %s' % (TIX('x'), AT_('x'), CEL('x')))
    c.loop(1).hint('body', 'apply ti(i, nt, n)', 'apply ti(i - 1, nt, n)', 'term ' + TIX('i'), 'term ' + TIX('i - 1'), 'apply ' + LAW('psum_mono', 'tid * n', 'i'), 'apply ' + LAW('psum_mono', 'i', 'i + 1'))
    a.hint('end', 'apply forall x {%s} in tid * n..tid * n + n: dv_uniq(tid, x - tid * n, n)' % TIX('x'))
    a.cover('x', 'tid * n', '0', 'nt * n', '%s == %s - %s' % (AT_('x'), SUM('x + 1'), SUM('x / n * n')), trigger=TIX('x'))
    a.hint('after', 'forget')
    # the last of each
    a = p.phase().own(*buckets('tid == 0'))
    stage = '{a} == (if x % n == n - 1 && x < {h} then {s} else {s} - {z})'.replace('{a}', AT_('x')).replace('{s}', SUM('x + 1')).replace('{z}', SUM('x / n * n'))
    c.loop(2).inv('1 <= i && i <= nt', 'forall x {%s} in 0..nt * n: %s' % (TIX('x'), stage.replace('{h}', 'n * i')))
    a.post('tid == 0 ==> (forall x {%s} in 0..nt * n: %s)' % (TIX('x'), stage.replace('{h}', 'nt * n')))
    a.hint('after', 'assert forall x {%s} in 0..nt * n: %s' % (TIX('x'), stage.replace('{h}', 'nt * n')), 'forget')
    # added to the rest
    a = p.phase().own(*buckets('0 <= k && k < nt * n && %s / n == tid && %s %% n != n - 1' % (rank, rank)))
    a.cover('x', 'tid * n', '0', 'nt * n', 'x %% n != n - 1 ==> %s == %s' % (AT_('x'), SUM('x + 1')), trigger=TIX('x'))
    a.hint('after', 'assert forall x {%s} in 0..nt * n: %s == %s' % (TIX('x'), AT_('x'), SUM('x + 1')))
    c.loop(3).inv('tid * n <= i && i < tid * n + n', '%s == %s' % (AT_('n * tid - 1'), SUM('n * tid')),
                  'forall x {%s} in tid * n..tid * n + n: %s == (if x < i || x == tid * n + n - 1 then %s else %s - %s)' % (TIX('x'), AT_('x'), SUM('x + 1'), SUM('x + 1'), SUM('tid * n')))
    mono = lambda *xs: ['apply ' + LAW('psum_mono', x, y) for x, y in zip(xs, xs[1:])]
    uniq = lambda t, lo: 'apply forall x {%s} in %s..%s + n: dv_uniq(%s, x - %s, n)' % (TIX('x'), lo, lo, t, lo)
    c.loop(2).hint('entry', uniq('0', '0 * n'))
    c.loop(2).hint('body', 'apply ti(n * i - 1, nt, n)', 'apply ti(n * i + n - 1, nt, n)', 'term ' + TIX('n * i - 1'), 'term ' + TIX('n * i + n - 1'),
                   uniq('i', 'n * i'), 'apply dv_uniq(i - 1, n - 1, n)', 'apply dv_uniq(i, n - 1, n)', *mono('0', 'n * i', 'n * i + n'))
    c.loop(3).hint('entry', 'apply dv_uniq(tid - 1, n - 1, n)', uniq('tid', 'tid * n'), 'apply ti(n * tid - 1, nt, n)', 'term ' + TIX('n * tid - 1'))
    c.loop(3).hint('body', 'apply dv_uniq(tid, i - tid * n, n)', 'apply ti(i, nt, n)', 'term ' + TIX('i'), 'apply ti(n * tid - 1, nt, n)', 'term ' + TIX('n * tid - 1'), 'apply dv_uniq(tid - 1, n - 1, n)', *mono('0', 'tid * n', 'i', 'i + 1'))
    # where the entries of column v before position e end
    at = lambda k, v, e: fill('{B}[{k}] == lcnt({C}, {v}, 0, nnz) + ccnt({C}, {v}, 0, {e})', k=k, v=v, e=e)
    own = lambda e: fill('forall k {{{B}[k]}} in tid * n..tid * n + n: ') + at('k', 'k - tid * n + %d' % b, e)
    a.hint('end', uniq('tid', 'tid * n'), 'when tid == 0 do assert %s == 0' % SUM('tid * n'))
    a.hint('after', fill('apply forall k {{{B}[k]}} in tid * n..tid * n + n: bucket_at({C}, {R}, m, nt, {b}, n, nnz, tid, k - tid * n)'), 'assert ' + own(E('tid + 1')), 'forget')
    # placing
    a = p.phase().own(*buckets(mine))
    got = fill('{OC}[{P}] == {W} + {b}', P=PLACE('q'), W=ROW('q'))
    part = '%s <= {w} && {w} < %s'.replace('{w}', fill('who({C}, nnz, k, nnz)')) % (E('tid'), E('tid + 1'))
    a.own('AT->colidx', 'k', part)
    if val:
        got += fill(' && {OV}[{P}] == {V}[q]', P=PLACE('q'))
        a.own('AT->values', 'k', part)
    placed = lambda e: 'forall q {%s} in %s..%s: %s' % (PLACE('q'), e, E('tid + 1'), got)
    L = 4 if val else 6
    nxt = fill('{R}[i + 1 - {b}] - {b}')
    c.loop(L).inv('iBegin - 1 <= i && i <= iEnd - 1', own(nxt), placed(nxt))
    here = 'j + 1 - %d' % b
    c.loop(L + 1).inv(fill('{R}[i - {b}] - 1 <= j && j <= {R}[i + 1 - {b}] - 1'), own(here), placed(here))
    q = 'j - %d' % b
    c.loop(L + 1).hint('body', 'term ' + PLACE(q), fill('apply placed({C}, nnz, {q})', q=q), fill('apply forall k {{{B}[k]}} in tid * n..tid * n + n: ccnt_last({C}, k - tid * n + {b}, 0, j + 1 - {b})'),
                       fill('apply row_is({R}, {b}, {q}, m, m, i - {b})', q=q), 'apply ' + ENDS('tid'))
    a.cover('q', E('tid'), '0', 'nnz', got, trigger=PLACE('q'))
    a.hint('end', 'apply ' + ENDS('tid'), fill('apply forall k {{{B}[k]}} in 0..n: ccnt_nil({C}, k + {b}, 0)'))
    starts = fill('forall k {{{B}[k]}} in 0..n: {B}[k] == lcnt({C}, k + {b}, 0, nnz)')
    a.post('tid == 0 ==> (%s)' % starts)
    sizes = fill('apply forall k {{{B}[k]}} in 0..n: lcnt_mono({C}, k + {b}, k + {b} + 1, 0, nnz)')
    a.hint('after', sizes)
    if b:
        p.phase()
        w = c.parfor(0).phase().own('bucket', 'k', 'k == i')
        w.cover('k', 'i - %d' % b, '0', 'n', fill('{B}[k] == lcnt({C}, k + {b}, 0, nnz) + {b}'), trigger=fill('{B}[k]'))
        a = p.phase()
    c.hint('exit', fill('apply lcnt_all({C}, n + {b}, 0, nnz)'), fill('apply row_all({R}, {b}, m, m)'))
    OR, OC, OV, OD = ['content(result->%s)' % f for f in ('rowptr', 'colidx', 'values', 'diagptr')]
    if dia:
        p.phase().race('bucket', 'k', 'k == n + %d' % b, 'nnz + %d' % b)
        w = c.parfor(1).phase().own('AT->diagptr', 'k', 'k == i - %d' % b)
        diag = lambda OR, OC, OD, v, e: '(exists q in {R}[{v}] - {b}..{e} {{{C}[q]}}: {C}[q] == {v} + {b}) ==> {R}[{v}] <= {D}[{v}] && {D}[{v}] < {R}[{v} + 1] && {C}[{D}[{v}] - {b}] == {v} + {b}'.format(R=OR, C=OC, D=OD, v=v, e=e, b=b)
        loc = [fill('{B}'), fill('{OC}'), fill('{OD}')]
        i = '(i - %d)' % b
        c.loop(8).inv(fill('{B}[{i}] <= j && j <= {B}[{i} + 1]', i=i), diag(*loc, i, 'j - %d' % b))
        w.cover('k', i, '0', 'n', diag(*loc, 'k', fill('{B}[k + 1] - {b}')), trigger=fill('{OD}[k]'))
    c.ens(('dimensions', 'result->m == n && result->n == m'),
          ('row-pointers', 'forall v {%s[v]} in 0..n + 1: %s[v] == lcnt(%s, v + %d, 0, nnz) + %d' % (OR, OR, C, b, b)))
    rows = 'forall r {{{R}[r]}} in 0..m: forall q {{{P}}} in {R}[r] - {b}..{R}[r + 1] - {b}: '.format(R=R, b=b, P=PLACE('q'))
    c.ens(('entries-placed', rows + '%s[%s] == r + %d' % (OC, PLACE('q'), b)))
    if val:
        c.ens(('values-placed', rows + '%s[%s] == %s[q]' % (OV, PLACE('q'), V)))
    if dia:
        c.ens(('diagonals-recorded', 'forall v {%s[v]} in 0..n: ' % OD + diag(OR, OC, OD, 'v', '%s[v + 1] - %d' % (OR, b))))


REG.fn('_ZNK4SpMP3CSR9transposeEv', 'CSR.cpp', 'CSR::transpose', transpose,
       configs=[dict(base=b, values=v, diagptr=d) for b in (0, 1) for v in (True, False) for d in (True, False)])
