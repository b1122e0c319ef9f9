"""Splitting into strictly triangular parts (C15)."""
from contract import REG
from csrbase import wf
import coo05

# entries below column t + b + d (d = 0: the lower part, d = 1: all but the upper part) in the rows t before row i
RCB = [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('d', 'int'), ('i', 'int')]
ROW = 'lcnt(C, {i} + b + d, R[{i}] - b, R[{i} + 1] - b)'
REG.logic('lows', RCB, 'int', 'if i <= 0 then 0 else lows(R, C, b, d, i - 1) + ' + ROW.format(i='(i - 1)'), rec=True)
MONO = 'forall x, y {R[x], R[y]} in 0..m + 1: x <= y ==> R[x] <= R[y]'
REG.lemma('lows_grow', [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('d', 'int'), ('m', 'int'), ('x', 'int'), ('i', 'int')], [MONO, '0 <= x', 'x <= i', 'i <= m'],
          ['lows(R, C, b, d, x) <= lows(R, C, b, d, i)', 'lows(R, C, b, d, i) - lows(R, C, b, d, x) <= R[i] - R[x]'], induct='i', base='x',
          hints=['when i > x do apply lcnt_mono(C, i - 1 + b + d, i - 1 + b + d, R[i - 1] - b, R[i] - b)'])
REG.lemma('lows_mono', [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('d', 'int'), ('m', 'int'), ('x', 'int'), ('i', 'int')], [MONO, '0 <= x', 'x <= m', '0 <= i', 'i <= m'],
          ['x <= i ==> lows(R, C, b, d, x) <= lows(R, C, b, d, i) && lows(R, C, b, d, i) - lows(R, C, b, d, x) <= R[i] - R[x]'],
          hints=['when x <= i do apply lows_grow(R, C, b, d, m, x, i)'])
REG.lemma('lcnt_cat', [('A', 'arr'), ('v', 'int'), ('lo', 'int'), ('x', 'int'), ('hi', 'int')], ['lo <= x', 'x <= hi'],
          ['lcnt(A, v, lo, hi) == lcnt(A, v, lo, x) + lcnt(A, v, x, hi)'], induct='hi', base='x')
# where the entry j of row i goes
REG.logic('lowpos', [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('i', 'int'), ('j', 'int')], 'int', 'lows(R, C, b, 0, i) + lcnt(C, i + b, R[i] - b, j)', rec=True)
REG.logic('uppos', [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('i', 'int'), ('j', 'int')], 'int', 'j - lows(R, C, b, 1, i) - lcnt(C, i + b + 1, R[i] - b, j)', rec=True)

IN = ['R[i] - b <= j', 'j < R[i + 1] - b', '0 <= i']
IJ = [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('i', 'int'), ('j', 'int')]
REG.lemma('lowpos_in', IJ, IN + ['C[j] < i + b'], ['lows(R, C, b, 0, i) <= lowpos(R, C, b, i, j)', 'lowpos(R, C, b, i, j) < lows(R, C, b, 0, i + 1)'],
          hints=['apply lcnt_cat(C, i + b, R[i] - b, j + 1, R[i + 1] - b)', 'apply lcnt_mono(C, i + b, i + b, j + 1, R[i + 1] - b)', 'apply lcnt_mono(C, i + b, i + b, R[i] - b, j)', 'term lows(R, C, b, 0, i + 1)'],
          trigger=['lowpos(R, C, b, i, j)'])
REG.lemma('uppos_in', IJ, IN + ['C[j] > i + b'], ['R[i] - b - lows(R, C, b, 1, i) <= uppos(R, C, b, i, j)', 'uppos(R, C, b, i, j) < R[i + 1] - b - lows(R, C, b, 1, i + 1)'],
          hints=['apply lcnt_cat(C, i + b + 1, R[i] - b, j + 1, R[i + 1] - b)', 'apply lcnt_mono(C, i + b + 1, i + b + 1, j + 1, R[i + 1] - b)', 'apply lcnt_mono(C, i + b + 1, i + b + 1, R[i] - b, j)', 'term lows(R, C, b, 1, i + 1)'],
          trigger=['uppos(R, C, b, i, j)'])

QJ = [('R', 'arr'), ('C', 'arr'), ('b', 'int'), ('i', 'int'), ('q', 'int'), ('j', 'int')]
REG.lemma('lowpos_lt', QJ, ['R[i] - b <= q', 'q < j', 'C[q] < i + b'], ['lowpos(R, C, b, i, q) < lowpos(R, C, b, i, j)'],
          hints=['apply lcnt_cat(C, i + b, R[i] - b, q + 1, j)', 'apply lcnt_mono(C, i + b, i + b, q + 1, j)'], trigger=[('lowpos(R, C, b, i, q)', 'lowpos(R, C, b, i, j)')])
REG.lemma('uppos_lt', QJ, ['R[i] - b <= q', 'q < j', 'C[q] > i + b'], ['uppos(R, C, b, i, q) < uppos(R, C, b, i, j)'],
          hints=['apply lcnt_cat(C, i + b + 1, R[i] - b, q + 1, j)', 'apply lcnt_mono(C, i + b + 1, i + b + 1, q + 1, j)'], trigger=[('uppos(R, C, b, i, q)', 'uppos(R, C, b, i, j)')])


REG.fn('_ZNK4SpMP3CSR14useMemoryPool_Ev', 'CSR.cpp', 'CSR::useMemoryPool_', lambda c, cfg: setattr(c, 'result', cfg['pooled']), mode='assume',
       call_cfg=lambda ver, st, vals: dict(pooled=ver.cfg.get('pooled', False)))


def split(c, cfg):
    b, ext, dia, used = (cfg[k] for k in ('base', 'extptr', 'diagptr', 'used'))
    c.ghost('nnz')
    c.csr('A', values=True, idiag=True, diagptr=dia, extptr=ext)
    for o in 'LU':
        c.csr(o, nnz='nnz', m=None, rowptr=used, colidx=used, values=used, idiag=used, diag=False, diagptr=False, extptr=used and o == 'U')
        c.known(o + '->ownData_', False)
        if used:
            c.req('0 <= %s->m' % o)
    c.known('A->rowptr[0]', str(b))
    c.req(*wf('A', base=str(b)))
    c.req('A->m + max_threads <= INT_MAX')
    R, C, V, X, I_, D = ['old(content(A->%s))' % f for f in ('rowptr', 'colidx', 'values', 'extptr', 'idiag', 'diagptr')]
    if dia:
        c.req('forall i {A->diagptr[i]} in 0..A->m: 0 <= A->diagptr[i] && A->diagptr[i] < INT_MAX')
    if ext:
        c.req('forall i {A->extptr[i]} in 0..A->m: A->rowptr[i] <= A->extptr[i] && A->extptr[i] <= A->rowptr[i + 1]',
              'forall i {A->extptr[i]} in 0..A->m: forall k {A->colidx[k]} in A->extptr[i] - %d..A->rowptr[i + 1] - %d: A->colidx[k] > i + %d' % (b, b, b))
    fmt = lambda t, **k: t.format(R=R, C=C, V=V, X=X, I=I_, D=D, b=b, **k)
    low = lambda i, d=0: fmt('lows({R}, {C}, {b}, {d}, {i})', d=d, i=i)
    up = lambda i: fmt('({R}[{i}] - {b} - {s})', i=i, s=low(i, 1))
    c.use('lowpos_in', 'uppos_in', 'lowpos_lt', 'uppos_lt', 'SP_ax', 'SP_mono', 'lcnt_mono')
    for d in (0, 1):
        c.hint('entry', 'apply forall x, y {{{x}; {y}}} in 0..A->m + 1: lows_mono({R}, {C}, {b}, {d}, A->m, x, y)'.format(x=low('x', d), y=low('y', d), R=R, C=C, b=b, d=d))
    fields = ('rowptr', 'colidx', 'values', 'idiag')
    LR, LC, LV, LI = ['content(L->%s)' % f for f in fields]
    UR, UC, UV, UI = ['content(U->%s)' % f for f in fields]
    UX = 'content(U->extptr)'
    part = 'SP(A->m, nt, %s)'
    lo, hi = part % 'tid', part % '(tid + 1)'
    P0, P1 = 'content(rowPtrPartialSum_0)', 'content(rowPtrPartialSum_1)'
    p = c.par(0)
    # counting
    a = p.phase()
    for o in 'LU':
        a.own(o + '->rowptr', 'k', '%s <= k && k < %s' % (lo, hi))
    for x in '01':
        a.own('rowPtrPartialSum_' + x, 'k', 'k == tid + 1')
    sides = ((LR, low, P0), (UR, up, P1))
    for A_, f, P in sides:
        c.loop(0).inv('forall k {%s[k]} in %s..i: %s[k] == %s - %s' % (A_, lo, A_, f('k'), f(lo)))
        a.post('forall k {%s[k]} in %s..%s: %s[k] == %s - %s' % (A_, lo, hi, A_, f('k'), f(lo)))
        a.post('%s[tid + 1] == %s - %s' % (P, f(hi), f(lo)))
        a.hint('after', 'assert forall t {%s[t]} in 1..nt + 1: %s[t] == %s - %s' % (P, P, f(part % 't'), f(part % '(t - 1)')))
    c.loop(0).inv('iBegin <= i && i <= iEnd', 'nnzL == %s - %s' % (low('i'), low(lo)), 'nnzU == %s - %s' % (up('i'), up(lo)))
    x = fmt('({X}[i] - {b})' if ext else '({R}[i + 1] - {b})')
    e = fmt('({R}[i] - {b})')
    cl = lambda j: fmt('lcnt({C}, i + {b}, {e}, {j})', e=e, j=j)
    cu = lambda j: fmt('lcnt({C}, i + {b} + 1, {e}, {j})', e=e, j=j)
    c.loop(1).inv('%s <= j && j <= %s' % (e, x), 'nnzL == %s - %s + %s' % (low('i'), low(lo), cl('j')), 'nnzU == %s - %s + j - %s - %s' % (up('i'), up(lo), e, cu('j')))
    e1 = fmt('({R}[i + 1] - {b})')
    for lp in (0, 3):
        c.loop(lp).hint('body', 'term ' + low('i + 1'), 'term ' + low('i + 1', 1), 'term A->rowptr[i]', 'term A->rowptr[i + 1]')
    if ext:
        c.loop(0).hint('body', 'term A->extptr[i]')
        for d in (0, 1):
            c.loop(1).hint('exit', fmt('apply lcnt_cat({C}, i + {v}, {R}[i] - {b}, {X}[i] - {b}, {R}[i + 1] - {b})', v=b + d),
                           fmt('apply lcnt_none({C}, i + {v}, {X}[i] - {b}, {R}[i + 1] - {b})', v=b + d))
    # sums
    zero = [('assert %s == 0' % low(part % '0', d)) for d in (0, 1)] + ['term ' + low('0', d) for d in (0, 1)]
    a.hint('after', *zero)
    c.loop(2).hint('body', *zero, 'term ' + low(part % '(i + 1)'), 'term ' + low(part % '(i + 1)', 1))
    c.loop(2).hint('exit', *zero)
    for lp in (3, 4):
        c.loop(lp).hint('body', *['term ' + low(x, d) for d in (0, 1) for x in ('0', 'A->m', 'i', 'i + 1', lo, hi)])
    p.phase()
    done = lambda i: [s for A_, f, P in sides for s in ('forall t {%s[t]} in 0..%s + 1: %s[t] == %s' % (P, i, P, f(part % 't')),
                                                       'forall t {%s[t]} in %s + 1..nt + 1: %s[t] == %s - %s' % (P, i, P, f(part % 't'), f(part % '(t - 1)')))]
    c.loop(2).inv('1 <= i && i <= nt', *done('i'))
    # placing
    a = p.phase()
    rows = '%s <= k && k < %s' % (lo, hi)
    for o, f in (('L', low), ('U', up)):
        a.own(o + '->rowptr', 'k', rows).own(o + '->idiag', 'k', rows)
        for g in ('colidx', 'values'):
            a.own('%s->%s' % (o, g), 'k', '%s <= k && k < %s' % (f(lo), f(hi)))
    if ext:
        a.own('U->extptr', 'k', rows)
    for A_, f, P in sides:
        c.loop(3).inv('forall k {%s[k]} in %s..i: %s[k] == %s' % (A_, lo, A_, f('k')), 'forall k {%s[k]} in i..%s: %s[k] == %s - %s' % (A_, hi, A_, f('k'), f(lo)))
        a.cover('k', lo, '0', 'A->m', '%s[k] == %s' % (A_, f('k')))
    inrow = lambda A_, V_, pos, cmp, r, j: fmt('forall j {{{P}}} in {R}[{r}] - {b}..{j}: {C}[j] {cmp} {r} + {b} ==> {A}[{P}] == {C}[j] - {b} && {W}[{P}] == {V}[j]',
                                               P=fmt(pos + '({R}, {C}, {b}, {r}, j)', r=r), r=r, j=j, cmp=cmp, A=A_, W=V_)
    put = ((LC, LV, 'lowpos', '<', low, 'idx0', cl), (UC, UV, 'uppos', '>', up, 'idx1', cu))
    c.loop(3).inv('iBegin <= i && i <= iEnd')
    c.loop(4).inv('%s <= j && j <= %s' % (e, e1), 'idx0 == %s + %s' % (low('i'), cl('j')), 'idx1 == %s + j - %s - %s' % (up('i'), e, cu('j')))
    c.loop(4).hint('body', 'term A->colidx[j]', *[fmt('term %s({R}, {C}, {b}, i, j)' % q[2]) for q in put])
    for A_, V_, pos, cmp, f, idx, cc in put:
        end = lambda r: fmt('{R}[{r} + 1] - {b}', r=r)
        c.loop(3).inv(fmt('forall r {{{R}[r]}} in {lo}..i: ', lo=lo) + inrow(A_, V_, pos, cmp, 'r', end('r')), 'forall k {%s[k]} in %s..%s: 0 <= %s[k] && %s[k] < A->n' % (A_, f(lo), f('i'), A_, A_))
        c.loop(4).inv(fmt('forall r {{{R}[r]}} in {lo}..i: ', lo=lo) + inrow(A_, V_, pos, cmp, 'r', end('r')), 'forall k {%s[k]} in %s..%s: 0 <= %s[k] && %s[k] < A->n' % (A_, f(lo), idx, A_, A_),
                      inrow(A_, V_, pos, cmp, 'i', 'j').replace('forall j', 'forall q').replace(', j)', ', q)').replace('[j]', '[q]'))
        a.cover('r', lo, '0', 'A->m', inrow(A_, V_, pos, cmp, 'r', end('r')), trigger=fmt('{R}[r]'))
        a.cover('k', f(lo), '0', f('A->m'), '0 <= %s[k] && %s[k] < A->n' % (A_, A_), trigger=A_ + '[k]')
    for A_ in (LI, UI):
        c.loop(3).inv(fmt('forall k {{{A}[k]}} in {lo}..i: {A}[k] == {I}[k]', A=A_, lo=lo))
        a.cover('k', lo, '0', 'A->m', fmt('{A}[k] == {I}[k]', A=A_))
    if ext:
        xs = lambda k: fmt('{U}[{k}] == {f} - ({R}[{k} + 1] - {X}[{k}])', U=UX, k=k, f=up('%s + 1' % k))
        c.loop(3).inv('forall k {%s[k]} in %s..i - 1: %s' % (UX, lo, xs('k')))
        c.loop(3).hint('body', 'term A->extptr[i - 1]')
        a.cover('k', lo, '0', 'A->m', xs('k'))
    for o in 'LU':
        for f in fields + ('extptr',) + (('m', 'n') if True else ()):
            c.assign('%s->%s' % (o, f))
        if used:
            c.frees(o + '->idiag')
    if b:
        for f, on in (('rowptr', True), ('colidx', True), ('diagptr', dia), ('extptr', ext)):
            if on:
                c.assign('A->%s[k]' % f)
                c.ens(('source-%s-kept' % f, fmt('forall k {{A->{f}[k]}} in 0..{n}: A->{f}[k] == old(A->{f}[k])', f=f, n={'rowptr': 'A->m + 1', 'colidx': 'nnz'}.get(f, 'A->m'))))
    c.ens(('dimensions', 'L->m == A->m && L->n == A->n && U->m == A->m && U->n == A->n'),
          ('lower-row-pointers', 'forall i {%s[i]} in 0..A->m + 1: %s[i] == %s + %d' % (LR, LR, low('i'), b)),
          ('upper-row-pointers', 'forall i {%s[i]} in 0..A->m + 1: %s[i] == %s + %d' % (UR, UR, up('i'), b)))
    for nm, (A_, V_, pos, cmp, f, idx, cc) in zip(('lower', 'upper'), put):
        c.ens((nm + '-entries-placed', fmt('forall r {{{R}[r]}} in 0..A->m: ') + inrow(A_, V_, pos, cmp, 'r', end('r')).replace(fmt('{C}[j] - {b} &&'), fmt('{C}[j] &&'))),
              (nm + '-columns-in-range', 'forall k {%s[k]} in 0..%s: %d <= %s[k] && %s[k] < A->n + %d' % (A_, f('A->m'), b, A_, A_, b)))
    c.ens(('inverse-diagonals', fmt('forall k {{{L}[k]}} in 0..A->m: {L}[k] == {I}[k]', L=LI) + ' && (' + fmt('forall k {{{L}[k]}} in 0..A->m: {L}[k] == {I}[k])', L=UI)))
    if ext:
        c.ens(('ends-of-the-local-part', fmt('forall k {{{U}[k]}} in 0..A->m: ', U=UX) + xs('k') + ' + %d' % b))
    else:
        c.ens(('no-ends-of-local-parts', 'isnull(U->extptr)'))


REG.fn('_ZN4SpMP7splitLUERNS_3CSREPS0_S2_', 'SymGS.cpp', 'splitLU', split,
       configs=[dict(base=b, extptr=e, diagptr=d, used=u) for b in (0, 1) for e in (True, False) for d in (True, False) for u in (False, True)])
