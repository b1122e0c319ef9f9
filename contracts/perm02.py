"""Symmetric and one-sided permutations (C02)."""
import itertools
from contract import REG
from csrbase import wf
from perm03 import permuted, total, is_perm, shape, src, start, R, C, V, X

REG.lemma('plen_next', [('R', 'arr'), ('P', 'arr'), ('i', 'int')], ['0 <= i'], ['plen(R, P, i + 1) == plen(R, P, i) + R[P[i] + 1] - R[P[i]]'])

REG.logic('mark', [('i', 'int')], 'int')     # names the row at hand

PC = 'content(columnPerm)'

# how often column c (with value v) occurs in lo..hi
CV = [('C', 'arr'), ('V', 'rarr'), ('c', 'int'), ('v', 'real'), ('lo', 'int'), ('hi', 'int')]
REG.logic('pcnt', CV, 'int', 'if hi <= lo then 0 else pcnt(C, V, c, v, lo, hi - 1) + (if C[hi - 1] == c && V[hi - 1] == v then 1 else 0)', rec=True)
CC = [('C', 'arr'), ('c', 'int'), ('lo', 'int'), ('hi', 'int')]
REG.logic('ccnt', CC, 'int', 'if hi <= lo then 0 else ccnt(C, c, lo, hi - 1) + (if C[hi - 1] == c then 1 else 0)', rec=True)
# the same after renaming the columns by P
REG.logic('pcntm', [('P', 'arr'), ('b', 'int')] + CV, 'int',
          'if hi <= lo then 0 else pcntm(P, b, C, V, c, v, lo, hi - 1) + (if P[C[hi - 1] - b] + b == c && V[hi - 1] == v then 1 else 0)', rec=True)
REG.logic('ccntm', [('P', 'arr'), ('b', 'int')] + CC, 'int',
          'if hi <= lo then 0 else ccntm(P, b, C, c, lo, hi - 1) + (if P[C[hi - 1] - b] + b == c then 1 else 0)', rec=True)

p_, c_ = 'pcnt(%s, %s, c, v, lo, hi)', 'ccnt(%s, c, lo, hi)'
# one element overwritten
REG.lemma('pcnt_c', CV + [('p', 'int'), ('x', 'int')], ['lo <= hi'],
          [p_ % ('upd(C, p, x)', 'V') + ' == ' + p_ % ('C', 'V') + ' + (if lo <= p && p < hi then (if x == c && V[p] == v then 1 else 0) - (if C[p] == c && V[p] == v then 1 else 0) else 0)'],
          induct='hi', base='lo', trigger=[p_ % ('upd(C, p, x)', 'V')])
REG.lemma('pcnt_v', CV + [('p', 'int'), ('y', 'real')], ['lo <= hi'],
          [p_ % ('C', 'upd(V, p, y)') + ' == ' + p_ % ('C', 'V') + ' + (if lo <= p && p < hi then (if C[p] == c && y == v then 1 else 0) - (if C[p] == c && V[p] == v then 1 else 0) else 0)'],
          induct='hi', base='lo', trigger=[p_ % ('C', 'upd(V, p, y)')])
REG.lemma('ccnt_c', CC + [('p', 'int'), ('x', 'int')], ['lo <= hi'],
          [c_ % 'upd(C, p, x)' + ' == ' + c_ % 'C' + ' + (if lo <= p && p < hi then (if x == c then 1 else 0) - (if C[p] == c then 1 else 0) else 0)'],
          induct='hi', base='lo', trigger=[c_ % 'upd(C, p, x)'])
# equal ranges have equal counts
REG.lemma('pcnt_ext', CV + [('D', 'arr'), ('W', 'rarr')], ['lo <= hi'],
          [p_ % ('C', 'V') + ' == ' + p_ % ('D', 'W') + ' || (exists d in lo..hi {C[d]}: C[d] != D[d] || V[d] != W[d])'],
          induct='hi', base='lo', trigger=[(p_ % ('C', 'V'), p_ % ('D', 'W'))])
REG.lemma('ccnt_ext', CC + [('D', 'arr')], ['lo <= hi'],
          [c_ % 'C' + ' == ' + c_ % 'D' + ' || (exists d in lo..hi {C[d]}: C[d] != D[d])'],
          induct='hi', base='lo', trigger=[(c_ % 'C', c_ % 'D')])
# a renamed copy at another place
M = [('P', 'arr'), ('b', 'int')]
REG.lemma('pcnt_copy', M + CV + [('D', 'arr'), ('W', 'rarr'), ('at', 'int')],
          ['lo <= hi', 'forall k {D[k]} in at..at + hi - lo: D[k] == P[C[k - at + lo] - b] + b', 'forall k {W[k]} in at..at + hi - lo: W[k] == V[k - at + lo]'],
          ['pcnt(D, W, c, v, at, at + hi - lo) == pcntm(P, b, C, V, c, v, lo, hi)'], induct='hi', base='lo')
REG.lemma('ccnt_copy', M + CC + [('D', 'arr'), ('at', 'int')],
          ['lo <= hi', 'forall k {D[k]} in at..at + hi - lo: D[k] == P[C[k - at + lo] - b] + b'],
          ['ccnt(D, c, at, at + hi - lo) == ccntm(P, b, C, c, lo, hi)'], induct='hi', base='lo')
REG.lemma('ccnt_some', CC, ['lo <= hi'], ['0 <= ' + c_ % 'C', c_ % 'C' + ' > 0 ==> (exists k in lo..hi {C[k]}: C[k] == c)'], induct='hi', base='lo')
REG.lemma('ccnt_member', CC + [('k', 'int')], ['lo <= k < hi', 'C[k] == c'], [c_ % 'C' + ' > 0'], induct='hi', base='k + 1',
          hints=['apply ccnt_some(C, c, lo, hi - 1)'])

FIELDS = ('values', 'diagptr', 'idiag', 'extptr')
INV = 'rowInversePerm'


def source(c, cfg, inv):
    """what the source matrix, the column renaming and the row permutation are"""
    b = permuted(c, cfg, inv)
    c.arr('columnPerm', 'int', 'n')
    c.req('forall k {columnPerm[k]} in 0..n: 0 <= columnPerm[k] && columnPerm[k] < n')
    if cfg['diagptr']:
        end = X + '[i]' if cfg['extptr'] else R + '[i + 1]'
        c.req('m <= n', 'forall i {{{D}[i]}} in 0..m: {R}[i] <= {D}[i] && {D}[i] < {E} && {C}[{D}[i] - {b}] == i + {b}'.format(D='content(diagptr)', R=R, C=C, E=end, b=b))
    c.ghost('gc').ghost('gv', 'real')
    return b


class Row:
    """facts about one row of the result; i: row (from 0), as written into formulas"""
    def __init__(self, out, cfg, inv):
        self.cfg, self.out, self.b = cfg, out, cfg['base']
        self.inv = inv

    def fill(self, f, i='i'):
        row = src(i, self.inv, self.cfg['perm'])
        ext = self.cfg['extptr']
        RO = 'content(%s->rowptr)' % self.out
        beg = '%s[%s]' % (RO, i)
        d = dict(B=str(self.b), RO=RO, BEG=beg, END='(%s + %s[%s + 1] - %s[%s])' % (beg, R, row, R, row), I=i, ROW=row,
                 CO='content(%s->colidx)' % self.out, VO='content(%s->values)' % self.out, DO='content(%s->diagptr)' % self.out,
                 IO='content(%s->idiag)' % self.out, SB='%s[%s]' % (R, row), SE='%s[%s]' % (X, row) if ext else '%s[%s + 1]' % (R, row),
                 C=C, V=V, X=X, PC=PC, D='content(diagptr)', ID='content(idiag)')
        d['MID'] = '(%s + %s - %s)' % (beg, d['SE'], d['SB']) if ext else d['END']
        import re
        return re.sub(r'\$(\w+)', lambda m: d[m.group(1)], f)

    MAPPED = 'forall k {$CO[k]} in $BEG - $B..$MID - $B: $CO[k] == $PC[$C[k - $BEG + $SB] - $B] + $B'
    VALUES = 'forall k {$VO[k]} in $BEG - $B..$MID - $B: $VO[k] == $V[k - $BEG + $SB]'
    XCOLS = 'forall k {$CO[k]} in $MID - $B..$END - $B: $CO[k] == $C[k - $BEG + $SB]'
    XVALS = 'forall k {$VO[k]} in $MID - $B..$END - $B: $VO[k] == $V[k - $BEG + $SB]'
    ASC = 'forall p, q {$CO[p], $CO[q]} in $BEG - $B..$MID - $B: p <= q ==> $CO[p] <= $CO[q]'
    PAIRS = 'pcnt($CO, $VO, gc, gv, $BEG - $B, $MID - $B) == pcntm($PC, $B, $C, $V, gc, gv, $SB - $B, $SE - $B)'
    COLS = 'ccnt($CO, gc, $BEG - $B, $MID - $B) == ccntm($PC, $B, $C, gc, $SB - $B, $SE - $B)'
    DIN = '$BEG <= $DO[$I] && $DO[$I] < $MID'
    DPOS = '$CO[$DO[$I] - $B] == $PC[$ROW] + $B'
    INVD = '$IO[$I] == $ID[$ROW]'

    def facts(self):
        g = self.cfg
        r = []
        if g['sort']:
            r += [('columns-ascend', self.ASC), ('columns-renamed', self.COLS)]
            if g['values']:
                r.append(('entries-renamed', self.PAIRS))
        else:
            r.append(('columns-renamed', self.MAPPED))
            if g['values']:
                r.append(('values-kept', self.VALUES))
        if g['extptr']:
            r.append(('external-columns-kept', self.XCOLS))
            if g['values']:
                r.append(('external-values-kept', self.XVALS))
        if g['diagptr']:
            r += [('diagonal-positions-in-row', self.DIN), ('diagonal-positions', self.DPOS)]
        if g['idiag']:
            r.append(('inverse-diagonals', self.INVD))
        return r


def steps(c, inv, perm, b, RO):
    """what the row pointers of the result satisfy; the argument through plen is then forgotten"""
    P = 'content(%s)' % inv
    by = ['apply plen_total(%s, %s, QP, m)' % (R, P),
          'apply forall i {plen(%s, %s, i)} in 0..m + 1: plen_range(%s, %s, m, i)' % (R, P, R, P)] if perm else []
    one = ['apply forall i {%s[i]} in 0..m: plen_next(%s, %s, i)' % (RO, R, P)] if perm else []
    two = ['apply forall i, j {plen(%s, %s, i); plen(%s, %s, j)} in 0..m + 1: plen_mono2(%s, %s, m, i, j)' % ((R, P)*3)] if perm else []
    row = src('i', inv, perm)

    def show(f, hs):
        c.hint('entry', 'assert ' + f + (' by ' + ' ;; '.join(hs) if hs else ''))
    show('{RO}[m] == {R}[m]'.format(RO=RO, R=R), by)
    show('forall i {{{RO}[i]}} in 0..m + 1: {b} <= {RO}[i] && {RO}[i] <= nnz + {b}'.format(RO=RO, b=b), by)
    show('forall i, j {{{RO}[i], {RO}[j]}} in 0..m + 1: i <= j ==> {RO}[i] <= {RO}[j]'.format(RO=RO), two)
    show('forall i {{{RO}[i]}} in 0..m: {b} <= {R}[{row}] && {R}[{row}] <= {R}[{row} + 1] && {R}[{row} + 1] <= nnz + {b}'.format(RO=RO, R=R, row=row, b=b), [])
    show('forall i, j {{{RO}[i], {RO}[j]}} in 0..m + 1: i < j ==> {RO}[i] + {R}[{row} + 1] - {R}[{row}] <= {RO}[j]'.format(RO=RO, R=R, row=row), one + two)
    show('forall i {{mark(i)}} in 0..m: {RO}[i + 1] == {RO}[i] + {R}[{row} + 1] - {R}[{row}]'.format(RO=RO, R=R, row=row), one)
    for f in is_perm(inv)[1:] if perm else []:
        c.hint('entry', 'drop ' + f)
    for f in wf(base=str(b)):
        if f.startswith('forall i, j {rowptr'):
            c.hint('entry', 'drop ' + f)
    c.hint('entry', 'drop ' + shape('out', 'i', inv, perm, b))


def permute_main(c, cfg):
    perm, sort, inv = cfg['perm'], cfg['sort'], INV
    b = source(c, cfg, inv)
    c.scalar('sort').known('sort', sort)
    c.csr('out', nnz='nnz', **{f: cfg[f] for f in FIELDS})
    c.req('out->m == m', shape('out', 'i', inv, perm, b))
    if cfg['extptr']:
        c.req('forall i {out->extptr[i]} in 0..m: out->extptr[i] == out->rowptr[i] + extptr[ROW] - rowptr[ROW]'.replace('ROW', src('i', inv, perm)))
    W = Row('out', cfg, inv)
    F = lambda f, i: W.fill(f, i)
    c.use('LB_ax', 'LB_mono')
    if sort:
        c.use('ccnt_c', 'ccnt_ext')
        if cfg['values']:
            c.use('pcnt_c', 'pcnt_v', 'pcnt_ext')
    c.known('out->rowptr[0]', str(b))
    RO, CO, VO = [W.fill(x) for x in ('$RO', '$CO', '$VO')]
    steps(c, inv, perm, b, RO)
    which = {(0, True): 0, (0, False): 1, (1, True): 2, (1, False): 3}[b, sort]
    part = lambda t: 'LB(%s, m, nt, %s)' % (RO, t)
    own = '{RO}[{lo}] - {b} <= k && k < {RO}[{hi}] - {b}'.format(RO=RO, lo=part('tid'), hi=part('tid + 1'), b=b)
    mine = '%s <= k && k < %s' % (part('tid'), part('tid + 1'))
    p = c.par(which).phase()
    for f, on in (('colidx', True), ('values', cfg['values'])):
        if on:
            p.own('out->' + f, 'k', own)
            c.assign('out->%s[k]' % f)
    for f in ('diagptr', 'idiag'):
        if cfg[f]:
            p.own('out->' + f, 'k', mine)
            c.assign('out->%s[k]' % f)
    facts = W.facts()
    i = 'i - %d' % b
    # the general path: rows, copy, external copy, sort, shift, diagonal search; the common path: rows, copy, external copy
    L = 9*which
    paths = [(L, L + 1, L + 2), (L + 3, L + 4, L + 5)]
    for rows, cp, xcp in paths:
        c.loop(rows).inv('iBegin <= i && (iBegin <= iEnd ==> i <= iEnd)')
        for nm, f in facts:
            c.loop(rows).inv('forall r {%s[r]} in iBegin - %d..%s: %s' % (RO, b, i, F(f, 'r')))
        c.loop(rows).hint('body', 'term mark(%s)' % i, 'term %s[%s]' % (RO, i), 'term %s[%s + 1]' % (RO, i))
        below = 'forall k {%s[k]}: k < %s ==> %s[k] == pre(%s)[k]'
        arrs = [CO] + ([VO] if cfg['values'] else [])
        beg, end, mid, sb = [F(x, i) for x in ('$BEG', '$END', '$MID', '$SB')]
        c.loop(cp).inv('begin <= j && j <= end', 'k == newBegin + j - begin', *[below % (a, '%s - %d' % (beg, b), a, a) for a in arrs])
        c.loop(cp).inv(F(W.MAPPED, i).replace('..%s - %d' % (mid, b), '..k - %d' % b, 1).replace('forall k {', 'forall q {').replace('[k]', '[q]').replace('[k -', '[q -'))
        if cfg['values']:
            c.loop(cp).inv(F(W.VALUES, i).replace('..%s - %d' % (mid, b), '..k - %d' % b, 1).replace('forall k {', 'forall q {').replace('[k]', '[q]').replace('[k -', '[q -'))
        if cfg['extptr']:
            c.loop(xcp).inv('end <= j && j <= %s' % F('$R[$ROW + 1]'.replace('$R[', R + '['), i), 'k == newBegin + j - begin',
                            *[below % (a, '%s - %d' % (mid, b), a, a) for a in arrs])
            for f in (W.XCOLS, W.XVALS)[:len(arrs)]:
                c.loop(xcp).inv(F(f, i).replace('..%s - %d' % (end, b), '..k - %d' % b, 1).replace('forall k {', 'forall q {').replace('[k]', '[q]').replace('[k -', '[q -'))
    if cfg['diagptr']:
        dc = F('$PC[$ROW] + $B', i)
        c.loop(L + 4).inv('diagCol == -1 || diagCol == ' + dc, F('$D[$ROW]', i) + ' < j ==> diagCol == ' + dc)
        c.loop(L + 8).inv('%s <= j && j <= %s' % (beg, mid), 'forall q {%s[q]} in %s - %d..j - %d: %s[q] != diagCol' % (CO, beg, b, b, CO),
                          'diagCol == ' + dc, 'forall r {%s[r]}: %s[r] == pre(%s)[r]' % ((W.fill('$DO'),)*3))
    if sort:
        lo, hi = '%s - %d' % (beg, b), '%s - %d' % (mid, b)
        outside = ['forall k {%s[k]}: k < %s || %s <= k ==> %s[k] == pre(%s)[k]' % (a, lo, hi, a, a) for a in arrs]
        args = (b, C, R, src(i, inv, perm), b, F('$SE', i), b)
        counts = [('ccnt(%s, gc, %s, %s)' % (CO, lo, hi), F('ccntm($PC, $B, $C, gc, $SB - $B, $SE - $B)', i), 'if {x} == gc then 1 else 0')]
        if cfg['diagptr']:
            counts.append(('ccnt(%s, diagCol, %s, %s)' % (CO, lo, hi), F('ccntm($PC, $B, $C, diagCol, $SB - $B, $SE - $B)', i), 'if {x} == diagCol then 1 else 0'))
        if cfg['values']:
            counts.append(('pcnt(%s, %s, gc, gv, %s, %s)' % (CO, VO, lo, hi), F('pcntm($PC, $B, $C, $V, gc, gv, $SB - $B, $SE - $B)', i), 'if {x} == gc && {y} == gv then 1 else 0'))
        pre_ = ['apply ccnt_copy({PC}, {b}, {C}, {g}, {SB} - {b}, {SE} - {b}, {CO}, {lo})'.format(PC=PC, b=b, C=C, g=g, SB=F('$SB', i), SE=F('$SE', i), CO=CO, lo=lo)
                for g in ('gc', 'diagCol')[:2 if cfg['diagptr'] else 1]]
        if cfg['values']:
            pre_.append('apply pcnt_copy({PC}, {b}, {C}, {V}, gc, gv, {SB} - {b}, {SE} - {b}, {CO}, {VO}, {lo})'.format(PC=PC, b=b, C=C, V=V, SB=F('$SB', i), SE=F('$SE', i), CO=CO, VO=VO, lo=lo))
        if cfg['diagptr']:
            pre_.append('apply ccnt_member({CO}, diagCol, {lo}, {hi}, {lo} + {off})'.format(CO=CO, lo=lo, hi=hi, off=F('$D[$ROW] - $SB', i)))
        c.loop(L + 6).hint('entry', *pre_)
        c.loop(L + 6).inv('newBegin + 1 <= j && (newBegin < %s ==> j <= %s)' % (mid, mid),
                          'forall p, q {%s[p], %s[q]} in %s..j - %d: p <= q ==> %s[p] <= %s[q]' % (CO, CO, lo, b, CO, CO),
                          *(outside + ['%s == %s' % (x, y) for x, y, _ in counts]))
        hole = 'k + 1 - %d' % b
        adj = lambda t, x, y: '(' + t.format(x=x, y=y) + ')'
        c.loop(L + 7).inv('newBegin - 1 <= k && k < j',
                          'forall p, q {{{C}[p], {C}[q]}} in {lo}..j + 1 - {b}: p <= q && p != {h} && q != {h} ==> {C}[p] <= {C}[q]'.format(C=CO, lo=lo, b=b, h=hole),
                          'forall q {{{C}[q]}} in {h} + 1..j + 1 - {b}: {C}[q] > c'.format(C=CO, h=hole, b=b),
                          *(outside + ['%s == %s + %s - %s' % (x, y, adj(t, '%s[%s]' % (CO, hole), '%s[%s]' % (VO, hole)), adj(t, 'c', 'v')) for x, y, t in counts]))
        if cfg['diagptr']:
            c.loop(L + 8).hint('entry', 'apply ccnt_some({CO}, diagCol, {lo}, {hi})'.format(CO=CO, lo=lo, hi=hi))
    elif cfg['diagptr']:
        c.loop(L + 8).hint('entry', 'assert ' + F('$SB <= $D[$ROW] && $D[$ROW] < $SE && $C[$D[$ROW] - $B] == $ROW + $B', i),
                           'assert diagCol == ' + dc, 'assert %s[%s - %d + %s] == diagCol' % (CO, beg, b, F('$D[$ROW] - $SB', i)))
    for nm, f in facts:
        p.cover('i', part('tid'), '0', 'm', F(f, 'i'), trigger='%s[i]' % RO)
        c.ens((nm, 'forall i {%s[i]} in 0..m: %s' % (RO, F(f, 'i'))))


ALL = [dict(zip(FIELDS, f), base=b, perm=p, sort=s) for b in (0, 1) for p in (True, False) for s in (False, True)
       for f in itertools.product((True, False), repeat=4)]
def often(g):
    """the inverse diagonals are independent of everything but the choice of path: with and without them in half of the configurations"""
    return g['perm'] and g['values'] and not g['diagptr'] and not g['sort'] or g['idiag'] == bool(g['base'] ^ g['sort'] ^ g['perm'])


REG.fn('_ZNK4SpMP3CSR11permuteMainEPS0_PKiS3_b', 'Permute.cpp', 'CSR::permuteMain', permute_main, configs=ALL, quick=often,
       call_cfg=lambda ver, st, vals: {k: ver.cfg[k] for k in FIELDS + ('base', 'perm', 'sort')})


def permute(c, cfg):
    perm, inv = cfg['perm'], INV
    b = source(c, cfg, inv)
    c.scalar('sort').known('sort', cfg['sort'])
    c.req('2 * nnz + 2 <= INT_MAX')
    c.ens(('dimensions', 'result->m == m && result->n == n'),
          ('row-pointers', 'forall i {result->rowptr[i]} in 0..m + 1: result->rowptr[i] == %s + %d' % (start('i', inv, perm), b)),
          ('every-entry-kept', 'result->rowptr[0] == %d && result->rowptr[m] == nnz + %d' % (b, b)))
    if perm:
        total(c, inv)
    W = Row('result', cfg, inv)
    if cfg['extptr']:
        c.ens(('ends-of-the-local-part', 'forall i {result->extptr[i]} in 0..m: ' + W.fill('content(result->extptr)[$I] == $MID')))
    for nm, f in W.facts():
        c.ens((nm, 'forall i {%s[i]} in 0..m: %s' % (W.fill('$RO'), W.fill(f))))
    for f in FIELDS:
        if not cfg[f]:
            c.ens(('no-' + f, 'isnull(result->%s)' % f))


REG.fn('_ZNK4SpMP3CSR7permuteEPKiS2_b', 'Permute.cpp', 'CSR::permute', permute, configs=ALL, quick=often)
