"""Renumbering the columns in place (C04)."""
from contract import REG
from csrbase import wf
import perm02

R, C, V, X, D, P = ['content(%s)' % x for x in ('rowptr', 'colidx', 'values', 'extptr', 'diagptr', 'perm')]


def cols(c, cfg):
    b = cfg['base']
    ext, val, dia = cfg['extptr'], cfg['values'], cfg['diagptr']
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.csr('this', values=val, diagptr=dia, extptr=ext)
    c.known('rowptr[0]', str(b))
    c.req(*wf(base=str(b)))
    c.req('nnz + %d <= INT_MAX' % b, 'm + 1 <= INT_MAX')
    c.arr('perm', 'int', 'n')
    c.req('forall k {perm[k]} in 0..n: 0 <= perm[k] && perm[k] < n')
    c.ghost('gc').ghost('gv', 'real')
    if ext:
        c.req('forall i {%s[i]} in 0..m: %s[i] <= %s[i] && %s[i] <= %s[i + 1]' % (X, R, X, X, R))
    row = lambda f, i: f.replace('$I', i).replace('$LO', '(%s[%s] - %d)' % (R, i, b)).replace(
        '$HI', '(%s - %d)' % (X + '[' + i + ']' if ext else R + '[' + i + ' + 1]', b)).replace('$NEXT', '(%s[%s + 1] - %d)' % (R, i, b)).replace(
        '$D', '(%s[%s] - %d)' % (D, i, b)).replace('$B', str(b)).replace('$P', P).replace('$oC', 'old(%s)' % C).replace('$oV', 'old(%s)' % V).replace('$C', C).replace('$V', V)
    if dia:
        c.req('m <= n', 'forall i {%s[i]} in 0..m: ' % D + row('$LO <= $D && $D < $HI && $C[$D] == $I + $B', 'i'))
    I = 'i - %d' % b
    F = lambda f: row(f, I)
    c.use('ccnt_c', 'ccnt_ext')
    if val:
        c.use('pcnt_c', 'pcnt_v', 'pcnt_ext')
    asc = 'forall p, q {$C[p], $C[q]} in %s..%s: p <= q ==> $C[p] <= $C[q]'
    facts = [('columns-renamed', 'ccnt($C, gc, $LO, $HI) == ccntm($P, $B, $oC, gc, $LO, $HI)')]
    if val:
        facts.append(('entries-renamed', 'pcnt($C, $V, gc, gv, $LO, $HI) == pcntm($P, $B, $oC, $oV, gc, gv, $LO, $HI)'))
    if dia:
        facts += [('diagonal-positions', '$LO <= $D && $D < $HI && $C[$D] == $P[$I] + $B'),
                  ('lower-part-ascends', asc % ('$LO', '$D')), ('upper-part-ascends', asc % ('$D + 1', '$HI'))]
    else:
        facts.append(('columns-ascend', asc % ('$LO', '$HI')))
    if ext:
        facts.append(('external-columns-kept', 'forall k {$C[k]} in $HI..$NEXT: $C[k] == $oC[k]'))
        if val:
            facts.append(('external-values-kept', 'forall k {$V[k]} in $HI..$NEXT: $V[k] == $oV[k]'))
    p = c.parfor(b).phase()
    own = F('$LO <= k && k < $NEXT')
    p.own('this->colidx', 'k', own)
    c.assign('colidx[k]')
    if val:
        p.own('this->values', 'k', own)
        c.assign('values[k]')
    if dia:
        p.own('this->diagptr', 'k', 'k == ' + I)
        c.assign('diagptr[k]')
    settled = ('columns-renamed', 'entries-renamed', 'diagonal-positions')
    for nm, f in facts:
        p.cover('r', I, '0', 'm', row(f, 'r'), trigger='%s[r]' % R, local=nm in settled)
        c.ens((nm, 'forall r {%s[r]} in 0..m: %s' % (R, row(f, 'r'))))
    c.ens(('nothing-else-changes', 'rowptr == old(rowptr) && colidx == old(colidx) && values == old(values) && diagptr == old(diagptr) && extptr == old(extptr)'))
    L = 12*b
    dc = F('$P[$I] + $B')
    cnt = [F(f) for nm, f in facts[:2 if val else 1]]
    p.hint('end', *['assert ' + F(f) for nm, f in facts if nm in settled])
    # renaming
    c.loop(L).inv(F('$LO + $B <= j && j <= $HI + $B'), F('forall q {$C[q]} in $LO..j - $B: $C[q] == $P[$oC[q] - $B] + $B'),
                  F('forall q {$C[q]} in j - $B..$NEXT: $C[q] == $oC[q]'))
    args = dict(P=P, b=b, C='old(%s)' % C, V='old(%s)' % V, D=C, W=V, lo=F('$LO'), hi=F('$HI'))
    copy = ['apply ccnt_copy({P}, {b}, {C}, %s, {lo}, {hi}, {D}, {lo})'.format(**args) % g for g in (('gc', dc) if dia else ('gc',))]
    if val:
        copy.append('apply pcnt_copy({P}, {b}, {C}, {V}, gc, gv, {lo}, {hi}, {D}, {W}, {lo})'.format(**args))
    if dia:
        c.loop(L).inv('diagCol == -1 || diagCol == ' + dc, F('$D < j - $B ==> diagCol == ') + dc)
        c.loop(L + 1).hint('entry', *copy)
        c.loop(L + 1).hint('entry', F('assert $C[$D] == ') + dc, 'assert diagCol == ' + dc)
        c.loop(L + 1).inv(F('$LO + $B <= j && j <= $HI + $B'), F('forall q {$C[q]} in $LO..j - $B: $C[q] != diagCol'),
                          'forall r {%s[r]}: %s[r] == pre(%s)[r]' % (D, D, D))
    arrs = [C] + ([V] if val else [])
    adj = ['(if {x} == gc then 1 else 0)', '(if {x} == gc && {y} == gv then 1 else 0)']

    def sort(out, inn, lo, hi):
        """insertion sort of positions lo..hi (as indices into the arrays)"""
        jj = 'j - %d' % b
        outside = ['forall k {%s[k]}: k < %s || %s <= k ==> %s[k] == pre(%s)[k]' % (a, lo, hi, a, a) for a in arrs]
        c.loop(out).inv('{lo} + 1 <= {j} && ({lo} < {hi} ==> {j} <= {hi})'.format(lo=lo, hi=hi, j=jj), F(asc % (lo, jj)), *(outside + cnt))
        h = 'k + 1 - %d' % b
        c.loop(inn).inv('{lo} - 1 <= k - {b} && k < j'.format(lo=lo, b=b),
                        F('forall p, q {$C[p], $C[q]} in %s..%s + 1: p <= q && p != %s && q != %s ==> $C[p] <= $C[q]' % (lo, jj, h, h)),
                        F('forall q {$C[q]} in %s + 1..%s + 1: $C[q] > c' % (h, jj)),
                        *(outside + ['%s + %s - %s' % (x, a.format(x=F('$C[%s]' % h), y=F('$V[%s]' % h)), a.format(x='c', y='v')) for x, a in zip(cnt, adj)]))
    if dia:
        at = 2 if val else 6
        sort(L + at, L + at + 1, F('$LO'), F('$D'))
        sort(L + at + 2, L + at + 3, F('($D + 1)'), F('$HI'))
    else:
        c.loop(L + 10).hint('entry', *copy)
        sort(L + 10, L + 11, F('$LO'), F('$HI'))


REG.fn('_ZN4SpMP3CSR18permuteColsInPlaceEPKi', 'Permute.cpp', 'CSR::permuteColsInPlace', cols,
       configs=[dict(base=b, values=v, diagptr=d, extptr=e) for b in (0, 1) for v in (True, False) for d in (True, False) for e in (True, False)])
