"""Row permutations (C03) and the row pointers of permuted matrices (C02, C03)."""
from contract import REG
from csrbase import wf

R, C, V, X = 'content(rowptr)', 'content(colidx)', 'content(values)', 'content(extptr)'

# entries in the first i rows of the permuted matrix; P names the source row of every row
REG.logic('plen', [('R', 'arr'), ('P', 'arr'), ('i', 'int')], 'int',
          'if i <= 0 then 0 else plen(R, P, i - 1) + R[P[i - 1] + 1] - R[P[i - 1]]', rec=True)
# the same, counting only source rows below v
REG.logic('pbelow', [('R', 'arr'), ('P', 'arr'), ('i', 'int'), ('v', 'int')], 'int',
          'if i <= 0 then 0 else pbelow(R, P, i - 1, v) + (if P[i - 1] < v then R[P[i - 1] + 1] - R[P[i - 1]] else 0)', rec=True)

PERM = ['forall i {P[i]} in 0..m: 0 <= P[i] && P[i] < m', 'forall v {Q[v]} in 0..m: 0 <= Q[v] && Q[v] < m && P[Q[v]] == v',
        'forall i {P[i]} in 0..m: Q[P[i]] == i']
MONO = ['forall i, j {R[i], R[j]} in 0..m + 1: i <= j ==> R[i] <= R[j]']
PAR = [('R', 'arr'), ('P', 'arr'), ('Q', 'arr'), ('m', 'int')]
REG.lemma('pbelow_none', PAR + [('i', 'int')], PERM + ['0 <= i <= m'], ['pbelow(R, P, i, 0) == 0'], induct='i', base='0')
REG.lemma('pbelow_step', PAR + [('v', 'int'), ('i', 'int')], PERM + ['0 <= v < m', '0 <= i <= m'],
          ['pbelow(R, P, i, v + 1) == pbelow(R, P, i, v) + (if Q[v] < i then R[v + 1] - R[v] else 0)'], induct='i', base='0',
          hints=['assert i > 0 ==> (P[i - 1] == v <==> Q[v] == i - 1)'])
REG.lemma('pbelow_sum', PAR + [('v', 'int')], PERM + ['0 <= m', '0 <= v <= m'], ['pbelow(R, P, m, v) == R[v] - R[0]'], induct='v', base='0',
          hints=['apply pbelow_none(R, P, Q, m, m)', 'when v > 0 do apply pbelow_step(R, P, Q, m, v - 1, m)'])
REG.lemma('pbelow_all', PAR + [('i', 'int')], PERM + ['0 <= i <= m'], ['pbelow(R, P, i, m) == plen(R, P, i)'], induct='i', base='0')
# a permutation of the rows keeps the number of entries
REG.lemma('plen_total', PAR, PERM + ['0 <= m'], ['plen(R, P, m) == R[m] - R[0]'],
          hints=['apply pbelow_sum(R, P, Q, m, m)', 'apply pbelow_all(R, P, Q, m, m)'])
REG.lemma('plen_mono', [('R', 'arr'), ('P', 'arr'), ('m', 'int'), ('a', 'int'), ('b', 'int')], PERM[:1] + MONO + ['0 <= a <= b', 'b <= m'],
          ['plen(R, P, a) <= plen(R, P, b)'], induct='b', base='a')
REG.lemma('plen_mono2', [('R', 'arr'), ('P', 'arr'), ('m', 'int'), ('a', 'int'), ('b', 'int')], PERM[:1] + MONO + ['0 <= a', 'a <= m', '0 <= b', 'b <= m'],
          ['a <= b ==> plen(R, P, a) <= plen(R, P, b)'], hints=['when a <= b do apply plen_mono(R, P, m, a, b)'])
REG.lemma('plen_range', [('R', 'arr'), ('P', 'arr'), ('m', 'int'), ('i', 'int')], PERM[:1] + MONO + ['0 <= i <= m'],
          ['0 <= plen(R, P, i)', 'plen(R, P, i) <= plen(R, P, m)'], hints=['apply plen_mono(R, P, m, 0, i)', 'apply plen_mono(R, P, m, i, m)', 'term plen(R, P, 0)'])
REG.lemma('plen_parts', [('E', 'arr'), ('R', 'arr'), ('P', 'arr'), ('m', 'int'), ('nt', 'int'), ('t', 'int')],
          ['0 <= m', '0 <= t <= nt', '1 <= nt', 'forall k {E[k]} in 0..nt: E[k] == plen(R, P, SP(m, nt, k + 1)) - plen(R, P, SP(m, nt, k))'],
          ['asum(E, 0, t) == plen(R, P, SP(m, nt, t))'], induct='t', base='0', uses=['SP_ax'], hints=['term SP(m, nt, 0)', 'term plen(R, P, 0)'],
          trigger=[('asum(E, 0, t)', 'SP(m, nt, t)', 'plen(R, P, m)')])
REG.lemma('rows_parts', [('E', 'arr'), ('R', 'arr'), ('m', 'int'), ('nt', 'int'), ('t', 'int')],
          ['0 <= m', '0 <= t <= nt', '1 <= nt', 'forall k {E[k]} in 0..nt: E[k] == R[SP(m, nt, k + 1)] - R[SP(m, nt, k)]'],
          ['asum(E, 0, t) == R[SP(m, nt, t)] - R[0]'], induct='t', base='0', uses=['SP_ax'], hints=['term SP(m, nt, 0)'],
          trigger=[('asum(E, 0, t)', 'SP(m, nt, t)', 'R[m]')])


def is_perm(p, m='m', inv='QP'):
    """p is a permutation of 0..m (inv: its inverse)"""
    return [f.replace('P', p).replace('Q' , inv) if False else f.replace('P[', p + '[').replace('Q[', inv + '[').replace('in 0..m', 'in 0..' + m).replace('< m', '< ' + m) for f in PERM]


def permuted(c, cfg, inv='inversePerm'):
    """source matrix with an inverse row permutation"""
    b = cfg['base']
    c.ghost('nnz').let('ghost:nnz', 'rowptr[m] - rowptr[0]')
    c.csr('this', **{k: cfg.get(k, 'either') for k in ('values', 'idiag', 'diagptr', 'extptr', 'diag')})
    c.known('rowptr[0]', str(b))
    c.req(*wf(base=str(b)))
    c.req('nnz + %d + max_threads + 1 <= INT_MAX' % b, 'm + max_threads + 1 <= INT_MAX')
    c.arr(inv, 'int', 'm', null=not cfg['perm'])
    if cfg['perm']:
        c.ghost('QP', 'arr')
        c.req(*is_perm(inv))
    if cfg.get('extptr') is True:
        c.req('forall i {%s[i]} in 0..m: %s[i] <= %s[i] && %s[i] <= %s[i + 1]' % (X, R, X, X, R))
    return b


def total(c, inv, mono=False):
    if mono:
        c.hint('entry', 'apply forall a, b {{plen({R}, content({inv}), a); plen({R}, content({inv}), b)}} in 0..m + 1: plen_mono2({R}, content({inv}), m, a, b)'.format(R=R, inv=inv))
    c.hint('entry', 'apply plen_total(%s, content(%s), QP, m)' % (R, inv),
           'apply forall i {{plen({R}, content({inv}), i)}} in 0..m + 1: plen_range({R}, content({inv}), m, i)'.format(R=R, inv=inv))


def start(i, inv, perm):
    """number of entries before row i of the result"""
    return 'plen(%s, content(%s), %s)' % (R, inv, i) if perm else '(%s[%s] - %s[0])' % (R, i, R)


def src(i, inv, perm):
    return 'content(%s)[%s]' % (inv, i) if perm else i


def permute_rowptr(c, cfg):
    b = permuted(c, cfg)
    perm, ext = cfg['perm'], cfg['extptr']
    c.csr('ret', nnz='nnz', values='either', colidx='either', extptr=ext)
    c.req('ret->m == m', '2 * nnz + 2 <= INT_MAX')
    S = lambda i: start(i, 'inversePerm', perm)
    row = lambda i: src(i, 'inversePerm', perm)
    c.use('SP_ax', 'SP_mono')
    RR, RX = 'content(ret->rowptr)', 'content(ret->extptr)'
    p = c.par(0)
    a = p.phase()
    own = 'SP(m, nt, tid) <= k && k < SP(m, nt, tid + 1)'
    lo, hi = 'SP(m, nt, tid)', 'SP(m, nt, tid + 1)'
    a.own('ret->rowptr', 'k', own)
    z = p.phase()
    z.own('ret->rowptr', 'k', own)
    ex = 'content(extptr)[%s] - %s[%s]' % (row('k'), R, row('k'))
    body = ['{RR}[k] == {Sk} - {S0}'.format(RR=RR, Sk=S('k'), S0=S(lo))]
    fin = ['{RR}[k] == {Sk} + {b}'.format(RR=RR, Sk=S('k'), b=b)]
    if ext:
        a.own('ret->extptr', 'k', own)
        z.own('ret->extptr', 'k', own)
        ebody = '{RX}[k] == {Sk} - {S0} + {ex}'.format(RX=RX, Sk=S('k'), S0=S(lo), ex=ex)
        efin = '{RX}[k] == {Sk} + {b} + {ex}'.format(RX=RX, Sk=S('k'), b=b, ex=ex)
    a.post('coll_in[tid] == %s - %s' % (S(hi), S(lo)), 'forall k {%s[k]} in %s..%s: %s' % (RR, lo, hi, body[0]))
    c.loop(0).inv('iBegin <= i', 'iBegin < iEnd ==> i < iEnd', 'iBegin == iEnd ==> i == iBegin',
                  'forall k {%s[k]} in %s..(if iBegin < iEnd then i + 1 else i): %s' % (RR, lo, body[0]))
    c.loop(1).inv('iBegin <= i && i <= iEnd', 'forall k {%s[k]} in %s..i: %s' % (RR, lo, fin[0]),
                  'forall k {%s[k]} in i..%s: %s' % (RR, hi, body[0]))
    z.cover('k', 'SP(m, nt, tid)', '0', 'm', fin[0])
    if ext:
        a.post('forall k {%s[k]} in %s..%s: %s' % (RX, lo, hi, ebody))
        c.loop(0).inv('forall k {%s[k]} in %s..i: %s' % (RX, lo, ebody))
        c.loop(1).inv('forall k {%s[k]} in %s..i: %s' % (RX, lo, efin), 'forall k {%s[k]} in i..%s: %s' % (RX, hi, ebody))
        z.cover('k', 'SP(m, nt, tid)', '0', 'm', efin)
    if perm:
        total(c, 'inversePerm')
        a.hint('after', 'apply forall t {{asum(coll_in, 0, t)}} in 0..nt + 1: plen_parts(coll_in, {R}, content(inversePerm), m, nt, t)'.format(R=R))
    else:
        a.hint('after', 'apply forall t {{asum(coll_in, 0, t)}} in 0..nt + 1: rows_parts(coll_in, {R}, m, nt, t)'.format(R=R))
    p.phases[0].hint('end', 'term SP(m, nt, nt)')
    c.loop(0).hint('body', 'term ' + S('i + 1'), 'term ' + S('i + 2'))
    c.loop(1).hint('entry', 'assert localNnz == %s + %d' % (S(lo), b)).hint('body', 'term ' + S('i + 1'))
    c.assign('ret->rowptr[k] when k <= m')
    if ext:
        c.assign('ret->extptr[k]')
    c.ens(('row-pointers', 'forall i {ret->rowptr[i]} in 0..m: ret->rowptr[i] == %s + %d' % (S('i'), b)),
          ('end', 'ret->rowptr[m] == nnz + %d' % b), ('start', 'ret->rowptr[0] == %d' % b))
    c.hint('exit', 'term ' + S('0'))
    if ext:
        c.ens(('ends-of-the-local-part', 'forall i {ret->extptr[i]} in 0..m: ret->extptr[i] == ret->rowptr[i] + extptr[%s] - rowptr[%s]' % (row('i'), row('i'))))


REG.fn('_ZNK4SpMP3CSR13permuteRowptrEPS0_PKi', 'Permute.cpp', 'CSR::permuteRowptr(out)', permute_rowptr,
       configs=[dict(base=b, perm=p, extptr=e) for b in (0, 1) for p in (True, False) for e in (True, False)],
       call_cfg=lambda ver, st, vals: dict(base=ver.cfg['base'], perm=ver.cfg['perm'], extptr=ver.cfg['extptr']))


def shape(out, i, inv, perm, b):
    """row pointers of the result of a row permutation"""
    return 'forall i {O->rowptr[i]} in 0..m + 1: O->rowptr[i] == S + B'.replace('O', out).replace('S', start('i', inv, perm)).replace('B', str(b))


def rows_main(c, cfg):
    b = permuted(c, dict(cfg, extptr='either'), 'rowInversePerm')
    perm, inv = cfg['perm'], 'rowInversePerm'
    c.csr('out', nnz='nnz', values=cfg['values'], idiag=cfg['idiag'], diagptr=cfg['diagptr'])
    c.req('out->m == m', shape('out', 'i', inv, perm, b))
    RO = 'content(out->rowptr)'
    if perm:
        total(c, inv, True)
    c.use('LB_ax', 'LB_mono')
    c.hint('entry', 'assert forall i, j {{{R}[i], {R}[j]}} in 0..m + 1: i <= j ==> {R}[i] <= {R}[j]'.format(R=RO))
    row = src('i', inv, perm)
    part = lambda t: 'LB(%s, m, nt, %s)' % (RO, t)
    own = '{RO}[{lo}] - {b} <= k && k < {RO}[{hi}] - {b}'.format(RO=RO, lo=part('tid'), hi=part('tid + 1'), b=b)
    mine = '%s <= k && k < %s' % (part('tid'), part('tid + 1'))
    p = c.par(b).phase()
    c.known('out->rowptr[0]', str(b))
    c.loop(b).hint('body', 'term %s[i - %d]' % (RO, b), 'term %s[i + 1 - %d]' % (RO, b), 'term %s[%s + 1]' % (R, src('i - %d' % b, inv, perm)), 'term ' + start('i + 1 - %d' % b, inv, perm))
    facts = []
    for f, on in (('colidx', True), ('values', cfg['values'])):
        if on:
            p.own('out->' + f, 'k', own)
            facts.append('forall k {{content(out->{f})[k]}} in {RO}[i] - {b}..{RO}[i + 1] - {b}: content(out->{f})[k] == content({f})[k - {RO}[i] + {R}[{row}]]'.format(f=f, RO=RO, R=R, row=row, b=b))
            c.assign('out->%s[k]' % f)
    if cfg['diagptr']:
        p.own('out->diagptr', 'k', mine)
        facts.append('content(out->diagptr)[i] == {RO}[i] + content(diagptr)[{row}] - {R}[{row}]'.format(RO=RO, R=R, row=row))
        c.assign('out->diagptr[k]')
        c.req('forall i {{{D}[i]}} in 0..m: {R}[i] <= {D}[i] && {D}[i] < {R}[i + 1]'.format(D='content(diagptr)', R=R))
    if cfg['idiag']:
        p.own('out->idiag', 'k', mine)
        facts.append('content(out->idiag)[i] == content(idiag)[%s]' % row)
        c.assign('out->idiag[k]')
    names = ['columns', 'values', 'diagonal-positions', 'inverse-diagonals']
    c.loop(b).inv('iBegin <= i && (iBegin <= iEnd ==> i <= iEnd)')
    for f in facts:
        p.cover('i', 'LB(%s, m, nt, tid)' % RO, '0', 'm', f, trigger='%s[i]' % RO)
        c.loop(b).inv(
            'forall r {%s[r]} in iBegin - %d..i - %d: %s' % (RO, b, b, f.replace('[i]', '[r]').replace('[i + 1]', '[r + 1]')))
        nm = f.split('out->')[1].split(')')[0]
        c.ens((nm + '-of-the-source-row', 'forall i {%s[i]} in 0..m: %s' % (RO, f)))


import itertools
REG.fn('_ZNK4SpMP3CSR15permuteRowsMainEPS0_PKi', 'Permute.cpp', 'CSR::permuteRowsMain', rows_main,
       configs=[dict(base=b, perm=p, values=v, diagptr=d, idiag=i) for b in (0, 1) for p in (True, False)
                for v, d, i in itertools.product((False, True), repeat=3)],
       call_cfg=lambda ver, st, vals: {k: ver.cfg[k] for k in ('base', 'perm', 'values', 'diagptr', 'idiag')})


def facts(out, cfg, inv, what, colmap=None):
    """what the result holds for row i, by field"""
    b, perm = cfg['base'], cfg['perm']
    row = src('i', inv, perm)
    RO = 'content(%s->rowptr)' % out
    r = []
    for f in ('colidx', 'values'):
        if f == 'colidx' or cfg['values']:
            r.append((f, 'forall k {{content({o}->{f})[k]}} in {RO}[i] - {b}..{RO}[i + 1] - {b}: content({o}->{f})[k] == content({f})[k - {RO}[i] + {R}[{row}]]'.format(o=out, f=f, RO=RO, R=R, row=row, b=b)))
    if cfg['diagptr']:
        r.append(('diagptr', 'content({o}->diagptr)[i] == {RO}[i] + content(diagptr)[{row}] - {R}[{row}]'.format(o=out, RO=RO, R=R, row=row)))
    if cfg['idiag']:
        r.append(('idiag', 'content({o}->idiag)[i] == content(idiag)[{row}]'.format(o=out, row=row)))
    if cfg.get('extptr'):
        r.append(('extptr', 'content({o}->extptr)[i] == {RO}[i] + content(extptr)[{row}] - {R}[{row}]'.format(o=out, RO=RO, R=R, row=row)))
    return r


def permute_rows(c, cfg):
    b = permuted(c, cfg)
    perm, inv = cfg['perm'], 'inversePerm'
    c.req('2 * nnz + 2 <= INT_MAX')
    if cfg['diagptr']:
        c.req('forall i {{{D}[i]}} in 0..m: {R}[i] <= {D}[i] && {D}[i] < {R}[i + 1]'.format(D='content(diagptr)', R=R))
    c.ens(('dimensions', 'result->m == m && result->n == n'),
          ('row-pointers', 'forall i {result->rowptr[i]} in 0..m + 1: result->rowptr[i] == %s + %d' % (start('i', inv, perm), b)),
          ('every-entry-kept', 'result->rowptr[0] == %d && result->rowptr[m] == nnz + %d' % (b, b)))
    if perm:
        total(c, inv)
    RO = 'content(result->rowptr)'
    for nm, f in facts('result', cfg, inv, 'rows'):
        c.ens((nm + '-of-the-source-row', 'forall i {%s[i]} in 0..m: %s' % (RO, f)))
    for f in ('values', 'idiag', 'diagptr', 'extptr'):
        if not cfg[f]:
            c.ens(('no-' + f, 'isnull(result->%s)' % f))


REG.fn('_ZNK4SpMP3CSR11permuteRowsEPKi', 'Permute.cpp', 'CSR::permuteRows', permute_rows,
       configs=[dict(base=b, perm=p, values=v, diagptr=d, idiag=i, extptr=e) for b in (0, 1) for p in (True, False)
                for v, d, i, e in itertools.product((False, True), repeat=4)])
