"""Text files (C24, C26).  FI[k], FD[k]: the k-th number after the size line, read as integer or real;
flen: how many numbers there are before the text stops being numbers."""
from contract import REG


def good(ver, st, vals):
    return dict(good=ver.cfg.get('good', False), kind=ver.cfg.get('kind'))


def banner(c, cfg):
    c.arr('matcode', 'char', '4')
    c.assign('matcode[k]')
    k = cfg.get('kind')
    if not k:
        for j in range(4):
            c.ghost('K%d' % j)
            c.ens('result == 0 ==> matcode[%d] == K%d' % (j, j))
    if cfg.get('good'):
        c.ens('result == 0')
    if k:
        for j, ch in enumerate(k):
            if ch != '?':
                c.ens('result == 0 ==> matcode[%d] == %d' % (j, ord(ch)))


REG.fn('mm_read_banner', 'mm_io.cpp', 'mm_read_banner', banner, mode='assume', call_cfg=good)


def sizes(names, ghosts):
    def f(c, cfg):
        for p, g in zip(names, ghosts):
            c.cell(p)
            c.assign('*' + p)
            c.ens('result == 0 ==> *%s == %s' % (p, g))
            c.ghost(g)
        if cfg.get('good'):
            c.ens('result == 0')
    return f


REG.fn('mm_read_mtx_array_size', 'mm_io.cpp', 'mm_read_mtx_array_size', sizes(['M', 'N'], ['SM', 'SN']), mode='assume', call_cfg=good)
REG.fn('mm_read_mtx_crd_size', 'mm_io.cpp', 'mm_read_mtx_crd_size', sizes(['M', 'N', 'nz'], ['SM', 'SN', 'SZ']), mode='assume', call_cfg=good)


def valid(c, cfg):
    c.arr('matcode', 'char', '4')
    M, A, P, R, H, K = (ord(x) for x in 'MAPRHK')
    c.ens(('valid', '(result != 0) == (matcode[0] == {M} && !(matcode[1] == {A} && matcode[2] == {P}) && !(matcode[2] == {R} && matcode[3] == {H})'
           ' && !(matcode[2] == {P} && (matcode[3] == {H} || matcode[3] == {K})))'.format(M=M, A=A, P=P, R=R, H=H, K=K)))


REG.fn('mm_is_valid', 'mm_io.cpp', 'mm_is_valid', valid, configs=[{}])


def vector(c, cfg):
    c.file(opens=cfg['good'], reads=True)
    c.ghost('SM').ghost('SN')
    c.cell('v').cell('m').cell('n')
    c.assign('*m', '*n')
    c.req('SM * SN <= 1152921504606846975', 'INT_MIN <= SM && SM <= INT_MAX && INT_MIN <= SN && SN <= INT_MAX')
    c.ens(('sizes', 'result ==> *m == SM && *n == SN'), ('all-there', 'result ==> flen >= SM * SN'), ('closed', 'fstate == 1 || fstate == 3'))
    c.loop(0).inv('0 <= i && i <= SM', 'fpos == i * SN', 'i * SN <= flen || i == 0', 'forall k {(*v)[k]} in 0..i * SN: (*v)[k] == FD[k]')
    c.loop(1).inv('0 <= j && j < SN', 'fpos == i * SN + j', 'i * SN + j <= flen || i * SN + j == 0',
                  'forall k {(*v)[k]} in 0..i * SN + j: (*v)[k] == FD[k]')
    if cfg['good']:
        c.req('0 <= SM && 1 <= SN', 'SM * SN <= flen')
        c.newarr('*v', 'double', 'SM * SN')
        c.ens(('accepted', 'result'), ('numbers', 'forall k {(*v)[k]} in 0..SM * SN: (*v)[k] == FD[k]'))
    else:
        for j in range(4):
            c.ghost('K%d' % j)
        c.ens(('an-array-file', 'result ==> K0 == %d && K1 == %d && K2 != %d && !(K2 == %d && K3 == %d)' % tuple(ord(x) for x in 'MAPRH')),
              ('possible-dimensions', 'result ==> 0 <= SM && 1 <= SN'))
        c.assign('*v')


REG.fn('_ZN4SpMP22loadVectorMatrixMarketEPKcPPdPiS4_', 'Vector.cpp', 'loadVectorMatrixMarket', vector,
       configs=[dict(good=True, kind='MARG'), dict(good=False)])


# ---------------------------------------------------------------- coordinate files
WIDTH = dict(R=3, I=3, P=2, C=4)


def entry(c, cfg):
    """one line: row, column and value"""
    k = cfg['kind']
    w = WIDTH[k[2]]
    c.file('open')
    c.cell('I').cell('J').cell('real').cell('imag')
    c.arr('matcode', 'char', '4')
    c.req('matcode[2] == %d' % ord(k[2]))
    c.req(*['fpos + %d <= flen ==> INT_MIN <= FI[fpos + %d] && FI[fpos + %d] <= INT_MAX' % (w, j, j) for j in (0, 1)])
    if k[2] == 'I':
        c.req('fpos + 3 <= flen ==> %d <= FI[fpos + 2] && FI[fpos + 2] <= %d' % (-2**63, 2**63 - 1))
    c.assign('*I', '*J', '*real', *(['*imag'] if k[2] == 'C' else []))
    c.ens(('still-open', 'fstate == 2'), ('a-line', '(result == 0) == (old(fpos) + %d <= flen)' % w), ('next-line', 'result == 0 ==> fpos == old(fpos) + %d' % w),
          ('coordinates', 'result == 0 ==> *I == FI[old(fpos)] && *J == FI[old(fpos) + 1]'))
    if k[2] != 'P':
        c.ens(('value', 'result == 0 ==> *real == %s[old(fpos) + 2]' % ('FI' if k[2] == 'I' else 'FD')))


REG.fn('mm_read_mtx_crd_entry', 'mm_io.cpp', 'mm_read_mtx_crd_entry', entry, configs=[dict(kind='MC%sG' % k) for k in 'RIPC'],
       call_cfg=lambda ver, st, vals: dict(kind=ver.cfg['kind']))


def coordinates(c, cfg, which='main'):
    """a general file: its lines in order, then the padding"""
    k, t, has = cfg['kind'], cfg['transpose'], cfg['prior']
    w = WIDTH[k[2]]
    c.file(opens=cfg['good'], reads=True)
    c.decides = True
    c.ghost('SM').ghost('SN').ghost('SZ').ghost('len')
    c.params.append(('obj', 'coo', [(f, 'double' if f == 'values' else 'int', 'len', not has) for f in ('rowidx', 'colidx', 'values')],
                     (('m', 'int'), ('n', 'int'), ('nnz', 'int'), ('isSymmetric', 'bool'))))
    c.scalar('force_symmetric').scalar('transpose').scalar('pad')
    if which != 'transposed':
        c.known('force_symmetric', False)
    if which == 'main':
        c.known('transpose', t)
    c.known('coo->isSymmetric', False)
    c.req('0 <= len', '1 <= pad', *['%s + pad - 1 <= INT_MAX' % x for x in ('SM', 'SN', 'SZ')], 'SZ + SM + pad <= INT_MAX', 'SZ + SN + pad <= INT_MAX')
    # what the file states fits the types it is read into
    for j in range(3 if k[2] == 'I' else 2):
        lo, hi = ('%d' % -2**63, '%d' % (2**63 - 1)) if j == 2 else ('INT_MIN', 'INT_MAX')
        c.req('forall k {FI[%d * k + %d]}: 0 <= k && %d * k + %d <= flen ==> %s <= FI[%d * k + %d] && FI[%d * k + %d] <= %s' % (w, j, w, w, lo, w, j, w, j, hi))
    c.assign('coo->m', 'coo->n', 'coo->nnz', 'coo->rowidx', 'coo->colidx', 'coo->values')
    M, N = ('SN', 'SM') if t else ('SM', 'SN')
    X, Y = ('FI[%d * k + 1]', 'FI[%d * k]') if t else ('FI[%d * k]', 'FI[%d * k + 1]')
    X, Y = X % w, Y % w
    V = {'P': '1', 'I': 'FI[%d * k + 2]' % w}.get(k[2], 'FD[%d * k + 2]' % w)
    c.ens(('closed', 'fstate == 3'), ('sizes-possible', 'result ==> 0 <= SM && 0 <= SN && 0 <= SZ'), ('all-lines', 'result ==> flen >= %d * SZ && flen < %d * SZ + %d' % (w, w, w)))
    c.loop(0).inv('fstate == 2', '0 <= lines && lines <= nnz', 'count == lines', 'fpos == %d * lines' % w, 'lines == 0 || %d * lines <= flen' % w,
                  'forall k {rowidx[k]} in 0..lines: rowidx[k] == %s && 0 <= rowidx[k] && rowidx[k] <= origM && (base == 1 ==> 1 <= rowidx[k])' % X,
                  'forall k {colidx[k]} in 0..lines: colidx[k] == %s && 0 <= colidx[k] && colidx[k] <= origN && (base == 1 ==> 1 <= colidx[k])' % Y,
                  'forall k {values[k]} in 0..lines: values[k] == %s' % V,
                  'base == 0 || base == 1')
    for f, e, top in (('rowidx', X, 'origM'), ('colidx', Y, 'origN')):
        c.loop(1).inv('forall k {%s[k]} in 0..i: %s[k] == %s + 1 && 1 <= %s[k] && %s[k] <= %s' % (f, f, e, f, f, top),
                      'forall k {%s[k]} in i..lines: %s[k] == %s && 0 <= %s[k] && %s[k] <= %s' % (f, f, e, f, f, top))
    c.loop(1).inv('0 <= i && i <= lines')
    least = 'min(origM, origN)'
    c.loop(3).inv('%s <= i' % least, 'i <= m', 'i <= n', 'count == lines + i - %s' % least)
    for f, e, top in (('rowidx', X, 'origM'), ('colidx', Y, 'origN')):
        c.loop(3).inv('forall k {%s[k]} in 0..lines: %s[k] == %s + 1 - base && 1 <= %s[k] && %s[k] <= %s' % (f, f, e, f, f, top),
                      'forall k {%s[k]} in lines..count: %s[k] == k - lines + %s + 1' % (f, f, least))
    c.loop(3).inv('forall k {values[k]} in 0..lines: values[k] == %s' % V, 'forall k {values[k]} in lines..count: values[k] == 1')
    if cfg.get('reject'):
        c.ens(('rejected', '!result'))
    if cfg['good']:
        z = cfg['zero']
        c.req('0 <= SM && 0 <= SN && 0 <= SZ', '%d * SZ <= flen && flen < %d * SZ + %d' % (w, w, w))
        c.req(*['forall k {FI[%d * k + %d]} in 0..SZ: %d <= FI[%d * k + %d] && FI[%d * k + %d] <= %s - %d' % (w, j, 1 - z, w, j, w, j, d, z)
                for j, d in ((0, 'SM'), (1, 'SN'))])
        if z:
            c.ghost('q')
            c.req('0 <= q && q < SZ', 'FI[%d * q] == 0 || FI[%d * q + 1] == 0' % (w, w))
            c.loop(0).inv('q < lines ==> base == 0')
        else:
            c.loop(0).inv('base == 1')
        pm, pn = ['((%s + pad - 1) / pad * pad)' % x for x in (M, N)]
        few = 'min(%s, %s)' % (M, N)
        padded = 'min(%s, %s)' % (pm, pn)
        for f in ('rowidx', 'colidx', 'values'):
            c.newarr('coo->' + f, 'double' if f == 'values' else 'int', 'SZ + %s - %s' % (padded, few))
            if has:
                c.frees('coo->' + f)
        c.ens(('accepted', 'result'), ('dimensions', 'coo->m == %s && coo->n == %s' % (pm, pn)),
              ('entries', 'coo->nnz == SZ + %s - %s' % (padded, few)))
        for f, e in (('rowidx', X), ('colidx', Y)):
            c.ens((f, 'forall k {coo->%s[k]} in 0..SZ: coo->%s[k] == %s + %d' % (f, f, e, z)),
                  (f + '-of-padding', 'forall k {coo->%s[k]} in SZ..coo->nnz: coo->%s[k] == %s + k - SZ + 1' % (f, f, few)))
        c.ens(('values', 'forall k {coo->values[k]} in 0..SZ: coo->values[k] == %s' % V),
              ('values-of-padding', 'forall k {coo->values[k]} in SZ..coo->nnz: coo->values[k] == 1'))


ALL = [dict(kind='MC%sG' % k, transpose=t, good=False, prior=False) for k in 'RIPC' for t in (False, True)] \
    + [dict(kind='MC%sG' % k, transpose=t, good=True, zero=z, prior=h) for k in 'RIPC' for t in (False, True) for z in (0, 1) for h in (True, False)]
ALL += [dict(kind=k, transpose=t, good=False, prior=False, reject=True) for k in ('MARG', 'MCRH', 'MCPH', 'MCPK', 'VCRG') for t in (False, True)]
REG.fn('_ZN4SpMPL17loadMatrixMarket_EPKcRNS_3COOEbbi', 'COO.cpp', 'loadMatrixMarket_', coordinates, configs=ALL, call_cfg=lambda ver, st, vals: ver.cfg)
REG.fn('_ZN4SpMP16loadMatrixMarketEPKcRNS_3COOEbi', 'COO.cpp', 'loadMatrixMarket', lambda c, cfg: coordinates(c, cfg, 'plain'),
       configs=[x for x in ALL if not x['transpose']])
REG.fn('_ZN4SpMP26loadMatrixMarketTransposedEPKcRNS_3COOEi', 'COO.cpp', 'loadMatrixMarketTransposed', lambda c, cfg: coordinates(c, cfg, 'transposed'),
       configs=[x for x in ALL if x['transpose']])
