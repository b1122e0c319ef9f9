"""Permutation and vector utilities (C10)."""
from contract import REG


def inverse_perm(c, cfg):
    c.arr('inversePerm', 'int', 'n').arr('perm', 'int', 'n').scalar('n')
    c.req('0 <= n',
          'forall i {perm[i]} in 0..n: 0 <= perm[i] < n',
          'forall i, j {perm[i], perm[j]} in 0..n: i != j ==> perm[i] != perm[j]')
    c.assign('inversePerm[i]')
    c.ens(('maps-images-back', 'forall i in 0..n: inversePerm[perm[i]] == i'))


REG.fn('_ZN4SpMP14getInversePermEPiPKii', 'Utils.cpp', 'getInversePerm', inverse_perm, call_cfg={})


def is_inverse(c, cfg):
    c.arr('perm', 'int', 'len').arr('inversePerm', 'int', 'len').scalar('len')
    c.req('0 <= len', 'forall i {perm[i]} in 0..len: 0 <= perm[i] < len')
    c.loop(0).inv('0 <= i <= len', 'forall j {perm[j]} in 0..i: inversePerm[perm[j]] == j')
    c.ens(('true-exactly-for-inverses', 'result <==> (forall i {perm[i]} in 0..len: inversePerm[perm[i]] == i)'))


REG.fn('_ZN4SpMP13isInversePermEPKiS1_i', 'Utils.cpp', 'isInversePerm', is_inverse, call_cfg={})


def reorder(elem, inverse):
    pn = 'inversePerm' if inverse else 'perm'

    def build(c, cfg):
        c.arr('dst', elem, 'len').arr('src', elem, 'len').scalar('len')
        c.arr(pn, 'int', 'len', null=not cfg['perm'])
        c.req('0 <= len')
        if cfg['perm']:
            c.req('forall i {P[i]} in 0..len: 0 <= P[i] < len'.replace('P', pn))
            if not inverse:
                c.req('forall i, j {perm[i], perm[j]} in 0..len: i != j ==> perm[i] != perm[j]')
        c.assign('dst[i]')
        if not cfg['perm']:
            c.ens(('plain-copy', 'forall i in 0..len: dst[i] == src[i]'))
        elif inverse:
            c.ens(('element-fetched', 'forall i in 0..len: dst[i] == src[inversePerm[i]]'))
        else:
            c.ens(('element-moved', 'forall i in 0..len: dst[perm[i]] == src[i]'))
    return build


for el, s in (('double', 'd'), ('int', 'i')):
    for inv in (False, True):
        REG.fn('_ZN4SpMP%sE%s' % ('38reorderVectorOutOfPlaceWithInversePerm' if inv else '23reorderVectorOutOfPlace', 'PdPKdPKii' if s == 'd' else 'PiPKiS2_i'),
               'Utils.cpp', 'reorderVectorOutOfPlace%s<%s>' % ('WithInversePerm' if inv else '', el), reorder(el, inv),
               configs=[{'perm': True}, {'perm': False}],
               call_cfg=lambda ver, st, vals: {'perm': vals[2].region is not None})


def reorder_in(inverse, tmp):
    pn = 'perm' if not (inverse and tmp) else 'inversePerm'

    def build(c, cfg):
        c.arr('v', 'double', 'len').scalar('len')
        if tmp:
            c.arr('tmp', 'double', 'len')
        c.arr(pn, 'int', 'len', null=not cfg['perm'])
        c.req('0 <= len')
        if cfg['perm']:
            c.req('forall i {P[i]} in 0..len: 0 <= P[i] < len'.replace('P', pn))
            if not inverse:
                c.req('forall i, j {perm[i], perm[j]} in 0..len: i != j ==> perm[i] != perm[j]')
        c.assign('v[i]')
        if tmp:
            c.assign('tmp[i]')
        if not cfg['perm']:
            c.ens(('unchanged', 'forall i in 0..len: v[i] == old(v[i])'))
        elif inverse:
            c.ens(('element-fetched', 'forall i in 0..len: v[i] == old(v[%s[i]])' % pn))
        else:
            c.ens(('element-moved', 'forall i in 0..len: v[perm[i]] == old(v[i])'))
    return build


for inv in (False, True):
    nm = '28reorderVectorWithInversePerm' if inv else '13reorderVector'
    lb = 'reorderVector' + ('WithInversePerm' if inv else '')
    REG.fn('_ZN4SpMP%sEPdS0_PKii' % nm, 'Utils.cpp', lb + '(tmp)', reorder_in(inv, True),
           configs=[{'perm': True}, {'perm': False}], call_cfg=lambda ver, st, vals: {'perm': vals[2].region is not None})
    REG.fn('_ZN4SpMP%sEPdPKii' % nm, 'Utils.cpp', lb, reorder_in(inv, False),
           configs=[{'perm': True}, {'perm': False}], call_cfg=lambda ver, st, vals: {'perm': vals[1].region is not None})


def get_reorder(inverse):
    def build(c, cfg):
        c.arr('v', 'double', 'len').scalar('len')
        c.arr('perm', 'int', 'len', null=not cfg['perm'])
        c.req('0 <= len')
        if cfg['perm']:
            c.req('forall i {perm[i]} in 0..len: 0 <= perm[i] < len')
            if not inverse:
                c.req('forall i, j {perm[i], perm[j]} in 0..len: i != j ==> perm[i] != perm[j]')
        c.ens(('new-block', 'len(result) >= len'))
        if not cfg['perm']:
            c.ens(('plain-copy', 'forall i in 0..len: result[i] == v[i]'))
        elif inverse:
            c.ens(('element-fetched', 'forall i in 0..len: result[i] == v[perm[i]]'))
        else:
            c.ens(('element-moved', 'forall i in 0..len: result[perm[i]] == v[i]'))
    return build


for inv in (False, True):
    nm = '31getReorderVectorWithInversePerm' if inv else '16getReorderVector'
    REG.fn('_ZN4SpMP%sEPKdPKii' % nm, 'Utils.cpp', 'getReorderVector' + ('WithInversePerm' if inv else ''), get_reorder(inv),
           configs=[{'perm': True}, {'perm': False}])


def par_mem(copy):
    def build(c, cfg):
        dst = 'dst' if copy else 'ptr'
        c.arr(dst, 'unsigned char', 'n')
        if copy:
            c.arr('src', 'unsigned char', 'n')
        c.scalar('n')
        if not copy:
            c.scalar('c')
        c.req('0 <= n', 'n / 64 + max_threads <= INT_MAX')
        c.use('SP_ax', 'SP_mono')
        ph = c.par(0).phase()
        ph.own(dst, 'k', '64 * SP(n / 64, nt, tid) <= k && k < (if tid == nt - 1 then n else 64 * SP(n / 64, nt, tid + 1))')
        ph.cover('k', 'if tid == nt then n else 64 * SP(n / 64, nt, tid)', '0', 'n', '%s[k] == %s' % (dst, 'src[k]' if copy else 'byte(c)'))
        c.assign(dst + '[k]')
        c.ens(('every-byte', 'forall k in 0..n: %s[k] == %s' % (dst, 'src[k]' if copy else 'byte(c)')))
    return build


REG.logic('byte', [('c', 'int')], 'int', 'c - 256 * ediv(c, 256)')
REG.fn('_ZN4SpMP9parMemsetEPvim', 'Utils.cpp', 'parMemset', par_mem(False))
REG.fn('_ZN4SpMP9parMemcpyEPvPKvm', 'Utils.cpp', 'parMemcpy', par_mem(True))


def copy_vector(elem):
    def build(c, cfg):
        c.arr('out', elem, 'len').arr('in', elem, 'len').scalar('len')
        c.req('0 <= len')
        c.assign('out[i]')
        c.ens(('copied', 'forall i in 0..len: out[i] == in[i]'))
    return build


REG.fn('_ZN4SpMP10copyVectorIdEEvPT_PKS1_i', 'CSR.cpp', 'copyVector<double>', copy_vector('double'), call_cfg={})
REG.fn('_ZN4SpMP10copyVectorIiEEvPT_PKS1_i', 'CSR.cpp', 'copyVector<int>', copy_vector('int'), call_cfg={})


# strictly ascending within 0..n-1 means the identity (the counting step of isPerm)
REG.lemma('ascending_low', [('A', 'arr'), ('n', 'int'), ('i', 'int')],
          ['0 <= A[0]', 'forall j, k {A[j], A[k]} in 0..n: j < k ==> A[j] < A[k]', '0 <= i < n'],
          ['i <= A[i]'], induct='i', base='0', hints=['assert i > 0 ==> A[i - 1] < A[i]'])
REG.lemma('ascending_high', [('A', 'arr'), ('n', 'int'), ('d', 'int')],
          ['A[n - 1] <= n - 1', 'forall j, k {A[j], A[k]} in 0..n: j < k ==> A[j] < A[k]', '0 <= d < n'],
          ['A[n - 1 - d] <= n - 1 - d'], induct='d', base='0', hints=['assert d > 0 ==> A[n - 1 - d] < A[n - d]'])


def is_perm(c, cfg):
    c.arr('perm', 'int', 'n').scalar('n')
    c.req('0 <= n')
    c.let('permutation', '(forall i {perm[i]} in 0..n: 0 <= perm[i] && perm[i] < n) && '
                         '(forall i, j {perm[i], perm[j]} in 0..n: i != j ==> perm[i] != perm[j])')
    l = c.loop(0)
    l.inv('0 <= i <= n', 'forall j {temp[j]} in 0..i: temp[j] == j')
    l.hint('entry', 'when permutation do assert forall j, k {temp[j], temp[k]} in 0..n: j < k ==> temp[j] < temp[k]',
           'assert forall k {temp[k]} in 0..n: temp[k] == perm[sortperm[k]]')
    l.hint('body', 'when permutation do assert 0 <= temp[0] && temp[n - 1] <= n - 1',
           'when permutation do apply ascending_low(temp, n, i)', 'when permutation do apply ascending_high(temp, n, n - 1 - i)')
    l.hint('exit', 'assert forall k {perm[k]} in 0..n: temp[sortinv[k]] == perm[k]',
           'assert forall k {perm[k]} in 0..n: perm[k] == sortinv[k] && sortperm[sortinv[k]] == k')
    c.ens(('true-means-permutation', 'result ==> permutation'),
          ('permutations-accepted', 'permutation ==> result'))


REG.fn('_ZN4SpMP6isPermEPKii', 'Utils.cpp', 'isPerm', is_perm, call_cfg={})
