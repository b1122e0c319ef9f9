"""Team prefix sums (C09)."""
from contract import REG


def prefix_sum(c, cfg):
    c.cell('in_out').cell('sum', True).arr('workspace', 'int', 'nt + 1')
    c.ghost('coll_in', 'arr')
    c.req('coll_in[tid] == *in_out', 'nt < INT_MAX',
          'forall k {asum(coll_in, 0, k)} in 0..nt+1: INT_MIN <= asum(coll_in, 0, k) && asum(coll_in, 0, k) <= INT_MAX')
    c.collective = dict(inout='in_out', sum='sum', workspace='workspace', export='coll_in')
    p = c.par(0)
    a = p.phase()
    a.own('workspace', 'k', 'k == tid + 1').post('workspace[tid + 1] == coll_in[tid]')
    b = p.phase()
    b.own('workspace', 'k', 'tid == 0').owncell('*sum', 'tid == 0')
    b.post('tid == 0 ==> *sum == asum(coll_in, 0, nt)',
           'tid == 0 ==> (forall k in 0..nt: workspace[k] == asum(coll_in, 0, k))')
    c.loop(0).inv('1 <= i && (nt >= 1 ==> i <= nt)',
                  'forall k in 0..i+1: workspace[k] == asum(coll_in, 0, k)',
                  'forall k in i+1..nt+1: workspace[k] == coll_in[k - 1]').hint('body', 'term asum(coll_in, 0, i + 1)')
    c.assign('*in_out', '*sum', 'workspace[k]')
    c.ens(('sum-over-lower-threads', '*in_out == asum(coll_in, 0, tid)'),
          ('grand-total', '*sum == asum(coll_in, 0, nt)'))


REG.fn('_ZN4SpMP9prefixSumEPiS0_S0_', 'PrefixSum.cpp', 'prefixSum', prefix_sum, spmd=True, mode='collective', call_cfg={})


# the i-th component summed over the first t threads (thread-major layout)
REG.logic('csum', [('A', 'arr'), ('n', 'int'), ('i', 'int'), ('t', 'int')], 'int',
          'if t <= 0 then 0 else csum(A, n, i, t - 1) + A[(t - 1) * n + i]', rec=True)
REG.lemma('csum_low', [('A', 'arr'), ('n', 'int'), ('i', 'int'), ('t', 'int')], [],
          ['t <= 0 ==> csum(A, n, i, t) == 0', 't == 1 ==> csum(A, n, i, t) == A[i]'],
          trigger=['csum(A, n, i, t)'], hints=['term csum(A, n, i, t - 1)'])


def prefix_sum_multiple(c, cfg):
    c.arr('in_out', 'int', 'n').arr('sum', 'int', 'n').scalar('n').arr('workspace', 'int', '(nt + 1) * n')
    c.ghost('coll_in', 'arr')
    c.private_arrays = ['in_out']
    c.req('0 <= n', '(nt + 1) * n <= INT_MAX', 'nt < INT_MAX',
          'forall k {coll_in[k]} in tid * n..tid * n + n: in_out[k - tid * n] == coll_in[k]',
          'forall k in 0..nt+1, i in 0..n {csum(coll_in, n, i, k)}: INT_MIN <= csum(coll_in, n, i, k) && csum(coll_in, n, i, k) <= INT_MAX')
    p = c.par(0)
    a = p.phase()
    a.own('workspace', 'k', '(tid + 1) * n <= k && k < (tid + 1) * n + n')
    a.cover('k', '(tid + 1) * n', 'n', '(nt + 1) * n', 'workspace[k] == coll_in[k - n]')
    c.use('csum_low')
    b = p.phase()
    b.own('workspace', 'k', 'tid == 0').own('sum', 'k', 'tid == 0')
    b.post('tid == 0 ==> (forall i in 0..n: sum[i] == csum(coll_in, n, i, nt))',
           'tid == 0 ==> (forall s in 0..nt, j in 0..n {csum(coll_in, n, j, s)}: workspace[s * n + j] == csum(coll_in, n, j, s))')
    c.loop(1).inv('0 <= i <= n', 'forall j in 0..i: workspace[j] == 0',
                  'forall k in n..(nt + 1) * n: workspace[k] == coll_in[k - n]')
    c.loop(4).inv('0 <= i <= n', 'forall j in 0..i: sum[j] == csum(coll_in, n, j, nt)')
    c.loop(4).hint('body', 'term csum(coll_in, n, i, nt)')
    c.loop(5).inv('0 <= i <= n', 'forall j in 0..i: in_out[j] == csum(coll_in, n, j, tid)')
    c.loop(5).hint('body', 'term csum(coll_in, n, i, tid)')
    c.loop(2).inv('1 <= t && (nt >= 1 ==> t <= nt)',
                  'forall s in 0..t+1, j in 0..n {csum(coll_in, n, j, s)}: workspace[s * n + j] == csum(coll_in, n, j, s)',
                  'forall k in (t + 1) * n..(nt + 1) * n: workspace[k] == coll_in[k - n]')
    c.loop(3).inv('0 <= i <= n',
                  'forall s in 0..t+2, j in 0..n {csum(coll_in, n, j, s)}: s <= t || j < i ==> workspace[s * n + j] == csum(coll_in, n, j, s)',
                  'forall k in (t + 1) * n + i..(nt + 1) * n: workspace[k] == coll_in[k - n]')
    c.loop(3).hint('body', 'term csum(coll_in, n, i, t)', 'term csum(coll_in, n, i, t + 1)')
    c.loop(0).inv('0 <= i <= n', 'forall k in (tid + 1) * n..(tid + 1) * n + i: workspace[k] == in_out[k - (tid + 1) * n]')
    c.assign('in_out[k]', 'sum[k]', 'workspace[k]')
    c.ens(('sum-over-lower-threads', 'forall i in 0..n: in_out[i] == csum(coll_in, n, i, tid)'),
          ('grand-total', 'forall i in 0..n: sum[i] == csum(coll_in, n, i, nt)'))


REG.fn('_ZN4SpMP17prefixSumMultipleEPiS0_iS0_', 'PrefixSum.cpp', 'prefixSumMultiple', prefix_sum_multiple, spmd=True, call_cfg={})
