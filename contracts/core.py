"""Logic functions, lemmas and the work partitions (C08)."""
from contract import REG

# sums over a prefix of an integer / real array
REG.logic('asum', [('A', 'arr'), ('lo', 'int'), ('hi', 'int')], 'int',
          'if hi <= lo then 0 else asum(A, lo, hi - 1) + A[hi - 1]', rec=True)
REG.logic('rsum', [('A', 'rarr'), ('lo', 'int'), ('hi', 'int')], 'real',
          'if hi <= lo then 0 else rsum(A, lo, hi - 1) + A[hi - 1]', rec=True)

# ---------------------------------------------------------------- even partition
# SP(n, nt, t): first item of thread t (n for t == nt).  For callers this is an
# unknown function with the properties proved below.
REG.logic('SP', [('n', 'int'), ('nt', 'int'), ('t', 'int')], 'int')
REG.lemma('SP_ax', [('n', 'int'), ('nt', 'int'), ('t', 'int')],
          ['0 <= n', '1 <= nt', '0 <= t <= nt'],
          ['0 <= SP(n, nt, t) <= n', 't == 0 ==> SP(n, nt, t) == 0', 't == nt ==> SP(n, nt, t) == n'],
          trigger=['SP(n, nt, t)'])
REG.lemma('SP_step', [('n', 'int'), ('nt', 'int'), ('t', 'int')], ['0 <= n', '1 <= nt', '0 <= t < nt'], ['SP(n, nt, t) <= SP(n, nt, t + 1)'])
REG.lemma('SP_mono', [('n', 'int'), ('nt', 'int'), ('a', 'int'), ('b', 'int')],
          ['0 <= n', '1 <= nt', '0 <= a <= b', 'b <= nt'],
          ['SP(n, nt, a) <= SP(n, nt, b)'], induct='b', base='a', uses=['SP_ax'],
          hints=['when a < b do apply SP_step(n, nt, b - 1)'],
          trigger=[('SP(n, nt, a)', 'SP(n, nt, b)')])


def simple_partition(c, cfg):
    c.cell('begin').cell('end').scalar('n')
    c.req('0 <= n', 'n + nt <= INT_MAX')
    c.assign('*begin', '*end')
    c.ens(('ordered', '0 <= *begin <= *end && *end <= n'),
          ('starts-at-zero', 'tid == 0 ==> *begin == 0'),
          ('ends-at-n', 'tid == nt - 1 ==> *end == n'),
          ('no-range-above-average', 'times(*end - *begin, nt) <= n + nt - 1'))
    c.rel('*end == next(*begin)')
    c.for_callers(['*begin == SP(n, nt, tid)', '*end == SP(n, nt, tid + 1)'], uses=['SP_ax', 'SP_mono'])


REG.fn('_ZN4SpMP24getSimpleThreadPartitionEPiS0_i', 'Utils.cpp', 'getSimpleThreadPartition', simple_partition,
       spmd=True, call_cfg={})

# ---------------------------------------------------------------- balanced partition
REG.logic('LB', [('A', 'arr'), ('n', 'int'), ('nt', 'int'), ('t', 'int')], 'int')
REG.lemma('LB_ax', [('A', 'arr'), ('n', 'int'), ('nt', 'int'), ('t', 'int')],
          ['0 <= n', '1 <= nt', '0 <= t <= nt'],
          ['0 <= LB(A, n, nt, t) <= n', 't == 0 ==> LB(A, n, nt, t) == 0', 't == nt ==> LB(A, n, nt, t) == n'],
          trigger=['LB(A, n, nt, t)'])
REG.lemma('LB_step', [('A', 'arr'), ('n', 'int'), ('nt', 'int'), ('t', 'int')], ['0 <= n', '1 <= nt', '0 <= t < nt'], ['LB(A, n, nt, t) <= LB(A, n, nt, t + 1)'])
REG.lemma('LB_mono', [('A', 'arr'), ('n', 'int'), ('nt', 'int'), ('a', 'int'), ('b', 'int')],
          ['0 <= n', '1 <= nt', '0 <= a <= b', 'b <= nt'],
          ['LB(A, n, nt, a) <= LB(A, n, nt, b)'], induct='b', base='a', uses=['LB_ax'],
          hints=['when a < b do apply LB_step(A, n, nt, b - 1)'],
          trigger=[('LB(A, n, nt, a)', 'LB(A, n, nt, b)')])


def balanced_partition(c, cfg):
    c.cell('begin').cell('end').scalar('n').arr('prefixSum', 'int', 'n + 1')
    c.req('0 <= n',
          'forall i in 0..n+1: forall j in 0..n+1: i <= j ==> prefixSum[i] <= prefixSum[j]',
          '0 <= prefixSum[0]', 'prefixSum[n] + nt <= INT_MAX')
    c.assign('*begin', '*end')
    c.ens(('ordered', '0 <= *begin <= *end && *end <= n'),
          ('starts-at-zero', 'tid == 0 ==> *begin == 0'),
          ('ends-at-n', 'tid == nt - 1 ==> *end == n'))
    c.rel('*end == next(*begin)')
    c.for_callers(['*begin == LB(prefixSum, n, nt, tid)', '*end == LB(prefixSum, n, nt, tid + 1)'],
                  uses=['LB_ax', 'LB_mono'])


REG.fn('_ZN4SpMP24getLoadBalancedPartitionEPiS0_PKii', 'Utils.cpp', 'getLoadBalancedPartition', balanced_partition,
       spmd=True, call_cfg={})


# Definitional: SP(.., t) / LB(.., t) name the begin that thread t computes and the
# end that thread nt-1 computes; what these lemmas state is exactly what the
# obligations ordered, starts-at-zero, ends-at-n and relation1 of the two
# functions prove for every thread of every team.
REG.lemmas['SP_ax'].assumed = True
REG.lemmas['SP_step'].assumed = True
REG.lemmas['LB_ax'].assumed = True
REG.lemmas['LB_step'].assumed = True
