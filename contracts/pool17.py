"""The memory pool (C17).

The pool's bytes are offsets 0..size_ of buffer_; the live ones are the cyclic
interval from head_ to tail_.  Two settings: with assertions enabled a request
that does not fit must end in a failed assertion (room=False), and a request that
fits must be served without one (room=True, also in the release configuration)."""
from contract import REG

REG.logic('live', [('head', 'int'), ('tail', 'int'), ('size', 'int'), ('k', 'int')], 'bool',
          'if tail >= head then head <= k && k < tail else (0 <= k && k < tail) || (head <= k && k < size)')
REG.logic('roundup', [('x', 'int'), ('a', 'int')], 'int', '(x + a - 1) / a * a')
REG.logic('rounddown', [('x', 'int'), ('a', 'int')], 'int', 'x / a * a')

I3 = (('size_', 'size_t'), ('head_', 'size_t'), ('tail_', 'size_t'))
WF = ['head_ < size_ || (head_ == 0 && size_ == 0)', 'tail_ < size_ || (tail_ == 0 && size_ == 0)']
CFGS = [dict(debug=True, room=False), dict(debug=True, room=True), dict(debug=False, room=True)]


def pool(c, null=False, wf=True):
    c.obj('this', [('buffer_', 'char', 'size_', null)], I3)
    if wf:
        c.req(*WF)
        c.req('size_ <= 1000000000000000000')
    return c


def alloc(front):
    def build(c, cfg):
        pool(c)
        c.scalar('sz').scalar('align')
        c.req('1 <= align')
        c.let('rs', 'roundup(sz, align)')
        if cfg.get('room'):
            c.asserts = 'prove'
            c.req('sz <= size_')
            if not front:
                c.req('if tail_ >= head_ then roundup(tail_, align) + rs < size_ || rs < head_ else roundup(tail_, align) + rs < head_')
            else:
                c.req('if tail_ >= head_ then rs <= head_ || (rs <= size_ && rounddown(size_ - rs, align) > tail_) '
                      'else tail_ + rs < head_ && rounddown(head_ - rs, align) > tail_')
        c.assign('head_' if front else 'tail_')
        c.hint('exit', 'term times(0, align)')
        c.ens(('inside-the-pool', '0 <= off(result) && off(result) + sz <= size_'),
              ('in-the-buffer', 'sz > 0 ==> same_block(result, buffer_)'),
              ('aligned', 'exists q {times(q, align)}: times(q, align) == off(result)'),
              ('overlaps-no-live-block', 'forall k: off(result) <= k && k < off(result) + sz ==> !live(old(head_), old(tail_), size_, k)'),
              ('block-is-live', 'forall k: off(result) <= k && k < off(result) + sz ==> live(head_, tail_, size_, k)'),
              ('live-blocks-stay-live', 'forall k: 0 <= k && k < size_ && live(old(head_), old(tail_), size_, k) ==> live(head_, tail_, size_, k)'),
              ('well-formed', ' && '.join('(%s)' % w for w in WF)))
    return build


REG.fn('_ZN4SpMP10MemoryPool8allocateEmi', 'MemoryPool.cpp', 'MemoryPool::allocate', alloc(False), configs=CFGS)
REG.fn('_ZN4SpMP10MemoryPool13allocateFrontEmi', 'MemoryPool.cpp', 'MemoryPool::allocateFront', alloc(True), configs=CFGS)


def set_mark(which):
    other = 'head_' if which == 'tail_' else 'tail_'

    def build(c, cfg):
        pool(c)
        c.scalar('offset')
        if cfg.get('room'):
            c.asserts = 'prove'
            c.req('offset < size_', 'offset == tail_ || live(head_, tail_, size_, offset)' if which == 'tail_' else
                  'offset == tail_ || live(head_, tail_, size_, offset)')
        c.assign(which)
        c.ens(('mark-restored', '%s == offset' % which),
              ('only-shrinks', 'forall k: 0 <= k && k < size_ && live(head_, tail_, size_, k) ==> live(old(head_), old(tail_), size_, k)'),
              ('well-formed', ' && '.join('(%s)' % w for w in WF)))
    return build


# rewinding to a mark taken earlier restores the offset exactly; in between the
# other offset has not moved, so the live bytes are those at the time of the mark
REG.fn('_ZN4SpMP10MemoryPool7setTailEm', 'MemoryPool.cpp', 'MemoryPool::setTail', set_mark('tail_'), configs=CFGS)
REG.fn('_ZN4SpMP10MemoryPool7setHeadEm', 'MemoryPool.cpp', 'MemoryPool::setHead', set_mark('head_'), configs=CFGS)


def get_mark(which):
    def build(c, cfg):
        pool(c)
        c.ens(('returns-the-mark', 'result == ' + which))
    return build


REG.fn('_ZNK4SpMP10MemoryPool7getTailEv', 'MemoryPool.cpp', 'MemoryPool::getTail', get_mark('tail_'))
REG.fn('_ZNK4SpMP10MemoryPool7getHeadEv', 'MemoryPool.cpp', 'MemoryPool::getHead', get_mark('head_'))


def contains(c, cfg):
    pool(c, null=cfg['kind'] == 'no-buffer')
    if cfg['kind'] == 'null':
        c.arr('ptr', 'char', '1', null=True)
        c.ens(('null-is-outside', '!result'))
    elif cfg['kind'] == 'no-buffer':
        c.arr('ptr', 'char', '1')
        c.ens(('empty-pool-contains-nothing', '!result'))
    else:
        c.ghost('k')
        c.arr('ptr', 'char', '1', alias='buffer_ + k')
        c.ens(('true-exactly-for-live-bytes', 'result <==> 0 <= k && k < size_ && live(head_, tail_, size_, k)'))


REG.fn('_ZNK4SpMP10MemoryPool8containsEPKv', 'MemoryPool.cpp', 'MemoryPool::contains', contains,
       configs=[dict(kind='any'), dict(kind='null'), dict(kind='no-buffer')])


def init(c, cfg):
    pool(c, null=True, wf=False)
    if cfg.get('ctor0'):
        c.assign('size_', 'head_', 'tail_', 'buffer_')
        c.ens(('empty', 'size_ == 0 && head_ == 0 && tail_ == 0 && isnull(buffer_)'))
        return
    c.scalar('sz')
    c.req('sz <= 1000000000000000000')
    c.assign('size_', 'head_', 'tail_', 'buffer_')
    c.ens(('everything-free', 'size_ == sz && head_ == 0 && tail_ == 0'),
          ('buffer-of-the-size', '!isnull(buffer_) && len(buffer_) >= sz && off(buffer_) == 0'))


REG.fn('_ZN4SpMP10MemoryPool10initializeEm', 'MemoryPool.cpp', 'MemoryPool::initialize', init)
REG.fn('_ZN4SpMP10MemoryPoolC1Em', 'MemoryPool.cpp', 'MemoryPool::MemoryPool(size_t)', init)
REG.fn('_ZN4SpMP10MemoryPoolC1Ev', 'MemoryPool.cpp', 'MemoryPool::MemoryPool()', init, configs=[dict(ctor0=True)])


def fin(c, cfg):
    pool(c, null=cfg['empty'])
    c.assign('head_', 'tail_', 'buffer_')
    c.frees('buffer_')
    c.ens(('no-buffer', 'isnull(buffer_) && head_ == 0 && tail_ == 0'))


REG.fn('_ZN4SpMP10MemoryPool8finalizeEv', 'MemoryPool.cpp', 'MemoryPool::finalize', fin, configs=[dict(empty=False), dict(empty=True)])


def dealloc_all(c, cfg):
    pool(c)
    c.assign('head_', 'tail_')
    c.ens(('nothing-live', 'forall k: !live(head_, tail_, size_, k)'), ('well-formed', ' && '.join('(%s)' % w for w in WF)))


REG.fn('_ZN4SpMP10MemoryPool13deallocateAllEv', 'MemoryPool.cpp', 'MemoryPool::deallocateAll', dealloc_all)
REG.fn('_ZN4SpMP10MemoryPoolD1Ev', 'MemoryPool.cpp', 'MemoryPool::~MemoryPool', fin, configs=[dict(empty=False), dict(empty=True)])


def alloc_int(c, cfg):
    pool(c)
    c.scalar('cnt')
    c.req('cnt <= 100000000000000000', 'if tail_ >= head_ then roundup(tail_, 64) + roundup(4 * cnt, 64) < size_ || roundup(4 * cnt, 64) < head_ '
          'else roundup(tail_, 64) + roundup(4 * cnt, 64) < head_', '4 * cnt <= size_')
    c.assign('tail_')
    c.ens(('inside-the-pool', '0 <= off(result) && off(result) + 4 * cnt <= size_'),
          ('aligned', '64 * ediv(off(result), 64) == off(result)'),
          ('overlaps-no-live-block', 'forall k: off(result) <= k && k < off(result) + 4 * cnt ==> !live(old(head_), old(tail_), size_, k)'),
          ('block-is-live', 'forall k: off(result) <= k && k < off(result) + 4 * cnt ==> live(head_, tail_, size_, k)'),
          ('live-blocks-stay-live', 'forall k: 0 <= k && k < size_ && live(old(head_), old(tail_), size_, k) ==> live(head_, tail_, size_, k)'))


REG.fn('_ZN4SpMP10MemoryPool8allocateIiEEPT_m', 'SymGS.cpp', 'MemoryPool::allocate<int>', alloc_int)
