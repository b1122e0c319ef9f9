// A sequence of pool operations against a byte-level record of what is live.
// Built with assertions on: a request that does not fit must end in an assertion
// (seen by the parent process), a request that fits must not.
#include "rp.hpp"
#include "MemoryPool.hpp"
#include <sys/wait.h>
#include <signal.h>
#include <deque>
using namespace rp; using namespace SpMP;
struct Blk { size_t b, e; };
static size_t up(size_t x, size_t a) { return (x + a - 1)/a*a; }
static size_t down(size_t x, size_t a) { return x/a*a; }
// runs f in a child: did an assertion end it?
template<class F> static bool aborts(F f) {
  fflush(stdout);
  pid_t p = fork();
  if (!p) { fclose(stderr); f(); _exit(0); }
  int st; waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
int main(int c, char **v) {
  init(c, v);
  while (more()) {
    begin();
    size_t size = flip(3) ? rnd(1, 300) : flip() ? 64*rnd(1, 40) : 4096*rnd(1, 4) + rnd(0, 1)*rnd(0, 4095);
    MemoryPool *pool;
    if (flip()) pool = new MemoryPool(size);
    else { pool = new MemoryPool(); RP_CHECK(!pool->contains((void *)&c) && !pool->getHead() && !pool->getTail(), "empty pool"); pool->initialize(size); }
    char *base = NULL;
    add("pool of %zu bytes\n", size);
    // learn the buffer address from a zero-sized front block (head stays 0)
    ready();
    base = (char *)pool->allocateFront(0);
    std::deque<Blk> live; // from head side to tail side
    struct Mark { bool tail; size_t at, n; };
    std::vector<Mark> marks;
    int steps = rnd(1, 25);
    bool fixedAlign = flip();
    for (int s = 0; s < steps; ++s) {
      size_t head = pool->getHead(), tail = pool->getTail();
      int op = rnd(0, 9);
      size_t sz = flip(8) ? 0 : flip(4) ? rnd(1, (int)size) : rnd(1, (int)size/6 + 1);
      if (flip(30)) sz = flip() ? size*2 : (size_t)-1 - rnd(0, 100);
      int al = fixedAlign ? 64 : flip(3) ? 1 << rnd(0, 8) : flip(3) ? rnd(1, 100) : 64;
      bool wrapped = tail < head;
      if (op <= 6) {
        bool front = op >= 4, viaT = !front && al == 64 && flip(4) && sz < size;
        if (viaT) sz = (sz + 3)/4*4;
        add("%s(%zu, %d)\n", front ? "allocateFront" : viaT ? "allocate<int>" : "allocate", sz, al);
        ready();
        bool fits = false;
        if (sz <= size) {
          size_t r = up(sz, al), b = up(tail, al);
          if (!front) fits = wrapped ? b + r < head : b + r < size || r < head;
          else fits = wrapped ? head > tail + r && down(head - r, al) > tail : head >= r || (r <= size && down(size - r, al) > tail);
        }
        if (!fits) {
          if (flip(2)) {
            bool a = aborts([&] { if (front) pool->allocateFront(sz, al); else pool->allocate(sz, al); });
            RP_CHECK(a, "a request that does not fit was served (head %zu tail %zu)", head, tail);
          }
          continue;
        }
        bool a = flip(10) && aborts([&] { if (front) pool->allocateFront(sz, al); else pool->allocate(sz, al); });
        RP_CHECK(!a, "a request that fits ended in an assertion (head %zu tail %zu)", head, tail);
        char *p = front ? (char *)pool->allocateFront(sz, al) : viaT ? (char *)pool->allocate<int>(sz/4) : (char *)pool->allocate(sz, al);
        size_t o = p - base;
        RP_CHECK(p >= base && o + sz <= size, "block [%ld,%ld) outside the pool", (long)(p - base), (long)(p - base) + (long)sz);
        RP_CHECK((size_t)(p - base) % al == 0 && (4096 % al || (size_t)p % al == 0), "block at %zu not aligned to %d", o, al);
        for (auto &b : live) RP_CHECK(o + sz <= b.b || b.e <= o, "block [%zu,%zu) overlaps live block [%zu,%zu)", o, o + sz, b.b, b.e);
        if (sz) { RP_CHECK(pool->contains(p) && pool->contains(p + sz - 1) && pool->contains(p + sz/2), "live byte not contained"); memset(p, s, sz); }
        if (front) { for (auto &m : marks) if (!m.tail) {} live.push_front(Blk{o, o + sz}); for (auto &m : marks) if (m.tail) m.n++; }
        else { live.push_back(Blk{o, o + sz}); for (auto &m : marks) if (!m.tail) m.n++; }
        RP_CHECK(pool->getHead() < size && pool->getTail() < size, "mark outside the pool");
        RP_CHECK(front ? pool->getTail() == tail : pool->getHead() == head, "the other end moved");
      }
      else if (op == 7) { // mark: n counts the blocks that existed, seen from the other end
        bool t = flip();
        marks.push_back(Mark{t, t ? tail : head, live.size()});
        add("mark %s\n", t ? "tail" : "head");
      }
      else if (op == 8 && !marks.empty()) {
        Mark m = marks.back(); marks.pop_back();
        if (m.at >= size) continue;
        add("rewind %s to %zu\n", m.tail ? "tail" : "head", m.at);
        ready();
        bool a = flip(6) && aborts([&] { if (m.tail) pool->setTail(m.at); else pool->setHead(m.at); });
        RP_CHECK(!a, "rewinding to a mark ended in an assertion");
        if (m.tail) { pool->setTail(m.at); while (live.size() > m.n) live.pop_back(); RP_CHECK(pool->getTail() == m.at && pool->getHead() == head, "tail not restored"); }
        else { pool->setHead(m.at); while (live.size() > m.n) live.pop_front(); RP_CHECK(pool->getHead() == m.at && pool->getTail() == tail, "head not restored"); }
        for (auto &q : marks) if (q.n > live.size()) q.n = live.size();
        // marks of the other end taken since are void only if they lie in the freed part
        marks.clear();
      }
      else if (op == 9 && flip(4)) {
        add("deallocateAll\n");
        pool->deallocateAll(); live.clear(); marks.clear();
        RP_CHECK(pool->getHead() == pool->getTail(), "not empty");
      }
      // membership of every offset around the pool
      head = pool->getHead(), tail = pool->getTail();
      for (int q = 0; q < 12; ++q) {
        long k = flip(3) ? (long)head + rnd(-1, 1) : flip() ? (long)tail + rnd(-1, 1) : flip(3) ? (long)size + rnd(-1, 1) : flip(5) ? -1 : rnd(0, (int)size);
        bool in = k >= 0 && k < (long)size && (tail >= head ? (long)head <= k && k < (long)tail : k < (long)tail || k >= (long)head);
        RP_CHECK(pool->contains(base + k) == in, "contains(base+%ld) is %d with head %zu tail %zu of %zu", k, (int)!in, head, tail, size);
      }
      for (auto &b : live) if (b.e > b.b) RP_CHECK(pool->contains(base + b.b) && pool->contains(base + b.e - 1), "live block not contained");
      RP_CHECK(!pool->contains(NULL), "contains(NULL)");
    }
    if (flip()) { pool->finalize(); RP_CHECK(!pool->contains(base), "finalized pool"); RP_CHECK(!pool->getHead() && !pool->getTail(), "finalized marks"); }
    delete pool;
  }
  return done();
}
