// Stand-in for libaio used by the harnesses: requests are performed by plain positioned reads, at an arbitrary moment between
// submission and completion and in arbitrary order, as a kernel may.  No process-wide quota.
#pragma once
#include <cerrno>
#include <cstdint>
#include <ctime>
#include <mutex>
#include <random>
#include <thread>
#include <unistd.h>
#include "vfault.hpp"
#include <vector>
struct iocb { void *data; int fd; void *buf; size_t len; long long off; };
struct io_event { void *data; iocb *obj; unsigned long res; unsigned long res2; };
namespace vfa {
inline unsigned seed = 1;
struct Req { iocb c; bool done; long res; };
struct Ctx {
  std::mutex m;
  unsigned depth = 0;
  std::vector<Req> pending;
  std::mt19937 g;
};
inline void perform(Req &r) {
  r.res = vfd::fails() ? -EIO : ::pread(r.c.fd, r.c.buf, r.c.len, off_t(r.c.off));
  if (r.res == -1) r.res = -errno;
  r.done = true;
}
}  // namespace vfa
using io_context_t = vfa::Ctx *;
inline int io_setup(int n, io_context_t *c) { *c = new vfa::Ctx; (*c)->depth = unsigned(n); (*c)->g.seed(vfa::seed); return 0; }
inline int io_destroy(io_context_t c) { delete c; return 0; }
inline void io_prep_pread(iocb *c, int fd, void *b, size_t n, long long off) { *c = {nullptr, fd, b, n, off}; }
inline int io_submit(io_context_t c, long n, iocb **v) {
  if (!c) return -EINVAL;
  std::lock_guard<std::mutex> l(c->m);
  if (c->pending.size() + size_t(n) > c->depth) return -EAGAIN;
  for (long k = 0; k < n; ++k) {
    c->pending.push_back({*v[k], false, 0});
    if (c->g() & 1) vfa::perform(c->pending.back());
  }
  return int(n);
}
inline int io_getevents(io_context_t c, long min_nr, long nr, io_event *e, timespec *) {
  if (!c) return -EINVAL;
  long got = 0;
  for (;;) {
    {
      std::lock_guard<std::mutex> l(c->m);
      while (got < nr && !c->pending.empty()) {
        if (got >= min_nr && c->g() % 3 == 0) return int(got);
        auto k = c->g() % c->pending.size();
        auto &r = c->pending[k];
        if (!r.done) vfa::perform(r);
        e[got++] = {r.c.data, nullptr, (unsigned long)(r.res), 0};
        c->pending.erase(c->pending.begin() + long(k));
      }
      if (got >= min_nr || c->pending.empty()) return int(got);
    }
    std::this_thread::yield();
  }
}
