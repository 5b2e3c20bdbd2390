// Stand-in for liburing used by the harnesses: requests are performed by plain positioned reads and writes, at an arbitrary
// moment between submission and completion and in arbitrary order, as a kernel may.  Works where io_uring is not available.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <mutex>
#include <random>
#include <thread>
#include <unistd.h>
#include "vfault.hpp"
#include <vector>
#include <linux/time_types.h>

enum { IORING_OP_READ = 22, IORING_OP_WRITE = 23 };
struct io_uring_cqe { uint64_t user_data; int32_t res; uint32_t flags; };
struct io_uring_sqe { int op; int fd; void *buf; unsigned len; uint64_t off; uint64_t user_data; };
struct io_uring_probe { int dummy; };
namespace vfu {
struct Op { io_uring_sqe q; bool done; int32_t res; };
struct Ring {
  std::mutex m;
  unsigned depth = 0;
  std::vector<io_uring_sqe> sq;        // prepared
  std::vector<Op> pending;             // submitted
  io_uring_cqe head{};
  bool has_head = false;
  std::mt19937 g;
};
inline unsigned seed = 1;
inline int short_every = 0;            // every n-th operation is cut short (0: never)
inline unsigned long counter = 0;
inline void perform(Ring &r, Op &o) {
  unsigned len = o.q.len;
  if (short_every && ++counter % short_every == 0 && len) len = r.g() % len;
  o.res = o.q.op == IORING_OP_READ ? int(::pread(o.q.fd, o.q.buf, len, off_t(o.q.off))) : int(::pwrite(o.q.fd, o.q.buf, len, off_t(o.q.off)));
  if (o.res < 0) o.res = -errno;
  if (o.q.op == IORING_OP_READ && vfd::fails()) o.res = -EIO;
  o.done = true;
}
inline bool take(Ring &r, bool must) {                 // lock held
  if (r.has_head) return true;
  if (r.pending.empty() || (!must && r.g() % 3 == 0)) return false;
  auto k = r.g() % r.pending.size();
  auto &o = r.pending[k];
  if (!o.done) perform(r, o);
  r.head = io_uring_cqe{o.q.user_data, o.res, 0};
  r.has_head = true;
  r.pending.erase(r.pending.begin() + long(k));
  return true;
}
}  // namespace vfu
struct io_uring { vfu::Ring *r; };
inline int io_uring_queue_init(unsigned n, io_uring *u, unsigned) {
  u->r = new vfu::Ring; u->r->depth = n; u->r->g.seed(vfu::seed); return 0;
}
inline void io_uring_queue_exit(io_uring *u) { delete u->r; u->r = nullptr; }
inline io_uring_probe *io_uring_get_probe() { return new io_uring_probe{}; }
inline io_uring_probe *io_uring_get_probe_ring(io_uring *) { return new io_uring_probe{}; }
inline int io_uring_opcode_supported(const io_uring_probe *, int) { return 1; }
inline void io_uring_free_probe(io_uring_probe *p) { delete p; }
inline io_uring_sqe *io_uring_get_sqe(io_uring *u) {
  std::lock_guard<std::mutex> l(u->r->m);
  if (u->r->sq.size() >= u->r->depth) return nullptr;
  u->r->sq.reserve(u->r->depth);                       // earlier pointers stay valid
  u->r->sq.push_back({});
  return &u->r->sq.back();
}
inline void io_uring_prep_read(io_uring_sqe *s, int fd, void *b, unsigned n, uint64_t off) { *s = {IORING_OP_READ, fd, b, n, off, s->user_data}; }
inline void io_uring_prep_write(io_uring_sqe *s, int fd, const void *b, unsigned n, uint64_t off) { *s = {IORING_OP_WRITE, fd, const_cast<void *>(b), n, off, s->user_data}; }
inline void io_uring_sqe_set_data(io_uring_sqe *s, void *d) { s->user_data = reinterpret_cast<uint64_t>(d); }
inline void *io_uring_cqe_get_data(const io_uring_cqe *c) { return reinterpret_cast<void *>(c->user_data); }
inline int io_uring_submit(io_uring *u) {
  auto &r = *u->r;
  std::lock_guard<std::mutex> l(r.m);
  int n = 0;
  size_t lim = r.sq.size() > 1 && r.g() % 4 == 0 ? 1 + r.g() % r.sq.size() : r.sq.size();   // a kernel may accept a part
  for (; size_t(n) < lim; ++n) {
    r.pending.push_back({r.sq[size_t(n)], false, 0});
    if (r.g() & 1) vfu::perform(r, r.pending.back());
  }
  r.sq.erase(r.sq.begin(), r.sq.begin() + n);
  return n;
}
inline int io_uring_peek_cqe(io_uring *u, io_uring_cqe **c) {
  std::lock_guard<std::mutex> l(u->r->m);
  if (!vfu::take(*u->r, false)) return -EAGAIN;
  *c = &u->r->head;
  return 0;
}
inline int io_uring_wait_cqe(io_uring *u, io_uring_cqe **c) {
  for (;;) {
    {
      std::lock_guard<std::mutex> l(u->r->m);
      if (vfu::take(*u->r, true)) { *c = &u->r->head; return 0; }
    }
    std::this_thread::yield();
  }
}
inline int io_uring_wait_cqe_timeout(io_uring *u, io_uring_cqe **c, __kernel_timespec *) {
  std::lock_guard<std::mutex> l(u->r->m);
  if (!vfu::take(*u->r, true)) return -ETIME;
  *c = &u->r->head;
  return 0;
}
inline void io_uring_cqe_seen(io_uring *u, io_uring_cqe *) {
  std::lock_guard<std::mutex> l(u->r->m);
  u->r->has_head = false;
}
