// Logical threads inside one real thread, switched only at synchronisation operations, in an order drawn from a seed: the
// library's own code runs unchanged over stand-ins for std::thread, std::mutex, std::condition_variable, std::atomic and
// the like (vfiber_on.hpp puts them in place of the real ones).
#pragma once
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <functional>
#include <future>
#include <latch>
#include <memory>
#include <mutex>
#include <random>
#include <semaphore>
#include <shared_mutex>
#include <stop_token>
#include <string>
#include <thread>
#include <vector>
#include <ucontext.h>
#include <cxxabi.h>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace vf {
struct Stuck {};
struct Fiber {
  ucontext_t ctx;
  std::vector<char> stack;
  std::function<void()> fn;
  std::function<bool()> ready;                             // waits until this holds
  bool done = false, started = false;
  struct { void *caught; unsigned int uncaught; } eh{nullptr, 0};
  int id = 0;
};
struct World {
  std::vector<std::unique_ptr<Fiber>> fibers;
  Fiber *cur = nullptr;
  ucontext_t main;
  std::mt19937 rng;
  unsigned stay = 2;                                       // how eagerly the running fiber goes on
  uint64_t steps = 0, limit = 300000;
  bool stuck = false;
};
inline World W;
struct EhG { void *caught; unsigned int uncaught; };
inline auto eh() -> EhG * { return reinterpret_cast<EhG *>(__cxxabiv1::__cxa_get_globals()); }
inline void swap_to_main() {
  auto *f = W.cur;
  auto *g = eh();
  f->eh.caught = g->caught; f->eh.uncaught = g->uncaught;
  g->caught = nullptr; g->uncaught = 0;
  swapcontext(&f->ctx, &W.main);
  g = eh();
  g->caught = f->eh.caught; g->uncaught = f->eh.uncaught;
}
inline void yield() {
  if (!W.cur) return;
  if (W.steps < W.limit / 2 && W.rng() % 8 < W.stay) { ++W.steps; return; }
  swap_to_main();
}
template <class P> inline void wait_until(P p) {           // the logical thread goes on only once p holds
  if (!W.cur) { if (!p()) std::abort(); return; }
  if (W.rng() % 8 >= W.stay) swap_to_main();
  while (!p()) {
    W.cur->ready = p;
    swap_to_main();
    W.cur->ready = nullptr;
  }
}
inline void entry() {
  auto *f = W.cur;
  f->fn();
  f->fn = nullptr;
  f->done = true;
  swapcontext(&f->ctx, &W.main);
}
inline auto spawn(std::function<void()> fn) -> Fiber * {
  auto f = std::make_unique<Fiber>();
  f->id = int(W.fibers.size());
  f->fn = std::move(fn);
  W.fibers.push_back(std::move(f));
  return W.fibers.back().get();
}
// Runs until every logical thread has ended (true) or none can go on any more (false).
inline auto run(unsigned seed, unsigned stay) -> bool {
  W.rng.seed(seed);
  W.stay = stay;
  W.steps = 0;
  size_t turn = 0;
  for (;;) {
    std::vector<Fiber *> ok;
    bool all = true;
    for (size_t k = 0; k < W.fibers.size(); ++k) {
      auto *f = W.fibers[k].get();
      if (f->done) { if (!f->stack.empty()) { std::vector<char>().swap(f->stack); } continue; }
      all = false;
      if (!f->ready || f->ready()) ok.push_back(f);
    }
    if (all) return true;
    if (ok.empty() || ++W.steps > W.limit) { W.stuck = true; return false; }
    auto *f = ok[W.steps > W.limit / 2 ? turn++ % ok.size() : W.rng() % ok.size()];
    W.cur = f;
    if (!f->started) {
      f->started = true;
      f->stack.resize(128 * 1024);
      getcontext(&f->ctx);
      f->ctx.uc_stack.ss_sp = f->stack.data();
      f->ctx.uc_stack.ss_size = f->stack.size();
      f->ctx.uc_link = nullptr;
      makecontext(&f->ctx, entry, 0);
    }
    swapcontext(&W.main, &f->ctx);
    W.cur = nullptr;
  }
}
inline void clear() { W.fibers.clear(); W.stuck = false; W.cur = nullptr; }
inline auto chance(unsigned n) -> bool { return W.cur && W.rng() % n == 0; }

template <bool Shared, bool Recursive> struct basic_mutex {
  Fiber *owner = nullptr;
  int depth = 0, readers = 0;
  bool held = false;
  constexpr basic_mutex() = default;
  basic_mutex(const basic_mutex &) = delete;
  auto operator=(const basic_mutex &) -> basic_mutex & = delete;
  void lock() {
    if (Recursive && held && owner == W.cur) { ++depth; return; }
    wait_until([this] { return !held && readers == 0; });
    held = true; owner = W.cur; depth = 1;
  }
  auto try_lock() -> bool {
    yield();
    if (Recursive && held && owner == W.cur) { ++depth; return true; }
    if (held || readers) return false;
    held = true; owner = W.cur; depth = 1;
    return true;
  }
  void unlock() { if (--depth == 0) { held = false; owner = nullptr; } yield(); }
  template <class D> auto try_lock_for(D) -> bool { return try_lock(); }
  template <class D> auto try_lock_until(D) -> bool { return try_lock(); }
  void lock_shared() { wait_until([this] { return !held; }); ++readers; }
  auto try_lock_shared() -> bool { yield(); if (held) return false; ++readers; return true; }
  void unlock_shared() { --readers; yield(); }
};
using mutex = basic_mutex<false, false>;
using recursive_mutex = basic_mutex<false, true>;
using shared_mutex = basic_mutex<true, false>;

struct condition_variable {
  struct Ticket { bool woken = false; };
  std::vector<Ticket *> waiting;
  condition_variable() = default;
  condition_variable(const condition_variable &) = delete;
  template <class L> void wait(L &l) { block(l, false); }
  template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
  template <class L, class D> auto wait_for(L &l, D) -> std::cv_status { return block(l, true) ? std::cv_status::no_timeout : std::cv_status::timeout; }
  template <class L, class D, class P> auto wait_for(L &l, D d, P p) -> bool { for (int k = 0; k < 3 && !p(); ++k) wait_for(l, d); return p(); }
  template <class L, class D> auto wait_until(L &l, D d) -> std::cv_status { return wait_for(l, d); }
  template <class L, class D, class P> auto wait_until(L &l, D d, P p) -> bool { return wait_for(l, d, p); }
  void notify_one() {
    yield();
    if (waiting.empty()) return;
    auto k = W.rng() % waiting.size();
    waiting[k]->woken = true;
    waiting.erase(waiting.begin() + long(k));
    yield();
  }
  void notify_all() { yield(); for (auto *t : waiting) t->woken = true; waiting.clear(); yield(); }
 private:
  template <class L> auto block(L &l, bool timed) -> bool {
    Ticket t;
    waiting.push_back(&t);
    l.unlock();
    if (timed || chance(12)) yield();                      // a timeout, or a wakeup for no reason
    else vf::wait_until([&t] { return t.woken; });
    for (size_t k = 0; k < waiting.size(); ++k) if (waiting[k] == &t) { waiting.erase(waiting.begin() + long(k)); break; }
    bool w = t.woken;
    l.lock();
    return w;
  }
};

template <class T> struct atomic {
  T v{};
  using value_type = T;
  using MO = std::memory_order;
  static constexpr MO kSc = std::memory_order_seq_cst;
  constexpr atomic() = default;
  constexpr atomic(T x) : v(x) {}  // NOLINT
  atomic(const atomic &) = delete;
  auto operator=(const atomic &) -> atomic & = delete;
  auto load(MO = kSc) const -> T { yield(); return v; }
  void store(T x, MO = kSc) { yield(); v = x; }
  auto exchange(T x, MO = kSc) -> T { yield(); T o = v; v = x; return o; }
  operator T() const { return load(); }  // NOLINT
  auto operator=(T x) -> T { store(x); return x; }
  auto compare_exchange_strong(T &e, T x, MO = kSc, MO = kSc) -> bool { yield(); if (v == e) { v = x; return true; } e = v; return false; }
  auto compare_exchange_weak(T &e, T x, MO = kSc, MO = kSc) -> bool { return compare_exchange_strong(e, x); }
  template <class U> auto fetch_add(U x, MO = kSc) -> T { yield(); T o = v; v = T(v + x); return o; }
  template <class U> auto fetch_sub(U x, MO = kSc) -> T { yield(); T o = v; v = T(v - x); return o; }
  template <class U> auto fetch_or(U x, MO = kSc) -> T { yield(); T o = v; v = T(v | x); return o; }
  template <class U> auto fetch_and(U x, MO = kSc) -> T { yield(); T o = v; v = T(v & x); return o; }
  auto operator++() -> T { return T(fetch_add(1) + 1); }
  auto operator++(int) -> T { return fetch_add(1); }
  auto operator--() -> T { return T(fetch_sub(1) - 1); }
  auto operator--(int) -> T { return fetch_sub(1); }
  template <class U> auto operator+=(U x) -> T { return T(fetch_add(x) + x); }
  template <class U> auto operator-=(U x) -> T { return T(fetch_sub(x) - x); }
  void wait(T old, MO = kSc) const { vf::wait_until([this, old] { return !(v == old); }); }
  void notify_one() { yield(); }
  void notify_all() { yield(); }
  [[nodiscard]] auto is_lock_free() const -> bool { return true; }
};
struct atomic_flag {
  bool v = false;
  constexpr atomic_flag() = default;
  constexpr atomic_flag(int x) : v(x != 0) {}  // NOLINT  (ATOMIC_FLAG_INIT)
  template <class X> constexpr atomic_flag(std::initializer_list<X>) {}
  auto test_and_set(std::memory_order = std::memory_order_seq_cst) -> bool { yield(); bool o = v; v = true; return o; }
  void clear(std::memory_order = std::memory_order_seq_cst) { yield(); v = false; }
  auto test(std::memory_order = std::memory_order_seq_cst) const -> bool { yield(); return v; }
  void wait(bool old, std::memory_order = std::memory_order_seq_cst) const { vf::wait_until([this, old] { return v != old; }); }
  void notify_one() { yield(); }
  void notify_all() { yield(); }
};
struct thread {
  Fiber *f = nullptr;
  struct id {
    int n = -1;
    auto operator==(const id &) const -> bool = default;
    auto operator<(const id &o) const -> bool { return n < o.n; }
  };
  thread() = default;
  template <class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, thread>>> explicit thread(F &&fn, A &&...a) {
    auto b = std::make_shared<std::decay_t<decltype(std::make_tuple(std::decay_t<F>(fn), std::decay_t<A>(a)...))>>(std::forward<F>(fn), std::forward<A>(a)...);
    f = spawn([b] { std::apply([](auto &g, auto &...x) { std::invoke(std::move(g), std::move(x)...); }, *b); });
    yield();
  }
  thread(thread &&o) noexcept : f(o.f) { o.f = nullptr; }
  auto operator=(thread &&o) noexcept -> thread & { if (f) std::abort(); f = o.f; o.f = nullptr; return *this; }
  ~thread() { if (f && !W.stuck) std::abort(); }
  [[nodiscard]] auto joinable() const -> bool { return f != nullptr; }
  void join() { auto *g = f; wait_until([g] { return g->done; }); f = nullptr; }
  void detach() { f = nullptr; }
  [[nodiscard]] auto get_id() const -> id { return id{f ? f->id : -1}; }
  auto native_handle() -> unsigned long { return 0; }
  static auto hardware_concurrency() -> unsigned { return 4; }
};
struct jthread : thread {
  using thread::thread;
  jthread(jthread &&) = default;
  auto operator=(jthread &&o) noexcept -> jthread & { if (f) join(); f = o.f; o.f = nullptr; return *this; }
  ~jthread() { if (f && !W.stuck) join(); }
};
namespace this_thread {
inline void yield() { vf::yield(); }
template <class D> inline void sleep_for(D) { vf::yield(); }
template <class D> inline void sleep_until(D) { vf::yield(); }
inline auto get_id() -> thread::id { return {W.cur ? W.cur->id : -1}; }
}  // namespace this_thread
template <std::ptrdiff_t M = 1 << 30> struct counting_semaphore {
  std::ptrdiff_t n;
  explicit counting_semaphore(std::ptrdiff_t k) : n(k) {}
  void acquire() { vf::wait_until([this] { return n > 0; }); --n; }
  auto try_acquire() -> bool { yield(); if (n <= 0) return false; --n; return true; }
  template <class D> auto try_acquire_for(D) -> bool { return try_acquire(); }
  void release(std::ptrdiff_t k = 1) { n += k; yield(); }
};
using binary_semaphore = counting_semaphore<1>;
struct latch {
  std::ptrdiff_t n;
  explicit latch(std::ptrdiff_t k) : n(k) {}
  void count_down(std::ptrdiff_t k = 1) { yield(); n -= k; }
  void wait() { vf::wait_until([this] { return n <= 0; }); }
  auto try_wait() -> bool { yield(); return n <= 0; }
  void arrive_and_wait() { count_down(); wait(); }
};
}  // namespace vf
namespace std {
using vfs_mutex = vf::mutex;
using vfs_recursive_mutex = vf::recursive_mutex;
using vfs_timed_mutex = vf::mutex;
using vfs_shared_mutex = vf::shared_mutex;
using vfs_condition_variable = vf::condition_variable;
template <class T> using vfs_atomic = vf::atomic<T>;
using vfs_atomic_flag = vf::atomic_flag;
using vfs_atomic_bool = vf::atomic<bool>;
using vfs_atomic_size_t = vf::atomic<size_t>;
using vfs_atomic_int = vf::atomic<int>;
using vfs_thread = vf::thread;
using vfs_jthread = vf::jthread;
template <std::ptrdiff_t M = 1 << 30> using vfs_counting_semaphore = vf::counting_semaphore<M>;
using vfs_binary_semaphore = vf::binary_semaphore;
using vfs_latch = vf::latch;
namespace vfs_this_thread = vf::this_thread;
}  // namespace std
