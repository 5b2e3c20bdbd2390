// Task execution: thread pool, scheduler, coroutine gate, object pools, queues and locks, driven by several clients.
// VF_FIBER: clients and the library's own threads are logical threads whose interleaving is drawn from a seed, and every
// event is recorded.  Otherwise: real threads (under ThreadSanitizer), recording only the end.
#include "cpp/common.hpp"
#include <algorithm>
#include <coroutine>
#include <deque>
#include <exception>
#include <future>
#include <memory>
#include <queue>
#include <set>
#include <unordered_set>
#include "vfiber.hpp"
#include <tuple>
#include "utils/log.hpp"
#include "utils/types.hpp"
#include "utils/query_utils.hpp"
#include "utils/rabitq_utils/search_utils/hashset.hpp"
#include "concurrentqueue.h"
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>
#include <filesystem>
#include <functional>
#include <iostream>
#include <type_traits>
#ifdef VF_FIBER
#include "vfiber_on.hpp"
#endif
#include "utils/locks.hpp"
#include "utils/thread_pool.hpp"
#include "executor/task_queue.hpp"
#include "executor/worker.hpp"
#include "executor/scheduler.hpp"
#include "utils/coro_gate.hpp"
#include "index/graph/laser/utils/concurrent_queue.hpp"
#include "index/graph/hnsw/visited_list_pool.hpp"
#include "utils/rabitq_utils/search_utils/visited_pool.hpp"
#ifdef VF_FIBER
#include "vfiber_off.hpp"
#endif
using namespace vfh;

// ------------------------------------------------------------------ clients and events
static std::vector<std::string> trace;
#ifdef VF_FIBER
static constexpr bool kThrows = true;
static auto shown() -> std::string;
static void log(const Ev &e) { trace.push_back(e.s); }
static void pt() { vf::yield(); }
template <class P> static void hold(P p) { vf::wait_until(p); }
static auto me() -> int { return vf::W.cur ? vf::W.cur->id : -1; }
#else
static constexpr bool kThrows = false;                     // the counting of exception objects is out of the sanitizer's sight
static auto shown() -> std::string;
static void log(const Ev &) {}
static void pt() { static thread_local unsigned x = unsigned(std::hash<std::thread::id>()(std::this_thread::get_id())); x = x * 1664525 + 1013904223; if (x >> 29 == 0) std::this_thread::yield(); }
template <class P> static void hold(P p) { while (!p()) std::this_thread::yield(); }
static std::atomic<int> next_me{0};
static auto me() -> int { static thread_local int k = next_me++; return k; }
#endif
static std::string kind;
static int par;
#ifdef VF_FIBER
static auto shown() -> std::string { return kind; }
#else
static auto shown() -> std::string { return "real"; }
#endif
static std::vector<Args> progs;
static std::atomic<int> ended{0};                          // clients other than the first that are through
static std::atomic<long> want{0};                          // critical sections entered
static long cnt = 0;                                       // the same, kept in plain memory

struct Job {                                               // a coroutine task
  struct promise_type {
    auto get_return_object() -> Job { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    auto initial_suspend() noexcept -> std::suspend_always { return {}; }
    auto final_suspend() noexcept -> std::suspend_always { return {}; }
    void return_void() {}
    void unhandled_exception() { std::abort(); }
  };
  std::coroutine_handle<promise_type> h;
};

// ------------------------------------------------------------------ thread pool
struct TpWorld {
  std::unique_ptr<alaya::ThreadPool> pool;
  std::map<int, std::future<int>> fut[8];
  int res[64] = {};
};
static std::shared_ptr<TpWorld> tp;
static void body(int k, char m);
static void submit(int c, int k, char m) {
  log(Ev("sub").num("c", c).num("k", k).str("m", std::string(1, m)));
  auto f = tp->pool->enqueue([k, m](int x) -> int { body(k, m); if (m == 'x' && kThrows) throw std::runtime_error(std::to_string(k)); return x + 1000; }, k);
  if (c >= 0) tp->fut[c][k] = std::move(f);
  log(Ev("subd").num("c", c).num("k", k));
}
static void body(int k, char m) {
  log(Ev("run").num("k", k));
  pt();
  tp->res[k] += 1;
  if (m == 'n') submit(-1, k + 30, 'v');
  if (m == 'y') { pt(); pt(); }
  log(Ev("fin").num("k", k));
}
static void tp_client(int c) {
  for (auto &o : progs[c]) {
    pt();
    auto k = o.size() > 1 && isdigit(o[1]) ? std::stoi(o.substr(1)) : 0;
    switch (o[0]) {
      case 's': submit(c, k, o.back()); break;
      case 'g': {
        auto it = tp->fut[c].find(k);
        if (it == tp->fut[c].end()) break;
        hold([it] { return it->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready; });
        std::string r;
        try { r = std::to_string(it->second.get() - 1000); } catch (const std::exception &e) { r = std::string("x") + e.what(); }
        tp->fut[c].erase(it);
        if (tp->res[k] != 1) r = "twice";
        log(Ev("got").num("c", c).num("k", k).str("r", r));
        break;
      }
      case 'w': {
        log(Ev("wait").num("c", c).num("n", k));
        tp->pool->wait_until_all_tasks_completed(k);
        log(Ev("waited").num("c", c).num("n", k));
        break;
      }
      case 'z': tp->pool->reset_task(); log(Ev("zero")); break;
      case 'J': hold([] { return ended.load() == int(progs.size()) - 1; }); break;
      case 'd': log(Ev("del")); tp->pool.reset(); { int s = 0; for (int x : tp->res) s += x; (void)s; } log(Ev("deld")); break;
      default: break;
    }
  }
}
// ------------------------------------------------------------------ scheduler
struct ScWorld {
  std::unique_ptr<alaya::Scheduler> sch;
  std::vector<uint32_t> cpus;
  std::deque<Job> jobs;
  int steps[64] = {};
};
static std::shared_ptr<ScWorld> sc;
static auto sc_job(int k, std::string how) -> Job {
  auto w = sc;
  for (size_t i = 0;; ++i) {
    log(Ev("in").num("k", k).num("i", i));
    w->steps[k]++;
    pt();
    if (i < how.size() && how[i] == 'n') {                 // hands in a further task
      log(Ev("sub").num("c", -1).num("k", k + 30).num("m", 1));
      w->jobs.push_back(sc_job(k + 30, ""));
      w->sch->schedule(w->jobs.back().h);
    }
    log(Ev("out").num("k", k).num("i", i));
    if (i >= how.size()) break;
    if (how[i] == 'b') co_await w->sch->schedule();
    else co_await std::suspend_always{};
  }
}
static void sc_client(int c) {
  auto w = sc;
  for (auto &o : progs[c]) {
    pt();
    switch (o[0]) {
      case 's': {
        auto p = o.find('/');
        int k = std::stoi(o.substr(1, p - 1));
        auto how = o.substr(p + 1);
        log(Ev("sub").num("c", c).num("k", k).num("m", how.size() + 1));
        auto j = sc_job(k, how);
        { static std::mutex mu; std::lock_guard<std::mutex> g(mu); w->jobs.push_back(j); }
        w->sch->schedule(j.h);
        log(Ev("subd").num("c", c).num("k", k));
        break;
      }
      case 'b': w->sch->begin(); log(Ev("begun")); break;
      case 'J': hold([] { return ended.load() == int(progs.size()) - 1; }); break;
      case 'p': pt(); pt(); pt(); pt(); break;
      case 'j': case 'd':
        log(Ev("del"));
        if (o[0] == 'j') w->sch->join();
        delete w->sch.get();                               // tasks may hand in further ones until this returns
        (void)w->sch.release();
        { int s = 0; for (int x : w->steps) s += x; (void)s; }
        log(Ev("deld"));
        break;
      default: break;
    }
  }
}
// ------------------------------------------------------------------ gate
struct Item { int id; long uses = 0; };
struct GateWorld {
  alaya::AsyncGate<Item> gate;
  coro::thread_pool pool;
  std::deque<Item> items;
  std::mutex mu;                                           // real threads only
  std::deque<std::coroutine_handle<>> ready;
  std::atomic<int> live{0};
  struct C { int asks = 0; bool asking = false; long tok = 0; };
  std::vector<C> cs;
  std::map<void *, int> who;
  std::map<int, long> tok;
  long toks = 0;
#ifdef VF_FIBER                                            // real threads: no synchronisation but the gate's own
  void asks(int c, int n) { cs[c].asking = true; cs[c].asks = n; cs[c].tok = tok[me()]; }
  void got(int c) { cs[c].asking = false; }
#else
  void asks(int, int) {}
  void got(int) {}
#endif
};
static std::shared_ptr<GateWorld> gw;
static auto gate_job(int c) -> Job {
  auto w = gw;
  std::deque<Item *> have;
  int n = 0;
  for (auto &o : progs[c]) {
    pt();
    if (o[0] == 'a') {
      ++n;
      w->asks(c, n);
      log(Ev("ask").num("c", c).num("n", n));
      Item *it = co_await w->gate.acquire(w->pool);
      w->got(c);
      log(Ev("have").num("c", c).num("n", n).num("x", it ? it->id : -1));
      if (it) { it->uses++; have.push_back(it); }
    } else if (o[0] == 'r' && !have.empty()) {
      auto *it = have.front();
      have.pop_front();
      it->uses++;
      log(Ev("rel").num("c", c).num("x", it->id));
      w->gate.release(it);
      log(Ev("reld").num("c", c).num("x", it->id));
    } else if (o[0] == 'y') co_await w->pool.schedule();
  }
  w->live.fetch_sub(1);
}
static void gate_worker() {
  auto w = gw;
  for (;;) {
    std::coroutine_handle<> h;
    hold([w] { std::lock_guard<std::mutex> g(w->mu); return !w->ready.empty() || w->live.load() == 0; });
    long t;
    int c;
    {
      std::lock_guard<std::mutex> g(w->mu);
      if (w->ready.empty()) { if (w->live.load() == 0) return; continue; }
      h = w->ready.front();
      w->ready.pop_front();
      t = w->tok[me()] = ++w->toks;
      c = w->who[h.address()];
    }
    h.resume();
    if (w->cs[c].asking && w->cs[c].tok == t) log(Ev("back").num("c", c).num("n", w->cs[c].asks));
  }
}
// ------------------------------------------------------------------ object pools and queues
struct PoolWorld {
  std::unique_ptr<alaya::HashSetPool> h;
  std::unique_ptr<alaya::EpochVisitedPool<uint8_t>> e;
  std::unique_ptr<alaya::VisitedListPool> v;
  std::map<void *, int> num;
  std::mutex mu;
  auto number(void *p) -> int { std::lock_guard<std::mutex> g(mu); return num.emplace(p, int(num.size())).first->second; }
  auto take() -> void * { if (h) return h->acquire(); if (e) return e->acquire(); return v->get_free_visited_list(); }
  void give(void *p) {
    if (h) h->release((alaya::HashBasedBooleanSet *)p); else if (e) e->release((alaya::EpochVisitedSet<uint8_t> *)p); else v->release_visited_list((alaya::VisitedList *)p);
  }
  void set(void *p, unsigned i) {
    if (h) ((alaya::HashBasedBooleanSet *)p)->set(i);
    else if (e) ((alaya::EpochVisitedSet<uint8_t> *)p)->set(i);
    else { auto *x = (alaya::VisitedList *)p; x->mass_[i] = x->cur_v_; }
  }
  auto get(void *p, unsigned i) -> bool {
    if (h) return ((alaya::HashBasedBooleanSet *)p)->get(i);
    if (e) return ((alaya::EpochVisitedSet<uint8_t> *)p)->get(i);
    auto *x = (alaya::VisitedList *)p;
    return x->mass_[i] == x->cur_v_;
  }
};
static std::shared_ptr<PoolWorld> pw;
static void pool_client(int c) {
  auto w = pw;
  std::deque<std::pair<void *, std::set<unsigned>>> have;
  auto check = [&](auto &p) { for (unsigned i = 0; i < 40; ++i) if (w->get(p.first, i) != (p.second.count(i) > 0)) return false; return true; };
  for (auto &o : progs[c]) {
    pt();
    if (o[0] == 'a') {
      void *p = w->take();
      have.emplace_back(p, std::set<unsigned>{});
      log(Ev("took").num("c", c).num("x", w->number(p)).b("clean", check(have.back())));
    } else if (o[0] == 'm' && !have.empty()) {
      unsigned i = unsigned(c * 7 + int(have.back().second.size()) * 3) % 40;
      w->set(have.back().first, i);
      have.back().second.insert(i);
    } else if (o[0] == 'r' && !have.empty()) {
      auto p = have.front();
      have.pop_front();
      log(Ev("gave").num("c", c).num("x", w->number(p.first)).b("clean", check(p)));
      w->give(p.first);
    }
  }
  for (auto &p : have) { log(Ev("gave").num("c", c).num("x", w->number(p.first)).b("clean", check(p))); w->give(p.first); }
}
struct QWorld {
  std::unique_ptr<::ConcurrentQueue<int>> q;
  std::unique_ptr<alaya::TaskQueue> t;
  void push(int x) { if (q) q->push(x); else t->push(std::coroutine_handle<>::from_address(reinterpret_cast<void *>(uintptr_t(x) * 16))); }
  auto pop() -> int {
    if (q) return q->pop();
    std::coroutine_handle<> h;
    return t->pop(h) ? int(uintptr_t(h.address()) / 16) : -1;
  }
};
static std::shared_ptr<QWorld> qw;
static void q_client(int c) {
  auto w = qw;
  int n = 0;
  for (auto &o : progs[c]) {
    pt();
    if (o[0] == 'u') { int x = (c + 1) * 100 + ++n; log(Ev("push").num("c", c).num("x", x)); w->push(x); log(Ev("pushd").num("c", c).num("x", x)); }
    else if (o[0] == 'o') { log(Ev("pop").num("c", c)); int x = w->pop(); log(Ev("popd").num("c", c).num("x", x)); }
    else if (o[0] == 'J') hold([] { return ended.load() == int(progs.size()) - 1; });
    else if (o[0] == 'D') for (int k = 0; k < 40; ++k) { log(Ev("pop").num("c", c)); int x = w->pop(); log(Ev("popd").num("c", c).num("x", x)); if (x < 0) break; }
  }
}
// ------------------------------------------------------------------ locks
struct LockWorld { alaya::SpinLock spin; alaya::SharedLock sh; };
static std::shared_ptr<LockWorld> lw;
static void crit(int c, bool ex) {
  log(Ev("enter").num("c", c).b("ex", ex));
  long x = cnt;
  pt();
  if (ex) { cnt = x + 1; want.fetch_add(1); }
  log(Ev("leave").num("c", c).b("ex", ex));
}
static void lock_client(int c) {
  auto w = lw;
  bool spin = kind == "spin";
  for (auto &o : progs[c]) {
    pt();
    switch (o[0]) {
      case 'L':
        if (spin) { alaya::SpinLockGuard g(w->spin); crit(c, true); } else { w->sh.lock(); crit(c, true); w->sh.unlock(); }
        break;
      case 'T':
        if (spin) { bool r = w->spin.try_lock(); log(Ev("try").num("c", c).b("r", r)); if (r) { crit(c, true); w->spin.unlock(); } }
        break;
      case 'S': if (!spin) { w->sh.lock_shared(); crit(c, false); w->sh.unlock_shared(); } break;
      case 'D': if (!spin) { w->sh.lock(); crit(c, true); w->sh.degrade_lock(); crit(c, false); w->sh.unlock_shared(); } break;
      default: break;
    }
  }
}
// ------------------------------------------------------------------ one schedule
static void client(int c) {
  if (kind == "tp") tp_client(c);
  else if (kind == "sched") sc_client(c);
  else if (kind == "lq" || kind == "tq") q_client(c);
  else if (kind == "spin" || kind == "shared") lock_client(c);
  else pool_client(c);
  if (c > 0) ended.fetch_add(1);
}
static auto once(unsigned seed) -> bool {
  trace.clear();
  ended = 0; want = 0; cnt = 0;
  int nc = int(progs.size());
  std::vector<std::function<void()>> fs;
  if (kind == "tp") { tp = std::make_shared<TpWorld>(); }
  if (kind == "sched") { sc = std::make_shared<ScWorld>(); for (int k = 0; k < par; ++k) sc->cpus.push_back(uint32_t(k)); }
  if (kind == "hpool" || kind == "epool" || kind == "vpool") {
    pw = std::make_shared<PoolWorld>();
    if (kind == "hpool") pw->h = std::make_unique<alaya::HashSetPool>(par, 400);
    if (kind == "epool") pw->e = std::make_unique<alaya::EpochVisitedPool<uint8_t>>(par, 40);
    if (kind == "vpool") pw->v = std::make_unique<alaya::VisitedListPool>(par, 40);
  }
  if (kind == "lq") { qw = std::make_shared<QWorld>(); qw->q = std::make_unique<::ConcurrentQueue<int>>(-1); }
  if (kind == "tq") { qw = std::make_shared<QWorld>(); qw->t = std::make_unique<alaya::TaskQueue>(); }
  if (kind == "spin" || kind == "shared") lw = std::make_shared<LockWorld>();
  std::vector<Job> jobs;
  if (kind == "gate") {
    gw = std::make_shared<GateWorld>();
    auto *g = gw.get();
    g->pool.sink = [g](std::coroutine_handle<> h) { std::lock_guard<std::mutex> l(g->mu); g->ready.push_back(h); };
    for (int k = 0; k < par; ++k) g->items.push_back(Item{k});
    for (auto &x : g->items) g->gate.add(&x);
    g->cs.resize(nc);
    g->live = nc;
    for (int c = 0; c < nc; ++c) { jobs.push_back(gate_job(c)); g->who[jobs.back().h.address()] = c; g->ready.push_back(jobs.back().h); }
    for (int k = 0; k < 3; ++k) fs.push_back(gate_worker);
  } else {
    for (int c = 0; c < nc; ++c) fs.push_back([c] { client(c); });
  }
  bool ok = true;
#ifdef VF_FIBER
  vf::clear();
  if (kind == "tp" || kind == "sched")                     // the objects start their threads while clients run
    fs[0] = [f = fs[0]] { if (kind == "tp") tp->pool = std::make_unique<alaya::ThreadPool>(par); else sc->sch = std::make_unique<alaya::Scheduler>(sc->cpus); f(); };
  if (kind == "tp" || kind == "sched") for (int c = 1; c < nc; ++c) fs[c] = [f = fs[c]] { hold([] { return (tp && tp->pool) || (sc && sc->sch); }); f(); };
  for (auto &f : fs) vf::spawn(f);
  ok = vf::run(seed, seed % 7 == 0 ? 6 : seed % 3 == 0 ? 4 : 0);
#else
  (void)seed;
  if (kind == "tp") tp->pool = std::make_unique<alaya::ThreadPool>(par);
  if (kind == "sched") sc->sch = std::make_unique<alaya::Scheduler>(sc->cpus);
  std::vector<std::thread> th;
  for (auto &f : fs) th.emplace_back(f);
  for (auto &t : th) t.join();
#endif
  if (!ok) {                                               // what is stuck stays as it is
    new std::shared_ptr<TpWorld>(tp); new std::shared_ptr<ScWorld>(sc); new std::shared_ptr<GateWorld>(gw); new std::shared_ptr<PoolWorld>(pw);
    new std::shared_ptr<QWorld>(qw); new std::shared_ptr<LockWorld>(lw);
#ifdef VF_FIBER
    for (auto &f : vf::W.fibers) (void)f.release();
#endif
  } else {
    if (gw) { Ev e("free"); e.num("n", gw->gate.free_count()); log(e); }
    for (auto &j : jobs) j.h.destroy();
    if (sc) for (auto &j : sc->jobs) j.h.destroy();
  }
  tp.reset(); sc.reset(); gw.reset(); pw.reset(); qw.reset(); lw.reset();
  return ok;
}
static void reset_(const Args &a, const std::string &) {
  progs.clear();
  kind = a[0];
  par = int(I(a[1]));
  out(Ev("reset").str("kind", kind).num("par", par));
}
static void op(const Args &a) {
  if (a[0] == "c") { progs.emplace_back(a.begin() + 1, a.end()); return out(Ev("prog").num("n", a.size() - 1)); }
  if (a[0] != "go") return out(Ev("skip"));
  unsigned seed = unsigned(I(a[1]));
  int n = int(I(a[2]));
  std::unordered_set<std::string> seen;
  for (int k = 0; k < n; ++k) {
    bool ok = once(seed + unsigned(k));
    std::string all;
    for (auto &s : trace) all += s;
    if (!seen.insert(all).second) continue;
    out(Ev("begin").str("kind", shown()).num("par", par).num("seed", seed + unsigned(k)));
    for (auto &s : trace) { Ev e(""); e.s = s; out(e); }
    out(Ev(ok ? "done" : "stuck").num("cnt", cnt).num("want", want.load()));
  }
}
int main(int argc, char **argv) { return loop(argc, argv, reset_, op); }
