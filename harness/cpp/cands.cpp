// Bounded candidate lists, visited sets and bit sets used by every search.
#include "cpp/common.hpp"
#include <memory>
#include <algorithm>
#include "utils/query_utils.hpp"
#include "utils/rabitq_utils/search_utils/buffer.hpp"
#include "utils/rabitq_utils/search_utils/visited_pool.hpp"
#include "utils/rabitq_utils/search_utils/hashset.hpp"
#include "index/graph/vamana/robust_prune.hpp"
#include "index/graph/diskann/visited_bitset.hpp"
#include "index/graph/hnsw/visited_list_pool.hpp"
#include "index/graph/laser/utils/buffer.hpp"
#include "third_party/ngt/hashset.hpp"
using namespace vfh;
using U = uint32_t;

struct List {
  virtual ~List() = default;
  virtual int insert(U, float) = 0;                       // 1/0 as reported, -1 if nothing is reported
  virtual bool has_next() { return false; }
  virtual bool peeks() { return false; }
  virtual U next() { return 0; }
  virtual bool pops() { return true; }
  virtual U pop(double &) = 0;                            // distance left NaN if not reported
  virtual bool lists() { return true; }
  virtual void list(std::vector<U> &, std::vector<float> &) {}
  virtual int full(float) { return -1; }
  virtual bool clear() { return false; }
  virtual bool resize(size_t) { return false; }
  virtual bool evicted(bool &, U &) { return false; }
};
struct Linear : List {
  alaya::LinearPool<float, U> p;
  explicit Linear(int c) : p(1000, c) {}
  int insert(U i, float d) override { return p.insert(i, d); }
  bool has_next() override { return p.has_next(); }
  bool peeks() override { return true; }
  U next() override { return p.next_id(); }
  U pop(double &d) override { float f; auto r = p.pop(f); d = f; return r; }
  void list(std::vector<U> &a, std::vector<float> &b) override { for (U k = 0; k < p.size(); ++k) { a.push_back(p.id(k)); b.push_back(p.dist(k)); } }
};
static constexpr U kLow = 0x7fffffffU;
struct Buffer : List {
  alaya::SearchBuffer<float> p;
  explicit Buffer(int c) : p(c) {}
  int insert(U i, float d) override { return p.insert(i, d); }
  bool has_next() override { return p.has_next(); }
  bool peeks() override { return true; }
  U next() override { return p.next_id(); }
  U pop(double &) override { return p.pop(); }
  void list(std::vector<U> &a, std::vector<float> &b) override {
    a.resize(p.size());
    p.copy_results_to(a.data());
    for (auto &x : a) x &= kLow;
    for (size_t k = 0; k < p.size(); ++k) b.push_back(p.data()[k].distance_);
  }
  int full(float d) override { return p.is_full(d); }
  bool clear() override { p.clear(); return true; }
  bool resize(size_t n) override { p.resize(n); return true; }
};
struct LaserBuffer : List {
  alaya::laser::buffer::SearchBuffer p;
  explicit LaserBuffer(int c) : p(c) {}
  int insert(U i, float d) override { if (p.is_full(d)) return 0; p.insert(i, d); return -1; }
  bool has_next() override { return p.has_next(); }
  bool peeks() override { return true; }
  U next() override { return p.next_id(); }
  U pop(double &) override { return p.pop(); }
  bool lists() override { return false; }
  int full(float d) override { return p.is_full(d); }
  bool clear() override { p.clear(); return true; }
  bool resize(size_t n) override { p.clear(); p.resize(n); return true; }
};
struct LaserResult : List {
  alaya::laser::buffer::ResultBuffer p;
  size_t n = 0, cap;
  explicit LaserResult(int c) : p(c), cap(c) {}
  int insert(U i, float d) override { p.insert(i, d); ++n; return -1; }
  bool pops() override { return false; }
  U pop(double &) override { return 0; }
  void list(std::vector<U> &a, std::vector<float> &) override {
    std::vector<U> all(cap);
    p.copy_results(all.data());
    for (size_t k = 0; k < std::min(n, cap); ++k) a.push_back(all[k]);
  }
};
struct Npq : List {
  alaya::vamana::NeighborPriorityQueue p;
  alaya::vamana::NeighborQueueInsertResult last;
  explicit Npq(int c) : p(c) {}
  int insert(U i, float d) override { last = p.insert_with_result({i, d}); return last.inserted; }
  bool evicted(bool &e, U &i) override { e = last.evicted; i = last.evicted_id; return true; }
  bool has_next() override { return p.has_unexpanded_node(); }
  U pop(double &d) override { auto n = p.closest_unexpanded(); d = n.distance; return n.id; }
  void list(std::vector<U> &a, std::vector<float> &b) override { for (size_t k = 0; k < p.size(); ++k) { a.push_back(p[k].id); b.push_back(p[k].distance); } }
  bool clear() override { p.clear(); return true; }
  bool resize(size_t n) override { p.clear(); p.reserve(n); return true; }
};
static std::unique_ptr<List> L;

struct Set {
  virtual ~Set() = default;
  virtual void set(U) = 0;
  virtual bool get(U) = 0;
  virtual int tas(U) { return -1; }
  virtual bool reset(U) { return false; }
  virtual bool clear() { return false; }
  virtual bool set_all() { return false; }
  virtual bool resize(size_t) { return false; }
  virtual bool first(long &) { return false; }
};
struct Dyn : Set {
  alaya::DynamicBitset s;
  explicit Dyn(size_t n) : s(n) {}
  void set(U i) override { s.set(i); }
  bool get(U i) override { return s.get(i); }
  bool reset(U i) override { s.reset(i); return true; }
  bool clear() override { s.clear(); return true; }
  bool set_all() override { s.set_all(); return true; }
};
template <class T> struct Epoch : Set {
  alaya::EpochVisitedSet<T> s;
  explicit Epoch(size_t n) : s(n) {}
  void set(U i) override { s.set(i); }
  bool get(U i) override { return s.get(i); }
  bool clear() override { s.clear(); return true; }
  bool resize(size_t n) override { s.resize(n); return true; }
};
struct Sparse : Set {
  alaya::SparseBitset s;
  void set(U i) override { s.set(i); }
  bool get(U i) override { return s.get(i); }
  bool reset(U i) override { s.reset(i); return true; }
};
struct Hier : Set {
  alaya::HierarchicalBitset s;
  explicit Hier(size_t n) : s(n) {}
  void set(U i) override { s.set(i); }
  bool get(U i) override { return s.get(i); }
  bool first(long &r) override { r = s.find_first_set(); return true; }
};
struct Vis : Set {
  alaya::diskann::VisitedBitset s;
  explicit Vis(size_t n) { s.resize(n); }
  void set(U i) override { s.set(i); }
  bool get(U i) override { return s.test(i); }
  int tas(U i) override { return s.test_and_set(i); }
  bool clear() override { s.clear(); return true; }
  bool resize(size_t n) override { s.resize(n); return true; }
};
template <class H> struct Hash : Set {
  H s;
  explicit Hash(size_t n) : s(n) {}
  void set(U i) override { s.set(i); }
  bool get(U i) override { return s.get(i); }
  bool clear() override { s.clear(); return true; }
};
// Pools: acquired objects, numbered by first appearance.
struct Pool {
  virtual ~Pool() = default;
  virtual void *acquire() = 0;
  virtual void release(void *) = 0;
  virtual void set(void *, U) = 0;
  virtual bool get(void *, U) = 0;
};
struct HPool : Pool {
  alaya::HashSetPool p;
  HPool(int k, size_t n) : p(k, n) {}
  void *acquire() override { return p.acquire(); }
  void release(void *x) override { p.release((alaya::HashBasedBooleanSet *)x); }
  void set(void *x, U i) override { ((alaya::HashBasedBooleanSet *)x)->set(i); }
  bool get(void *x, U i) override { return ((alaya::HashBasedBooleanSet *)x)->get(i); }
};
template <class T> struct EPool : Pool {
  alaya::EpochVisitedPool<T> p;
  EPool(int k, size_t n) : p(k, n) {}
  void *acquire() override { return p.acquire(); }
  void release(void *x) override { p.release((alaya::EpochVisitedSet<T> *)x); }
  void set(void *x, U i) override { ((alaya::EpochVisitedSet<T> *)x)->set(i); }
  bool get(void *x, U i) override { return ((alaya::EpochVisitedSet<T> *)x)->get(i); }
};
struct VPool : Pool {
  alaya::VisitedListPool p;
  VPool(int k, size_t n) : p(k, int(n)) {}
  void *acquire() override { return p.get_free_visited_list(); }
  void release(void *x) override { p.release_visited_list((alaya::VisitedList *)x); }
  void set(void *x, U i) override { auto *v = (alaya::VisitedList *)x; v->mass_[i] = v->cur_v_; }
  bool get(void *x, U i) override { auto *v = (alaya::VisitedList *)x; return v->mass_[i] == v->cur_v_; }
};
static std::unique_ptr<Set> S;
static std::unique_ptr<Pool> P;
static size_t n;
static bool bounded;                                       // out of range positions are refused
static std::vector<void *> objs;                           // numbering
static std::vector<int> mine;                              // acquired now
static std::string kind;

static void drop_pool() {
  if (P) for (int k : mine) P->release(objs[k]);
  mine.clear(); objs.clear();
  P.reset();
}
static void reset(const Args &a, const std::string &) {
  L.reset(); S.reset(); drop_pool();
  kind = a[0];
  n = I(a[1]);
  bounded = kind == "vis";
  auto c = int(n);
  std::string fam = "set";
  if (kind == "linear") L = std::make_unique<Linear>(c);
  else if (kind == "buffer") L = std::make_unique<Buffer>(c);
  else if (kind == "laser") L = std::make_unique<LaserBuffer>(c);
  else if (kind == "result") L = std::make_unique<LaserResult>(c);
  else if (kind == "npq") L = std::make_unique<Npq>(c);
  else if (kind == "dyn") S = std::make_unique<Dyn>(n);
  else if (kind == "epoch8") S = std::make_unique<Epoch<uint8_t>>(n);
  else if (kind == "epoch16") S = std::make_unique<Epoch<uint16_t>>(n);
  else if (kind == "epoch32") S = std::make_unique<Epoch<uint32_t>>(n);
  else if (kind == "sparse") S = std::make_unique<Sparse>();
  else if (kind == "hier") S = std::make_unique<Hier>(n);
  else if (kind == "vis") S = std::make_unique<Vis>(n);
  else if (kind == "hash") S = std::make_unique<Hash<alaya::HashBasedBooleanSet>>(n);
  else if (kind == "lhash") S = std::make_unique<Hash<alaya::laser::HashBasedBooleanSet>>(n);
  else if (kind == "hpool") P = std::make_unique<HPool>(1, n);
  else if (kind == "epool8") P = std::make_unique<EPool<uint8_t>>(2, n);
  else if (kind == "epool32") P = std::make_unique<EPool<uint32_t>>(1, n);
  else if (kind == "vpool") P = std::make_unique<VPool>(1, n);
  else throw std::runtime_error("kind");
  if (L) fam = "list";
  if (P) fam = "pool";
  out(Ev("reset").str("fam", fam).str("kind", kind).num("n", n).b("bounded", bounded));
}
static void list_op(const Args &a) {
  const auto &o = a[0];
  if (o == "I") {
    U id = I(a[1]);
    float d = I(a[2]);
    int r = L->insert(id, d);
    bool ev; U who;
    Ev e("insert");
    e.num("id", id).num("d", I(a[2])).str("ret", r < 0 ? "?" : r ? "yes" : "no");
    if (L->evicted(ev, who)) e.str("ev", ev ? "yes" : "no").num("who", ev ? who : 0); else e.str("ev", "?").num("who", 0);
    out(e);
    if (L->lists()) list_op({"?"});
  } else if (o == "P") {
    if (!L->pops()) return out(Ev("skip"));
    if (!L->has_next()) return out(Ev("none"));
    double d = std::nan("");
    if (L->peeks()) out(Ev("peek").num("id", L->next()));
    U id = L->pop(d);
    out(Ev("pop").num("id", id).b("hasd", d == d).raw("d", d == d ? fnum(d) : "0"));
  } else if (o == "?") {
    if (!L->lists()) return out(Ev("skip"));
    std::vector<U> i; std::vector<float> d;
    L->list(i, d);
    std::string s = "[";
    for (auto x : d) s += (s.size() > 1 ? "," : "") + fnum(x);
    out(Ev("list").list("ids", i).b("hasd", kind != "result").raw("ds", s + "]"));
  } else if (o == "F") {
    int r = L->full(I(a[1]));
    if (r < 0) return out(Ev("skip"));
    out(Ev("full").num("d", I(a[1])).b("res", r));
  } else if (o == "X") {
    if (!L->clear()) return out(Ev("skip"));
    out(Ev("clear"));
  } else if (o == "R") {
    if (!L->resize(I(a[1]))) return out(Ev("skip"));
    out(Ev("resize").num("n", I(a[1])));
  } else out(Ev("skip"));
}
static void set_op(const Args &a) {
  const auto &o = a[0];
  if (o == "X") {
    auto t = I(a[1]);
    for (long long k = 0; k < t; ++k) if (!S->clear()) return out(Ev("skip"));
    return out(Ev("clear"));
  }
  if (o == "A") return out(Ev(S->set_all() ? "all" : "skip"));
  if (o == "R") { if (!S->resize(I(a[1]))) return out(Ev("skip")); n = I(a[1]); return out(Ev("resize").num("n", n)); }
  if (o == "1") { long r; if (!S->first(r)) return out(Ev("skip")); return out(Ev("first").num("res", r)); }
  if (o == "?") { std::vector<U> v; for (U k = 0; k < n; ++k) if (S->get(k)) v.push_back(k); return out(Ev("dump").list("ids", v)); }
  U id = I(a[1]);
  bool over = id >= n;
  if (over && !bounded) id %= std::max<size_t>(n, 1);
  if (n == 0 && !bounded) return out(Ev("skip"));
  try {
    if (o == "S") { S->set(id); out(Ev("set").num("id", id).str("res", "ok")); }
    else if (o == "G") { bool r = S->get(id); out(Ev("get").num("id", id).str("res", r ? "yes" : "no")); }
    else if (o == "T") { int r = S->tas(id); if (r < 0) out(Ev("skip")); else out(Ev("tas").num("id", id).str("res", r ? "yes" : "no")); }
    else if (o == "U") { if (S->reset(id)) out(Ev("unset").num("id", id)); else out(Ev("skip")); }
    else out(Ev("skip"));
  } catch (const std::exception &) { out(Ev(o == "S" ? "set" : o == "G" ? "get" : "tas").num("id", id).str("res", "error")); }
}
static void pool_op(const Args &a) {
  const auto &o = a[0];
  if (o == "A") {
    if (mine.size() >= 5) return out(Ev("skip"));
    void *p = P->acquire();
    auto it = std::find(objs.begin(), objs.end(), p);
    int k = int(it - objs.begin());
    if (it == objs.end()) objs.push_back(p);
    bool dup = std::find(mine.begin(), mine.end(), k) != mine.end();
    if (!dup) mine.push_back(k);
    return out(Ev("acquire").num("obj", k));
  }
  if (o == "C") {                                          // take and give back many times: the marks wear out
    auto t = I(a[1]);
    for (long long k = 0; k < t; ++k) { void *p = P->acquire(); if (k % 97 == 0) P->set(p, U(k % n)); P->release(p); }
    return out(Ev("skip"));
  }
  if (mine.empty()) return out(Ev("skip"));
  auto w = I(a[1]) % mine.size();
  int k = mine[w];
  if (o == "R") { P->release(objs[k]); mine.erase(mine.begin() + w); return out(Ev("release").num("obj", k)); }
  if (o == "?") { std::vector<U> v; for (U i = 0; i < n; ++i) if (P->get(objs[k], i)) v.push_back(i); return out(Ev("odump").num("obj", k).list("ids", v)); }
  U id = U(I(a[2]) % n);
  if (o == "S") { P->set(objs[k], id); return out(Ev("oset").num("obj", k).num("id", id)); }
  if (o == "G") { bool r = P->get(objs[k], id); return out(Ev("oget").num("obj", k).num("id", id).b("res", r)); }
  out(Ev("skip"));
}
int main(int argc, char **argv) {
  return loop(argc, argv, reset, [](const Args &a) { if (L) list_op(a); else if (S) set_op(a); else pool_op(a); }, [] { L.reset(); S.reset(); drop_pool(); });
}
