// Vector stores: raw, 8-bit and 4-bit quantised spaces, with and without scalar records, and the slot array below them.
#include "cpp/common.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include <memory>
using namespace vfh;
using namespace alaya;
static std::string dir, kind;
static size_t cap, dim;
static MetricType metric;
static int nth;
static auto cfg() -> RocksDBConfig {
  auto c = RocksDBConfig::default_config();
  c.db_path_ = dir + "/scalar";
  c.block_cache_size_mb_ = 8;
  return c;
}
static auto vec(const std::string &a) { return ints(a); }
struct Base {
  virtual ~Base() = default;
  virtual void fit(const std::vector<std::vector<long long>> &, const std::vector<std::string> &) = 0;
  virtual auto insert(const std::vector<long long> &, const std::string &) -> long long = 0;
  virtual auto remove(long long) -> long long = 0;
  virtual auto remove_item(const std::string &) -> long long = 0;
  virtual auto num() -> long long = 0;
  virtual auto avl() -> long long { return -1; }
  virtual auto capacity() -> long long = 0;
  virtual auto stored(long long) -> std::string = 0;
  virtual auto item(long long) -> std::string = 0;
  virtual auto dist(const std::vector<long long> &, long long) -> std::string = 0;
  virtual auto dist_ids(long long, long long, bool) -> std::string = 0;
  virtual void save(const std::string &) = 0;
  virtual void load(const std::string &) = 0;
};
static std::unique_ptr<Base> st;
static auto joined(const auto *p, size_t n) -> std::string {
  std::string o = "[";
  for (size_t i = 0; i < n; ++i) o += (i ? "," : "") + fnum(double(p[i]));
  return o + "]";
}
template <class S, class T, bool Quant, bool Scalar>
struct Box : Base {
  std::unique_ptr<S> s;
  explicit Box(bool fresh) { s = fresh ? std::make_unique<S>(cap, dim, metric, cfg()) : std::make_unique<S>(); }
  auto row(const std::vector<long long> &v) -> std::vector<T> { return std::vector<T>(v.begin(), v.end()); }
  void fit(const std::vector<std::vector<long long>> &vs, const std::vector<std::string> &items) override {
    std::vector<T> d;
    for (auto &v : vs) for (auto x : v) d.push_back(T(x));
    if constexpr (Scalar) {
      std::vector<ScalarData> sc;
      for (auto &i : items) sc.emplace_back(i == "-" ? "" : i, "d" + i, MetadataMap{});
      s->fit(d.data(), vs.size(), sc.data());
    } else s->fit(d.data(), vs.size());
  }
  auto insert(const std::vector<long long> &v, const std::string &item) -> long long override {
    auto d = row(v);
    uint32_t r;
    if constexpr (Scalar) { ScalarData sc(item == "-" ? "" : item, "d" + item, {}); r = s->insert(d.data(), &sc); }
    else r = s->insert(d.data());
    return r == uint32_t(-1) ? -1 : (long long)r;
  }
  auto remove(long long i) -> long long override { auto r = s->remove(uint32_t(i)); return r == uint32_t(-1) ? -1 : (long long)r; }
  auto remove_item(const std::string &i) -> long long override {
    if constexpr (Scalar) { auto r = s->remove(i); return r == uint32_t(-1) ? -1 : (long long)r; }
    else return -9;
  }
  auto num() -> long long override { return s->get_data_num(); }
  auto avl() -> long long override { if constexpr (!Quant) return s->get_avl_data_num(); else return -1; }
  auto capacity() -> long long override { return s->get_capacity(); }
  auto stored(long long i) -> std::string override { return Quant ? joined(s->get_data_by_id(i), s->get_data_size()) : joined(s->get_data_by_id(i), dim); }
  auto item(long long i) -> std::string override { if constexpr (Scalar) { auto d = s->get_scalar_data(uint32_t(i)); return d.document == "d" + (d.item_id.empty() ? "-" : d.item_id) ? (d.item_id.empty() ? "-" : d.item_id) : "?" + d.document; } else return "-"; }
  auto dist(const std::vector<long long> &q, long long i) -> std::string override {
    auto d = row(q);
    auto c = s->get_query_computer(d.data());
    double x = c(uint32_t(i));
    return x >= 3e38 ? "\"max\"" : fnum(x);
  }
  auto dist_ids(long long i, long long j, bool qc) -> std::string override {
    double x;
    if (qc) { auto c = s->get_query_computer(uint32_t(i)); x = c(uint32_t(j)); } else x = s->get_distance(i, j);
    return x >= 3e38 ? "\"max\"" : fnum(x);
  }
  void save(const std::string &p) override { s->save(p); s->close_db(); }
  void load(const std::string &p) override { s->load(p); s->set_metric_function(); }
};
// the slot array on its own
struct Slots : Base {
  std::unique_ptr<SequentialStorage<float, uint32_t>> s = std::make_unique<SequentialStorage<float, uint32_t>>();
  explicit Slots(bool fresh) { if (fresh) s->init(dim * sizeof(float), cap); }
  static auto id(uint32_t r) -> long long { return r == uint32_t(-1) ? -1 : (long long)r; }
  void fit(const std::vector<std::vector<long long>> &vs, const std::vector<std::string> &) override { for (auto &v : vs) insert(v, "-"); }
  auto insert(const std::vector<long long> &v, const std::string &) -> long long override {
    std::vector<float> f(v.begin(), v.end());
    if (v[0] % 2 == 0) return id(s->insert(f.data()));
    auto i = id(s->reserve());
    if (i >= 0) std::memcpy((*s)[uint32_t(i)], f.data(), dim * sizeof(float));
    return i;
  }
  auto remove(long long i) -> long long override { return id(s->remove(uint32_t(i))); }
  auto remove_item(const std::string &) -> long long override { return -9; }
  auto update(long long i, const std::vector<long long> &v) -> long long { std::vector<float> f(v.begin(), v.end()); return id(s->update(uint32_t(i), f.data())); }
  auto num() -> long long override { return s->pos_; }
  auto avl() -> long long override { long long n = 0; for (size_t i = 0; i < cap; ++i) n += s->is_valid(i); return n; }
  auto capacity() -> long long override { return s->capacity_; }
  auto stored(long long i) -> std::string override { return joined((*s)[uint32_t(i)], dim); }
  auto item(long long) -> std::string override { return "-"; }
  auto dist(const std::vector<long long> &, long long) -> std::string override { return "0"; }
  auto dist_ids(long long, long long, bool) -> std::string override { return "0"; }
  void save(const std::string &p) override { std::ofstream o(p, std::ios::binary); s->save(o); }
  void load(const std::string &p) override { std::ifstream i(p, std::ios::binary); s->load(i); }
};
template <class D> using RawN = RawSpace<D, float, uint32_t, SequentialStorage<D, uint32_t>, EmptyScalarData>;
template <class D> using RawS = RawSpace<D, float, uint32_t, SequentialStorage<D, uint32_t>, ScalarData>;
static auto make(bool fresh) -> std::unique_ptr<Base> {
  if (kind == "raw") return std::make_unique<Box<RawN<float>, float, false, false>>(fresh);
  if (kind == "raws") return std::make_unique<Box<RawS<float>, float, false, true>>(fresh);
  if (kind == "rawd") return std::make_unique<Box<RawN<double>, double, false, false>>(fresh);
  if (kind == "raw8") return std::make_unique<Box<RawN<int8_t>, int8_t, false, false>>(fresh);
  if (kind == "sq8") return std::make_unique<Box<SQ8Space<float, float, uint32_t>, float, true, false>>(fresh);
  if (kind == "sq8s") return std::make_unique<Box<SQ8Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>, float, true, true>>(fresh);
  if (kind == "sq4") return std::make_unique<Box<SQ4Space<float, float, uint32_t>, float, true, false>>(fresh);
  if (kind == "sq4s") return std::make_unique<Box<SQ4Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>, float, true, true>>(fresh);
  return std::make_unique<Slots>(fresh);
}
template <class F> static auto guarded(F f) -> long long { try { return f(); } catch (const std::exception &) { return -3; } }
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &a, const std::string &d) {
      st.reset();
      dir = d; kind = a[0]; cap = I(a[1]); dim = I(a[2]); nth = 0;
      metric = a[3] == "ip" ? MetricType::IP : MetricType::L2;
      st = make(true);
      out(Ev("reset").str("kind", kind).num("cap", cap).num("dim", dim).str("metric", a[3]));
    },
    [](const Args &a) {
      if (a[0] == "F") {   // F v/item v/item ...
        std::vector<std::vector<long long>> vs;
        std::vector<std::string> items;
        std::string o = "[", p = "[";
        for (size_t k = 1; k < a.size(); ++k) {
          auto s = a[k].find('/');
          vs.push_back(vec(a[k].substr(0, s)));
          items.push_back(a[k].substr(s + 1));
          o += (k > 1 ? "," : "") + joined(vs.back().data(), vs.back().size());
          p += (k > 1 ? "," : "") + std::string("\"") + items.back() + "\"";
        }
        auto r = guarded([&] { st->fit(vs, items); return 1LL; });
        out(Ev("fit").raw("vs", o + "]").raw("items", p + "]").num("res", r));
      } else if (a[0] == "I") {
        auto v = vec(a[1]);
        out(Ev("insert").raw("v", joined(v.data(), v.size())).str("item", a[2]).num("res", guarded([&] { return st->insert(v, a[2]); })));
      } else if (a[0] == "U") {
        auto v = vec(a[2]);
        auto *s = dynamic_cast<Slots *>(st.get());
        if (s == nullptr) { out(Ev("skip")); return; }
        out(Ev("update").num("id", I(a[1])).raw("v", joined(v.data(), v.size())).num("res", s->update(I(a[1]), v)));
      } else if (a[0] == "D") out(Ev("remove").num("id", I(a[1])).num("res", guarded([&] { return st->remove(I(a[1])); })));
      else if (a[0] == "X") { if (kind.back() != 's') { out(Ev("skip")); return; } out(Ev("removeitem").str("item", a[1]).num("res", guarded([&] { return st->remove_item(a[1]); }))); }
      else if (a[0] == "L") {
        auto p = dir + "/s" + std::to_string(++nth);
        st->save(p);
        st = make(false);
        st->load(p);
        out(Ev("reload"));
      } else if (a[0] == "?") {
        std::string o = "[", p = "[";
        auto n = st->num();
        for (long long i = 0; i < n && i < (long long)cap; ++i) {
          o += (i ? "," : "") + st->stored(i);
          p += (i ? "," : "") + std::string("\"") + (kind.back() == 's' ? st->item(i) : "-") + "\"";
        }
        out(Ev("state").num("num", n).num("avl", st->avl()).num("cap", st->capacity()).raw("slots", o + "]").raw("items", p + "]"));
      } else if (a[0] == "Q") {
        auto q = vec(a[1]);
        std::string o = "[";
        for (long long i = 0; i < st->num() && i < (long long)cap; ++i) o += (i ? "," : "") + st->dist(q, i);
        out(Ev("dists").raw("q", joined(q.data(), q.size())).raw("d", o + "]"));
      } else if (a[0] == "G") {
        auto i = I(a[1]), j = I(a[2]);
        if (i >= st->num() || j >= st->num()) { out(Ev("skip")); return; }
        out(Ev("pair").num("i", i).num("j", j).raw("d", st->dist_ids(i, j, false)).raw("c", st->dist_ids(i, j, true)));
      }
    }, [] { st.reset(); });
}
