// In-memory graphs, their overlay layers and whole indices over vector stores: saving, loading, going on.
#include "cpp/common.hpp"
#include "executor/jobs/graph_search_job.hpp"
#include "executor/jobs/graph_update_job.hpp"
#include "index/graph/graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "index/graph/qg/qg_builder.hpp"
#include "space/rabitq_space.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include "utils/query_utils.hpp"
#include <random>
using namespace vfh;
using namespace alaya;
using G = Graph<float, uint32_t>;
static std::string dir;
static std::map<std::string, std::unique_ptr<G>> gs;
static auto row(const uint32_t *e, uint32_t k) { std::vector<long long> v; for (uint32_t j = 0; j < k; ++j) v.push_back(int32_t(e[j])); return v; }
static auto js(const std::vector<long long> &v) -> std::string {
  std::string o = "[";
  for (auto x : v) { o += o.size() > 1 ? "," : ""; o += std::to_string(x); }
  return o + "]";
}
static auto edges(const std::string &a, uint32_t k, uint32_t nodes) {
  std::vector<uint32_t> v(k, uint32_t(-1));
  uint32_t j = 0;
  for (auto x : ints(a)) if (j < k) v[j++] = x < 0 ? uint32_t(-1) : uint32_t(x) % nodes;
  return v;
}
static auto overlay(const G &g) -> std::string {
  if (!g.overlay_graph_) return "{\"on\":false,\"ep\":0,\"n\":0,\"k\":0,\"lev\":[],\"l\":[]}";
  auto &o = *g.overlay_graph_;
  std::vector<long long> lev(o.levels_.begin(), o.levels_.end());
  std::string l = "[";
  for (uint32_t i = 0; i < o.node_num_; ++i) {
    std::vector<long long> v;
    for (uint32_t j = 0; j < lev[i] * o.max_nbrs_; ++j) v.push_back(int32_t(o.lists_[i][j]));
    l += (i ? "," : "") + js(v);
  }
  return "{\"on\":true,\"ep\":" + std::to_string(o.ep_) + ",\"n\":" + std::to_string(o.node_num_) + ",\"k\":" + std::to_string(o.max_nbrs_) + ",\"lev\":" + js(lev) + ",\"l\":" + l + "]}";
}
// whole indices, reached through their jobs as the Python index does
struct Index {
  virtual ~Index() = default;
  virtual void save(const std::string &) = 0;
  virtual auto add(std::vector<float> &v, uint32_t ef) -> long long = 0;
  virtual void del(uint32_t id) = 0;
  virtual void find(std::vector<float> &q, uint32_t k, uint32_t ef, std::vector<long long> &id, std::vector<std::string> &d) = 0;
  virtual auto size() -> std::vector<long long> = 0;
};
static auto bits(float f) { uint32_t u; std::memcpy(&u, &f, 4); char b[12]; std::snprintf(b, 12, "%08x", u); return std::string(b); }
template <class Search, class Build> struct Hnsw : Index {
  static constexpr bool same = std::is_same_v<Search, Build>;
  std::shared_ptr<Build> build;
  std::shared_ptr<Search> search;
  std::shared_ptr<G> graph;
  std::shared_ptr<GraphSearchJob<Search, Build>> sj;
  std::shared_ptr<GraphUpdateJob<Search, Build>> uj;
  void jobs() { sj = std::make_shared<GraphSearchJob<Search, Build>>(search, graph, std::make_shared<JobContext<uint32_t>>(), build); uj = std::make_shared<GraphUpdateJob<Search, Build>>(sj); }
  Hnsw(std::vector<float> &v, uint32_t n, uint32_t cap, uint32_t dim, MetricType m, uint32_t R, uint32_t ef) {
    auto w = v;
    build = std::make_shared<Build>(cap, dim, m);
    build->fit(w.data(), n);
    if constexpr (same) search = build;
    else { auto u = v; search = std::make_shared<Search>(cap, dim, m); search->fit(u.data(), n); }
    graph = HNSWBuilder<Build>(build, R, ef).build_graph(1);
    jobs();
  }
  explicit Hnsw(const std::string &p) {
    graph = std::make_shared<G>();
    graph->load(p + ".g");
    build = std::make_shared<Build>();
    build->load(p + ".b");
    build->set_metric_function();
    if constexpr (same) search = build;
    else { search = std::make_shared<Search>(); search->load(p + ".s"); search->set_metric_function(); }
    jobs();
  }
  void save(const std::string &p) override { graph->save(p + ".g"); build->save(p + ".b"); if constexpr (!same) search->save(p + ".s"); }
  auto add(std::vector<float> &v, uint32_t ef) -> long long override { return int32_t(uj->insert_and_update(v.data(), ef)); }
  void del(uint32_t id) override { uj->remove(id); }
  void find(std::vector<float> &q, uint32_t k, uint32_t ef, std::vector<long long> &id, std::vector<std::string> &d) override {
    std::vector<uint32_t> r(k, uint32_t(-1));
    std::vector<float> f(k, 0);
    sj->search_solo(q.data(), r.data(), f.data(), k, ef);
    for (uint32_t j = 0; j < k; ++j) { id.push_back(int32_t(r[j])); d.push_back(bits(f[j])); }
  }
  auto size() -> std::vector<long long> override {
    return {search->get_data_num(), search->get_data_size(), search->get_capacity(), search->get_dim(), build->get_data_num(), graph->max_nodes_, graph->max_nbrs_};
  }
};
struct Qg : Index {
  using S = RaBitQSpace<>;
  std::shared_ptr<S> s;
  std::unique_ptr<GraphSearchJob<S>> sj;
  Qg(std::vector<float> &v, uint32_t n, uint32_t cap, uint32_t dim, MetricType m) {
    s = std::make_shared<S>(cap, dim, m);
    s->fit(v.data(), n);
    QGBuilder<S>(s, 1).build_graph();
    sj = std::make_unique<GraphSearchJob<S>>(s, nullptr);
  }
  explicit Qg(const std::string &p) { s = std::make_shared<S>(); s->load(p + ".s"); sj = std::make_unique<GraphSearchJob<S>>(s, nullptr); }
  void save(const std::string &p) override { s->save(p + ".s"); }
  auto add(std::vector<float> &, uint32_t) -> long long override { return -2; }
  void del(uint32_t) override {}
  void find(std::vector<float> &q, uint32_t k, uint32_t ef, std::vector<long long> &id, std::vector<std::string> &d) override {
    std::vector<uint32_t> r(k, uint32_t(-1));
    sj->rabitq_search_solo(q.data(), k, r.data(), ef);
    for (auto x : r) id.push_back(int32_t(x));
  }
  auto size() -> std::vector<long long> override { return {s->get_data_num(), s->get_data_size(), s->get_capacity(), s->get_dim(), s->get_ep()}; }
};
struct Slot { std::unique_ptr<Index> x; std::string kind; uint32_t dim = 0; };
static std::map<std::string, Slot> hs;
static std::map<std::string, std::pair<std::string, uint32_t>> saved;
static auto vec(uint32_t dim, uint32_t n, unsigned seed, uint32_t range) {
  std::mt19937 g(seed);
  std::vector<float> v(size_t(dim) * n);
  for (auto &x : v) x = float(int(g() % (2 * range + 1)) - int(range));
  return v;
}
static void reset(const Args &, const std::string &d) { dir = d; gs.clear(); hs.clear(); saved.clear(); out(Ev("reset")); }
static void op(const Args &a) {
  const auto &o = a[0];
  auto skip = [&] { out(Ev("skip")); };
  if (o == "N") {
    gs[a[1]] = std::make_unique<G>(uint32_t(I(a[2])), uint32_t(I(a[3])));
    out(Ev("new").str("g", a[1]).num("n", I(a[2])).num("k", I(a[3])));
  } else if (o == "I" || o == "U" || o == "R" || o == "E" || o == "O" || o == "S" || o == "?" || o == "Q") {
    if (!gs.count(a[1])) return skip();
    auto &g = *gs[a[1]];
    if (o == "I") {
      auto e = edges(a[2], g.max_nbrs_, g.max_nodes_);
      auto r = g.insert(e.data());
      out(Ev("ins").str("g", a[1]).raw("e", js(row(e.data(), e.size()))).num("res", int32_t(r)));
    } else if (o == "U") {
      auto e = edges(a[3], g.max_nbrs_, g.max_nodes_);
      uint32_t id = I(a[2]) % g.max_nodes_;
      auto r = g.update(id, e.data());
      out(Ev("upd").str("g", a[1]).num("id", id).raw("e", js(row(e.data(), e.size()))).num("res", int32_t(r)));
    } else if (o == "R") {
      uint32_t id = I(a[2]) % g.max_nodes_;
      auto r = g.remove(id);
      out(Ev("rem").str("g", a[1]).num("id", id).num("res", int32_t(r)));
    } else if (o == "E") {
      g.eps_.clear();
      std::vector<long long> v;
      for (auto x : ints(a[2])) { g.eps_.push_back(x % g.max_nodes_); v.push_back(x % g.max_nodes_); }
      out(Ev("eps").str("g", a[1]).list("eps", v));
    } else if (o == "O") {                                   // layers over the nodes, each referring to nodes that reach as high
      std::mt19937 r(I(a[2]));
      auto n = g.max_nodes_, k = g.max_nbrs_;
      auto ov = std::make_unique<G::OverlayGraphType>(n, k);
      uint32_t top = r() % 4, ep = 0;
      for (uint32_t i = 0; i < n; ++i) { uint32_t l = r() % 3 ? 0 : r() % (top + 1); ov->set_level(i, l); if (l > ov->levels_[ep]) ep = i; }
      for (uint32_t i = 0; i < n; ++i) {
        auto l = ov->levels_[i];
        ov->lists_[i].resize(l * k, uint32_t(-1));
        for (uint32_t j = 1; j <= l; ++j) {
          uint32_t c = 0;
          for (uint32_t t = 0; t < n && c < k; ++t) { uint32_t v = r() % n; if (v != i && ov->levels_[v] >= j) ov->at(j, i, c++) = v; }
        }
      }
      ov->ep_ = ep;
      g.overlay_graph_ = std::move(ov);
      out(Ev("over").str("g", a[1]).raw("ov", overlay(g)));
    } else if (o == "S") {
      g.save(dir + "/" + a[2]);
      out(Ev("save").str("g", a[1]).str("f", a[2]));
    } else if (o == "?") {
      std::string rows = "[";
      std::vector<long long> valid;
      for (uint32_t i = 0; i < g.max_nodes_; ++i) { rows += (i ? "," : "") + js(row(g.edges(i), g.max_nbrs_)); valid.push_back(g.data_storage_.is_valid(i)); }
      std::vector<long long> eps(g.eps_.begin(), g.eps_.end());
      out(Ev("dump").str("g", a[1]).num("n", g.max_nodes_).num("k", g.max_nbrs_).raw("rows", rows + "]").list("valid", valid).list("eps", eps).raw("ov", overlay(g)));
    } else {
      // distances: node i lies at the i-th of them
      auto d = ints(a[2]);
      auto dist = [&](uint32_t u) { return float(d[u % d.size()]); };
      LinearPool<float, uint32_t> pool(g.max_nodes_, 1000);
      g.initialize_search(pool, dist);
      std::vector<long long> ids, ds;
      for (size_t j = 0; j < pool.size(); ++j) { ids.push_back(pool.id(j)); ds.push_back((long long)pool.dist(j)); }
      long long ep = g.overlay_graph_ || !g.eps_.empty() ? g.get_ep() : -1;
      out(Ev("start").str("g", a[1]).list("d", d).list("ids", ids).list("at", ds).num("ep", ep));
    }
  } else if (o == "L") {
    if (!std::filesystem::exists(dir + "/" + a[2])) return skip();
    if (a[3] == "fresh" || !gs.count(a[1])) gs[a[1]] = std::make_unique<G>();
    gs[a[1]]->load(dir + "/" + a[2]);
    out(Ev("load").str("g", a[1]).str("f", a[2]));
  } else if (o == "H") {                                     // H h kind n cap dim metric R ef seed range
    uint32_t n = I(a[3]), cap = n + I(a[4]), dim = I(a[5]), R = I(a[7]), ef = I(a[8]);
    auto m = a[6] == "l2" ? MetricType::L2 : a[6] == "ip" ? MetricType::IP : MetricType::COS;
    auto v = vec(dim, n, I(a[9]), I(a[10]));
    std::unique_ptr<Index> x;
    using Raw = RawSpace<>;
    if (a[2] == "raw") x = std::make_unique<Hnsw<Raw, Raw>>(v, n, cap, dim, m, R, ef);
    else if (a[2] == "sq8") x = std::make_unique<Hnsw<SQ8Space<>, Raw>>(v, n, cap, dim, m, R, ef);
    else if (a[2] == "sq4") x = std::make_unique<Hnsw<SQ4Space<>, Raw>>(v, n, cap, dim, m, R, ef);
    else x = std::make_unique<Qg>(v, n, cap, dim, m);
    hs[a[1]] = {std::move(x), a[2], dim};
    out(Ev("index").str("h", a[1]));
  } else if (o == "HL") {
    if (!saved.count(a[2])) return skip();
    auto [kind, dim] = saved[a[2]];
    auto p = dir + "/" + a[2];
    using Raw = RawSpace<>;
    std::unique_ptr<Index> x;
    if (kind == "raw") x = std::make_unique<Hnsw<Raw, Raw>>(p);
    else if (kind == "sq8") x = std::make_unique<Hnsw<SQ8Space<>, Raw>>(p);
    else if (kind == "sq4") x = std::make_unique<Hnsw<SQ4Space<>, Raw>>(p);
    else x = std::make_unique<Qg>(p);
    hs[a[1]] = {std::move(x), kind, dim};
    out(Ev("hload").str("h", a[1]).str("f", a[2]));
  } else {
    if (!hs.count(a[1])) return skip();
    auto &s = hs[a[1]];
    if (o == "HS") { s.x->save(dir + "/" + a[2]); saved[a[2]] = {s.kind, s.dim}; out(Ev("hsave").str("h", a[1]).str("f", a[2])); }
    else if (o == "A") {
      auto v = vec(s.dim, 1, I(a[2]), I(a[3]));
      uint32_t ef = std::max<long long>(I(a[4]), s.kind == "qg" ? 1 : s.x->size()[6]);
      out(Ev("add").str("h", a[1]).str("what", a[2] + " " + a[3] + " " + std::to_string(ef)).num("res", s.x->add(v, ef)));
    } else if (o == "D") {
      if (s.kind == "qg") return skip();
      if (s.x->size()[0] == 0) return skip();
      uint32_t id = I(a[2]) % s.x->size()[0];
      s.x->del(id);
      out(Ev("del").str("h", a[1]).num("id", id));
    } else if (o == "K") {
      auto q = vec(s.dim, 1, I(a[2]), I(a[3]));
      uint32_t k = I(a[4]), ef = std::max<long long>(I(a[5]), k);
      std::vector<long long> id;
      std::vector<std::string> d;
      s.x->find(q, k, ef, id, d);
      std::string ds = "[";
      for (auto &x : d) ds += (ds.size() > 1 ? ",\"" : "\"") + x + "\"";
      out(Ev("find").str("h", a[1]).str("what", a[2] + " " + a[3] + " " + a[4] + " " + a[5]).list("ids", id).raw("ds", ds + "]").list("size", s.x->size()));
    } else std::abort();
  }
}
auto main(int argc, char **argv) -> int { spdlog::set_level(spdlog::level::off); return loop(argc, argv, reset, op); }
