// Graph builders: the Vamana builder, pruning, sharding, merging, graph files, the build entry point and the HNSW builder.
#include "cpp/common.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "space/raw_space.hpp"
#include <random>
using namespace vfh;
namespace va = alaya::vamana;
namespace fs = std::filesystem;
static uint32_t dim, n;
static std::vector<float> xs;
static std::string dir;
static std::vector<std::string> idmaps;
static std::vector<std::vector<uint32_t>> ids;
template <class T> static auto js(const std::vector<T> &v) -> std::string {
  std::string o = "[";
  for (auto x : v) { o += o.size() > 1 ? "," : ""; o += std::to_string((long long)x); }
  return o + "]";
}
template <class T> static auto jss(const std::vector<std::vector<T>> &v) -> std::string {
  std::string o = "[";
  for (auto &x : v) { o += o.size() > 1 ? "," : ""; o += js(x); }
  return o + "]";
}
static void put(const std::string &p, const std::vector<float> &v, uint32_t rows) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write((char *)&rows, 4); o.write((char *)&dim, 4); o.write((char *)v.data(), v.size() * 4);
}
struct Raw { uint64_t size = 0, frozen = 0, actual = 0; uint32_t deg = 0, start = 0; std::vector<std::vector<uint32_t>> g; bool whole = false; };
static auto parse(const std::string &p) -> Raw {
  Raw r;
  std::ifstream in(p, std::ios::binary);
  std::string s(std::istreambuf_iterator<char>(in), {});
  r.actual = s.size();
  if (s.size() < 24) return r;
  std::memcpy(&r.size, s.data(), 8); std::memcpy(&r.deg, s.data() + 8, 4); std::memcpy(&r.start, s.data() + 12, 4); std::memcpy(&r.frozen, s.data() + 16, 8);
  size_t at = 24;
  while (at + 4 <= s.size()) {
    uint32_t k; std::memcpy(&k, s.data() + at, 4); at += 4;
    if (at + 4ull * k > s.size()) return r;
    std::vector<uint32_t> a(k); std::memcpy(a.data(), s.data() + at, 4ull * k); at += 4ull * k;
    r.g.push_back(a);
  }
  r.whole = at == s.size() && r.size == s.size();
  return r;
}
static auto u32s(const std::string &p, uint32_t &rows, uint32_t &stride) -> std::vector<uint32_t> {
  std::ifstream in(p, std::ios::binary);
  rows = stride = 0;
  in.read((char *)&rows, 4); in.read((char *)&stride, 4);
  std::vector<uint32_t> v;
  for (uint32_t x; in.read((char *)&x, 4);) v.push_back(x);
  return v;
}
static auto graph(Ev &e, const Raw &r) -> Ev & { return e.b("whole", r.whole).num("deg", r.deg).num("start", r.start).num("frozen", r.frozen).raw("g", jss(r.g)); }
static auto params(const Args &a) { va::VamanaBuildParams p; p.R = I(a[1]); p.L = I(a[2]); p.alpha = float(I(a[3])) / 10.F; p.num_threads = I(a[4]); return p; }
static void reset(const Args &a, const std::string &d) {
  dir = d; idmaps.clear(); ids.clear();
  dim = I(a[1]); n = I(a[2]);
  xs = floats(a[3]);
  put(dir + "/x.fbin", xs, n);
  std::vector<long long> c(xs.begin(), xs.end());
  out(Ev("reset").num("n", n).num("dim", dim).list("x", c));
}
// a pseudo-random list of neighbours out of m nodes: possibly itself, repetitions, none
static auto wild(std::mt19937 &g, uint32_t m, uint32_t cap, bool tame, uint32_t me) {
  std::vector<uint32_t> v;
  uint32_t k = g() % (cap + 1);
  if (tame && k == 0) k = 1;
  for (uint32_t j = 0; j < k; ++j) {
    uint32_t x = g() % m;
    if (tame && (x == me || std::find(v.begin(), v.end(), x) != v.end())) continue;
    v.push_back(x);
  }
  if (tame && v.empty() && m > 1) v.push_back((me + 1) % m);
  return v;
}
static void op(const Args &a) {
  const auto &o = a[0];
  if (o == "B") {
    va::VamanaBuilder b(xs.data(), n, dim, params(a));
    b.build();
    out(Ev("build").num("R", I(a[1])).num("start", b.medoid()).raw("g", jss(b.graph())));
  } else if (o == "G") {                                   // a larger set; only the shape is judged
    uint32_t N = I(a[5]), range = I(a[6]);
    std::mt19937 g(I(a[7]));
    std::vector<float> v(size_t(N) * dim);
    for (auto &x : v) x = g() % range;
    va::VamanaBuilder b(v.data(), N, dim, params(a));
    b.build();
    out(Ev("big").num("R", I(a[1])).num("N", N).num("start", b.medoid()).raw("g", jss(b.graph())));
  } else if (o == "H") {
    auto sp = std::make_shared<alaya::RawSpace<>>(n + 2, dim, alaya::MetricType::L2);
    auto v = xs;
    sp->fit(v.data(), n);
    alaya::HNSWBuilder<alaya::RawSpace<>> b(sp, I(a[1]), I(a[2]));
    auto g = b.build_graph(I(a[4]));
    std::vector<std::vector<uint32_t>> low(n);
    std::vector<std::vector<std::vector<uint32_t>>> up(n);
    auto cut = [&](const uint32_t *e) { std::vector<uint32_t> r; for (uint32_t j = 0; j < g->max_nbrs_ && e[j] != uint32_t(-1); ++j) r.push_back(e[j]); return r; };
    std::string ups = "[";
    for (uint32_t k = 0; k < n; ++k) {
      low[k] = cut(g->edges(k));
      for (uint32_t l = 1; l <= g->overlay_graph_->levels_[k]; ++l) up[k].push_back(cut(g->overlay_graph_->edges(l, k)));
      ups += (k ? "," : "") + jss(up[k]);
    }
    out(Ev("hnsw").num("R", I(a[1])).num("start", g->get_ep()).raw("g", jss(low)).raw("up", ups + "]"));
  } else if (o == "P") {
    uint32_t loc = I(a[1]) % n, deg = I(a[2]), maxc = I(a[4]);
    std::vector<va::Neighbor> pool;
    auto d = [&](uint32_t p, uint32_t q) { float s = 0; for (uint32_t k = 0; k < dim; ++k) s += (xs[p * dim + k] - xs[q * dim + k]) * (xs[p * dim + k] - xs[q * dim + k]); return s; };
    std::vector<uint32_t> c, r;
    for (auto x : ints(a[5])) { uint32_t y = x % n; if (std::find(c.begin(), c.end(), y) == c.end()) { c.push_back(y); pool.emplace_back(y, d(loc, y)); } }
    std::vector<float> of;
    va::prune_neighbors(loc, pool, float(I(a[3])) / 10.F, deg, maxc, r, of, d);
    out(Ev("prune").num("loc", loc).num("deg", deg).num("a", I(a[3])).num("maxc", maxc).list("c", c).list("r", r));
  } else if (o == "A") {
    auto cs = floats(a[3]);
    uint32_t nc = cs.size() / dim;
    Ev e("assign");
    e.num("k", I(a[1])).list("cs", cs);
    try {
      auto r = va::shard_data_by_centroids(dir + "/x.fbin", cs.data(), nc, I(a[1]), dir + "/w/s", I(a[2]));
      idmaps = r.idmap_paths;
      ids.clear();
      std::vector<std::vector<uint32_t>> head, vals;
      for (size_t s = 0; s < nc; ++s) {
        uint32_t m, one, rows, w;
        ids.push_back(u32s(r.idmap_paths[s], m, one));
        auto raw = u32s(r.data_paths[s], rows, w);
        std::vector<uint32_t> iv;
        for (auto x : raw) { float f; std::memcpy(&f, &x, 4); iv.push_back(uint32_t(f)); }
        head.push_back({m, one, rows, w, r.counts[s]});
        vals.push_back(iv);
      }
      e.str("res", "ok").raw("ids", jss(ids)).raw("vals", jss(vals)).raw("head", jss(head));
    } catch (const std::exception &x) { e.str("res", "error"); }
    out(e);
  } else if (o == "M") {
    if (ids.empty()) { out(Ev("skip")); return; }
    uint32_t R = I(a[1]), cap = I(a[2]), med = I(a[3]) % n;
    std::mt19937 g(I(a[4]));
    std::vector<std::vector<std::vector<uint32_t>>> loc;
    std::vector<fs::path> gp, ip;
    std::vector<uint32_t> meds;
    std::string ls = "[";
    for (size_t s = 0; s < ids.size(); ++s) {
      if (ids[s].empty()) continue;                          // no graph can be built for a shard without points
      uint32_t m = ids[s].size();
      std::vector<std::vector<uint32_t>> l;
      for (uint32_t k = 0; k < m; ++k) l.push_back(wild(g, m, cap, false, k));
      meds.push_back(g() % m);
      auto p = dir + "/g" + std::to_string(s);
      va::save_graph(l, p, cap, meds.back());
      ls += (gp.empty() ? "" : ",") + ("{\"ids\":" + js(ids[s]) + ",\"g\":" + jss(l) + ",\"med\":" + std::to_string(meds.back()) + "}");
      gp.push_back(p);
      ip.push_back(idmaps[s]);
    }
    va::merge_shards(gp, ip, dir + "/m", R, med, I(a[4]));
    uint32_t rows, one;
    auto mm = u32s(dir + "/m_medoids.bin", rows, one);
    Ev e("merge");
    e.num("R", R).num("med", med).raw("parts", ls + "]").list("meds", mm).num("rows", rows).num("one", one);
    out(graph(e, parse(dir + "/m")));
  } else if (o == "W") {
    uint32_t m = I(a[1]), cap = I(a[2]), start = I(a[3]);
    std::mt19937 g(I(a[4]));
    auto hurt = a[5];
    std::vector<std::vector<uint32_t>> l;
    for (uint32_t k = 0; k < m; ++k) l.push_back(wild(g, m, cap, true, k));
    auto &row = l[m ? g() % m : 0];
    uint32_t me = m ? uint32_t(&row - l.data()) : 0;
    if (hurt == "zero") row.clear();
    else if (hurt == "self") row = {me};
    else if (hurt == "range") row = {uint32_t(m + g() % 3)};
    else if (hurt == "degree") { cap = 1; row = {(me + 1) % m, (me + 2) % m}; }
    else if (hurt == "start") start = m + g() % 2;
    auto p = dir + "/f";
    va::save_graph(l, p, cap, start, hurt == "frozen" ? 1 : 0);
    auto size = fs::file_size(p);
    if (hurt == "cut") fs::resize_file(p, size - 1 - g() % size);
    if (hurt == "longer") { std::ofstream f(p, std::ios::binary | std::ios::app); f << std::string(1 + g() % 9, char(g() % 3)); }
    Ev e("file");
    e.str("hurt", hurt).num("cap", cap).num("from", start).raw("l", jss(l));
    try {
      va::VamanaReader r(p);
      e.str("res", "ok").num("deg", r.max_degree()).num("start", r.start()).num("frozen", r.frozen_pts()).num("count", r.num_nodes()).raw("g", jss(r.graph()));
    } catch (const std::exception &) { e.str("res", "error"); }
    out(e);
  } else if (o == "D") {
    uint32_t R = I(a[1]), L = I(a[2]), pct = I(a[5]), samp = I(a[7]);
    va::BuildVamanaParams p;
    auto in = dir + "/x.fbin", to = dir + "/o/graph";
    fs::create_directories(dir + "/o");
    p.data_path = in; p.output_path = to;
    p.R = R; p.L = L; p.alpha = float(I(a[3])) / 10.F; p.num_threads = I(a[4]); p.seed = I(a[6]);
    p.build_dram_budget_gb = float(va::estimate_ram_usage_gib(n, dim, 4, R) * pct / 100.0);
    p.sampling_rate = samp == 0 ? -1.F : float(samp) / 10.F;
    if (a.size() > 8) p.sampling_rate = float(I(a[8]));
    Ev e("dispatch");
    e.num("R", R).num("L", L).num("a", I(a[3])).num("pct", pct).num("samp", a.size() > 8 ? 10 * I(a[8]) : samp);
    try {
      fs::remove(to);
      va::build_vamana(p);
      e.str("res", "ok").str("why", "");
      graph(e, parse(to));
      std::string rd = "ok";
      try { va::VamanaReader r(to); if (r.graph() != parse(to).g || r.start() != parse(to).start) rd = "differs"; } catch (const std::exception &) { rd = "refused"; }
      e.str("read", rd);
    } catch (const std::exception &x) { e.str("res", "error").str("why", x.what()); }
    out(e);
  } else std::abort();
}
auto main(int argc, char **argv) -> int { spdlog::set_level(spdlog::level::off); return loop(argc, argv, reset, op); }
