// The updatable disk index: build, load, update, search, flush, reopen.  Reports what the library answers; judges nothing.
#include "cpp/common.hpp"
#include "index/graph/diskann/diskann_index.hpp"
#include <atomic>
#include <memory>
#include <random>
#include <thread>
using namespace vfh;
using namespace alaya::diskann;
static std::unique_ptr<DiskANNIndex> ix;
static std::string dir;
static uint64_t dim = 1, R = 1;
static std::unique_ptr<coro::thread_pool> own;
static std::atomic<long long> now{0};
static std::string given = "{}";                                       // what the command was, as the generator wrote it
static void say(Ev e) { e.raw("in", given); out(e); }

// Labels are written as small numbers; from 1000000 on they stand for the largest 64-bit numbers, downwards.
static auto lab(long long x) -> uint64_t { return x >= 1000000 ? ~uint64_t{0} - uint64_t(x - 1000000) : uint64_t(x); }
static auto unlab(uint64_t l) -> long long { return l > (uint64_t{1} << 40) ? (~uint64_t{0} - l < 1000 ? 1000000 + (long long)(~uint64_t{0} - l) : -7) : l > 900000 ? -7 : (long long)l; }
static auto labs(const std::string &a) { std::vector<uint64_t> r; for (auto x : ints(a)) r.push_back(lab(x)); return r; }
static auto u32(const std::string &a) { std::vector<uint32_t> r; for (auto x : ints(a)) r.push_back(uint32_t(x)); return r; }
// A vector is written by its first components; they are repeated up to the dimension.
static void put(const std::string &t, std::vector<float> &v) {
  std::vector<float> c;
  std::stringstream ss(t);
  for (std::string x; std::getline(ss, x, ':');) c.push_back(std::stof(x));
  for (uint64_t j = 0; j < dim; ++j) v.push_back(c[j % c.size()]);
}
static auto vecs(const std::string &a) { std::vector<float> v; if (a == "-") return v; std::stringstream ss(a); for (std::string t; std::getline(ss, t, ',');) put(t, v); return v; }
template <class C> static auto arr(const C &v) -> std::string { std::string o = "["; for (auto x : v) o += (o.size() > 1 ? "," : "") + std::to_string((long long)x); return o + "]"; }

static auto attempt(const std::function<void()> &f) -> std::string {
  try { f(); return "ok"; }
  catch (const std::invalid_argument &) { return "invalid"; }
  catch (const std::out_of_range &) { return "range"; }
  catch (const std::exception &) { return "error"; }
}
static void state(Ev &e) {
  e.num("live", ix->live_count()).num("size", ix->size()).num("top", ix->max_slot_id()).num("tomb", ix->tombstone_count()).num("free", ix->free_slot_count()).num("fires", ix->safety_net_fire_count());
}
static auto rows(const uint64_t *l, const float *d, uint32_t n, uint32_t k) -> std::string {
  std::string o = "[";
  for (uint32_t i = 0; i < n; ++i) o += (i ? ",{\"l\":" : "{\"l\":") + std::to_string(unlab(l[i])) + ",\"d\":" + fnum(d[i]) + "}";
  for (uint32_t i = n; i < k; ++i)                                    // the rest of the row must be padded
    if (l[i] != DiskANNIndex::kNoLabel || d[i] != std::numeric_limits<float>::max()) return "[{\"l\":-9,\"d\":-9}]";
  return o + "]";
}
static auto used(const uint64_t *l, uint32_t k) { uint32_t n = 0; while (n < k && l[n] != DiskANNIndex::kNoLabel) ++n; return n; }
struct Q { std::string kind; uint32_t k; DiskANNSearchParams p; uint32_t threads, pipe; };
static auto query(const Args &a, size_t at) -> Q {                    // kind k L pq rerank rc det threads pipe
  Q q;
  q.kind = a[at]; q.k = uint32_t(I(a[at + 1]));
  q.p.search_list_size = uint32_t(I(a[at + 2])); q.p.use_pq = I(a[at + 3]); q.p.rerank = I(a[at + 4]); q.p.rerank_count = uint32_t(I(a[at + 5])); q.p.deterministic = I(a[at + 6]);
  q.threads = uint32_t(I(a[at + 7])); q.pipe = uint32_t(I(a[at + 8]));
  return q;
}
// The rows of answers to several queries: [[{l,d}...], ...]
static auto ask(const Q &q, const std::vector<float> &v) -> std::string {
  uint32_t n = uint32_t(v.size() / dim);
  std::vector<uint64_t> l(size_t(n) * q.k, 5);
  std::vector<float> d(size_t(n) * q.k, -5.f);
  std::string o = "[";
  if (q.kind == "one")
    for (uint32_t i = 0; i < n; ++i) {
      auto c = ix->search(v.data() + i * dim, q.k, l.data() + i * q.k, d.data() + i * q.k, q.p);
      o += (i ? "," : "") + rows(l.data() + i * q.k, d.data() + i * q.k, c, q.k);
    }
  else {
    if (q.kind == "batch") ix->batch_search(v.data(), n, q.k, l.data(), d.data(), q.threads, q.p);
    else ix->search_pipelined(v.data(), n, q.k, l.data(), d.data(), q.threads, q.pipe, q.p);
    for (uint32_t i = 0; i < n; ++i) o += (i ? "," : "") + rows(l.data() + i * q.k, d.data() + i * q.k, used(l.data() + i * q.k, q.k), q.k);
  }
  return o + "]";
}
static auto pool() -> coro::thread_pool & {
  if (!own) own = std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = 3});
  return *own;
}
// One update; returns result and slots.
static auto update(const Args &a, std::vector<uint32_t> &slots) -> std::string {
  return attempt([&] {
    if (a[0] == "insert") {
      auto v = vecs(a[2]);
      slots.push_back(ix->insert(v.data(), lab(I(a[1]))));
    } else if (a[0] == "binsert") {                                   // batch-size own-pool labels vecs
      auto l = labs(a[3]);
      auto v = vecs(a[4]);
      slots = I(a[2]) ? ix->batch_insert_with_pool(v.data(), l.data(), uint32_t(l.size()), uint32_t(I(a[1])), pool()) : ix->batch_insert(v.data(), l.data(), uint32_t(l.size()), uint32_t(I(a[1])));
    } else if (a[0] == "remove") ix->remove(uint32_t(I(a[1])));
    else if (a[0] == "removel") ix->remove_by_label(lab(I(a[1])));
    else if (a[0] == "bremove") {
      auto s = u32(a[2]);
      if (I(a[1])) ix->batch_remove_with_pool(s.data(), uint32_t(s.size()), pool()); else ix->batch_remove(s.data(), uint32_t(s.size()));
    } else if (a[0] == "bremovel") { auto l = labs(a[1]); ix->batch_remove_by_labels(l.data(), uint32_t(l.size())); }
  });
}
// The records as they are in the file, per slot: neighbours and coordinates.
static void graph() {
  Ev e("graph");
  auto res = attempt([&] { ix->flush(); });
  std::ifstream in(dir + "/ix/diskann.index", std::ios::binary);
  uint64_t len = dim * 4 + 4 + 4 * R, per = std::max<uint64_t>(1, 4096 / len), page = (per * len + 4095) / 4096 * 4096, n = ix->max_slot_id();
  std::string g = "[", v = "[", dl = "[";
  for (uint64_t s = 0; s < n; ++s) {
    std::vector<char> r(len);
    in.seekg(std::streamoff(4096 + s / per * page + s % per * len));
    in.read(r.data(), std::streamsize(len));
    uint32_t k = 0;
    std::memcpy(&k, r.data() + dim * 4, 4);
    std::vector<uint32_t> nb;
    if (!in || k > R) { nb = {999999}; in.clear(); } else { nb.resize(k); std::memcpy(nb.data(), r.data() + dim * 4 + 4, k * 4); }
    for (auto &x : nb) x = std::min<uint32_t>(x, 999999);
    g += (s ? "," : "") + arr(nb);
    auto f = reinterpret_cast<float *>(r.data());
    v += s ? ",[" : "[";
    for (uint64_t j = 0; j < std::min<uint64_t>(dim, 4); ++j) v += (j ? "," : "") + fnum(f[j]);
    bool rep = true;
    for (uint64_t j = 4; j < dim; ++j) rep = rep && f[j] == f[j % 4];
    v += rep ? "]" : ",\"?\"]";
    dl += (s ? "," : "") + std::string(ix->is_deleted(uint32_t(s)) ? "true" : "false");
  }
  e.str("res", res).raw("g", g + "]").raw("v", v + "]").raw("dead", dl + "]").num("medoid", ix->medoid());
  state(e);
  say(e);
}
static void par(const Args &a) {
  // par readers kind k L pq rerank rc det threads pipe queries | update ; update ...
  uint32_t nr = uint32_t(I(a[1]));
  auto q = query(a, 2);
  std::vector<std::string> qs;
  { std::stringstream ss(a[11]); for (std::string t; std::getline(ss, t, ',');) qs.push_back(t); }
  std::vector<Args> ups;
  for (size_t k = 12; k < a.size(); ++k) { if (a[k] == ";") { ups.push_back({}); continue; } if (ups.empty()) ups.push_back({}); ups.back().push_back(a[k]); }
  std::atomic<bool> done{false};
  std::vector<std::string> reads(nr);
  std::string writes;
  std::vector<std::thread> ts;
  auto t0 = now.load();
  vfd::slow = vfa::seed % 3 != 0;
  for (uint32_t r = 0; r < nr; ++r)
    ts.emplace_back([&, r] {
      std::mt19937 g(r + 77);
      for (int n = 0; n < 30 && (n < 2 || !done); ++n) {
        size_t i = g() % qs.size();
        std::vector<float> v;
        put(qs[i], v);
        if (q.kind != "one") put(qs[(i + 1) % qs.size()], v);
        auto s = ++now;
        std::string o, res = attempt([&] { o = ask(q, v); });
        auto e = ++now;
        reads[r] += std::string(reads[r].empty() ? "" : ",") + "{\"q\":" + std::to_string(i + 1) + ",\"s\":" + std::to_string(s - t0) + ",\"e\":" + std::to_string(e - t0) + ",\"res\":\"" + res + "\",\"rows\":" + (res == "ok" ? o : "[]") + "}";
        if (g() % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(g() % 300));
      }
    });
  for (auto &u : ups) {
    std::vector<uint32_t> sl;
    auto s = ++now;
    auto res = update(u, sl);
    auto e = ++now;
    writes += std::string(writes.empty() ? "" : ",") + "{\"s\":" + std::to_string(s - t0) + ",\"e\":" + std::to_string(e - t0) + ",\"res\":\"" + res + "\",\"slots\":" + arr(sl) + "}";
  }
  done = true;
  for (auto &t : ts) t.join();
  vfd::slow = false;
  std::string all;
  for (auto &r : reads) if (!r.empty()) all += (all.empty() ? "" : ",") + r;
  Ev e("par");
  e.raw("writes", "[" + writes + "]").raw("reads", "[" + all + "]");
  state(e);
  say(e);
}
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &a, const std::string &d) {
      dir = d;
      vfd::fail_in = -1; vfd::all = false;
      vfu::seed = vfa::seed = unsigned(I(a[0]));
      ix = std::make_unique<DiskANNIndex>();
      out(Ev("reset").num("seed", I(a[0])));
    },
    [](const Args &all) {
      Args a = all;
      given = "{}";
      if (a.size() > 1 && a.back()[0] == '#') { given = a.back().substr(1); a.pop_back(); }
      const auto &o = a[0];
      if (o == "build") {                                             // dim R L cap pq cache% threads labels vecs
        dim = uint64_t(I(a[1]));
        DiskANNBuildParams p;
        p.R = uint32_t(I(a[2])); p.L = uint32_t(I(a[3])); p.record_capacity = uint32_t(I(a[4])); p.pq_n_chunks = uint32_t(I(a[5]));
        p.cache_ratio = double(I(a[6])) / 100; p.num_threads = uint32_t(I(a[7]));
        R = p.record_capacity ? p.record_capacity : p.R;
        auto l = labs(a[8]);
        auto v = vecs(a[9]);
        auto res = attempt([&] { DiskANNIndex::build(dir + "/ix", v.data(), l.data(), l.size(), dim, p); });
        say(Ev("build").str("res", res).b("dir", std::filesystem::exists(dir + "/ix")));
      } else if (o == "load") {
        DiskANNLoadParams p;
        size_t k = 1;
        auto n = [&] { return uint32_t(I(a[k++])); };
        p.updatable = n(); p.beam_width = n(); p.num_threads = n(); p.nopq_io_depth = n(); p.update_search_l = n(); p.update_rerank = n(); p.update_insert_prune = n();
        p.safety_net_ratio = double(n()) / 100; p.safety_net_ops = n(); p.page_cache_capacity = n(); p.update_insert_threads = n(); p.update_reconnect_threads = n();
        auto io = n();
        p.update_io = io == 0 ? DiskANNUpdateIO::kAuto : io == 1 ? DiskANNUpdateIO::kBlocking : DiskANNUpdateIO::kUring;
        p.update_search_concurrency = n(); p.search_page_cache = n();
        auto res = attempt([&] { ix->load(dir + "/ix", p); });
        Ev e("load");
        e.str("res", res);
        if (res == "ok") { state(e); e.num("dim", ix->dim()).b("upd", ix->updatable()).b("pq", ix->has_pq()); }
        say(e);
      } else if (o == "unload") { ix = std::make_unique<DiskANNIndex>(); out(Ev("unload"));
      } else if (o == "insert" || o == "binsert" || o == "remove" || o == "removel" || o == "bremove" || o == "bremovel") {
        std::vector<uint32_t> sl;
        Ev e(o);
        auto f0 = vfd::failed.load();
        auto res = update(a, sl);
        e.str("res", res).list("slots", sl).b("fault", vfd::failed != f0);
        state(e);
        say(e);
      } else if (o == "updnode" || o == "flush" || o == "flushp") {
        Ev e(o);
        e.str("res", attempt([&] { if (o == "updnode") ix->update_node(uint32_t(I(a[1]))); else if (o == "flush") ix->flush(); else ix->flush_pages(); }));
        state(e);
        say(e);
      } else if (o == "search") {                                     // kind k L pq rerank rc det threads pipe queries
        auto q = query(a, 1);
        auto v = vecs(a[10]);
        std::string r = "[]";
        auto f0 = vfd::failed.load();
        auto res = attempt([&] { r = ask(q, v); });
        say(Ev("search").str("res", res).raw("rows", r).b("fault", vfd::failed != f0));
      } else if (o == "has") {                                        // labels, slots
        std::string l = "[", d = "[";
        for (auto x : ints(a[1])) l += std::string(l.size() > 1 ? "," : "") + (ix->contains_label(lab(x)) ? "true" : "false");
        for (auto x : ints(a[2])) d += std::string(d.size() > 1 ? "," : "") + (ix->is_deleted(uint32_t(x)) ? "true" : "false");
        Ev e("has");
        e.raw("has", l + "]").raw("dead", d + "]");
        state(e);
        say(e);
      } else if (o == "graph") graph();
      else if (o == "par") par(a);
      else if (o == "fault") { vfd::all = I(a[2]); vfd::fail_in = I(a[1]); out(Ev("fault")); }
      else std::abort();
    },
    [] { vfd::fail_in = -1; ix.reset(); own.reset(); });
}
