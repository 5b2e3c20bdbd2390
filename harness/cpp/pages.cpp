// Page layer of the updatable disk index: node records read and written through sharded page caches, and the hot-node cache.
#include "cpp/common.hpp"
#include "index/graph/diskann/disk_page_io.hpp"
#include "index/graph/diskann/node_cache.hpp"
#include <atomic>
#include <memory>
#include <random>
#include <thread>
#include <algorithm>
#include <sys/syscall.h>
#include <unistd.h>
// The device fails the k-th write to the file from now on (0: never).
static std::atomic<int> failing{0};
static bool armed = false;
static bool hurt() { return failing > 0 && failing.fetch_sub(1) == 1; }
extern "C" ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (hurt()) { errno = EIO; return -1; } return syscall(SYS_pwrite64, fd, b, n, o); }
extern "C" ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
extern "C" int ftruncate(int fd, off_t n) noexcept { if (hurt()) { errno = ENOSPC; return -1; } return int(syscall(SYS_ftruncate, fd, n)); }
#define out(...) vfh::out((__VA_ARGS__).b("armed", armed))
using namespace vfh;
using namespace alaya::diskann;
using Ids = std::vector<uint32_t>;
static std::unique_ptr<DiskPageIO> io;
static std::unique_ptr<alaya::UringReactor> reactor;
static std::unique_ptr<coro::thread_pool> pool;
static std::unique_ptr<NodeCache> nc;
static std::string dir, path;
static uint64_t dim;
static uint32_t R, nThreads = 3;
static std::string mode;
struct Handle { char *buf; uint64_t off, ver; bool hit, read; };
static std::map<int, Handle> handles;
static int rfd = -1;

static auto u32(const std::string &a) { Ids r; for (auto x : ints(a)) r.push_back(uint32_t(x)); return r; }
static auto coords(long long b) { std::vector<float> v(dim); for (uint64_t j = 0; j < dim; ++j) v[j] = b == 0 ? 0.f : float(b + (long long)(j)); return v; }
// The number a vector stands for (0: all zero), or -1 if the components do not belong together.
static auto base(const float *c) -> long long {
  float f = c[0];
  if (!(std::isfinite(f) && f == std::floor(f) && std::fabs(f) < 1e7f)) return -1;
  bool seq = true, zero = true;
  for (uint64_t j = 0; j < dim; ++j) { seq = seq && c[j] == f + float(j); zero = zero && c[j] == 0.f; }
  return zero ? 0 : seq ? (long long)f : -1;
}
template <class C> static auto arr(const C &v) -> std::string {
  std::string o = "[";
  for (auto x : v) o += (o.size() > 1 ? "," : "") + std::to_string(uint64_t(x) > 1000000000ull ? -1ll : (long long)x);
  return o + "]";
}
static auto rec(const char *r) -> std::string {
  NodeRecordView v{r, dim};
  auto n = v.n_nbrs();
  if (n > R) return "{\"b\":-2,\"n\":[]}";
  return "{\"b\":" + std::to_string(base(v.coords())) + ",\"n\":" + arr(Ids(v.nbrs(), v.nbrs() + n)) + "}";
}
static auto node(const DiskPageIO::NodeData &d) -> std::string {
  return "{\"b\":" + std::to_string(d.coords.size() == dim ? base(d.coords.data()) : -3) + ",\"n\":" + arr(d.nbrs) + "}";
}
static auto zero(const char *p, size_t n) { return std::all_of(p, p + n, [](char c) { return c == 0; }); }
// All records of a page that are not empty, and whether every unused byte is zero.
static void page(const char *p, uint64_t off, std::string &recs, bool &clean) {
  auto &g = io->geometry();
  uint64_t first = (off - kSectorLen) / g.page_size * g.nodes_per_sector;
  for (uint64_t k = 0; k < g.nodes_per_sector; ++k) {
    auto r = p + k * g.node_len;
    if (zero(r, g.node_len)) continue;
    recs += std::string(recs.empty() ? "" : ",") + "{\"id\":" + std::to_string(first + k) + ",\"r\":" + rec(r) + "}";
    uint32_t n = NodeRecordView{r, dim}.n_nbrs();
    if (n <= R) clean = clean && zero(r + dim * 4 + 4 + uint64_t(n) * 4, g.node_len - dim * 4 - 4 - uint64_t(n) * 4);
  }
  clean = clean && zero(p + g.nodes_per_sector * g.node_len, g.page_size - g.nodes_per_sector * g.node_len);
}
static auto slurp(const std::string &p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static std::string head;
static void file() {
  auto b = slurp(path);
  auto &g = io->geometry();
  std::string recs;
  bool clean = true;
  for (uint64_t o = kSectorLen; o + g.page_size <= b.size(); o += g.page_size) page(b.data() + o, o, recs, clean);
  out(Ev("file").num("size", b.size()).num("known", io->file_size()).raw("recs", "[" + recs + "]").b("clean", clean).b("head", b.substr(0, kSectorLen) == head));
}
static void open(size_t cap) { io = std::make_unique<DiskPageIO>(path, DiskLayoutGeometry::compute(dim, R), cap); io->set_fallback_threads(3); if (reactor) io->set_reactor(reactor.get()); }
static auto abuf(size_t n) { return static_cast<char *>(alaya::laser::memory::align_allocate<kSectorLen>(n)); }
static void drop(int k) {
  auto it = handles.find(k);
  if (it == handles.end()) return;
  alaya::laser::memory::align_free(it->second.buf);
  handles.erase(it);
}
static void closeAll() {
  while (!handles.empty()) drop(handles.begin()->first);
  io.reset();
  if (rfd >= 0) ::close(rfd);
  rfd = -1;
  reactor.reset();
  if (pool) pool->shutdown();
  pool.reset();
  nc.reset();
}
static bool devread(Handle &h) {
  h.read = ::pread(rfd, h.buf, io->geometry().page_size, off_t(h.off)) == ssize_t(io->geometry().page_size);
  return h.read;
}
static auto graph(const std::string &s) {   // "1,2;-;0"
  std::vector<std::vector<uint32_t>> g;
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, ';');) g.push_back(u32(t));
  return g;
}
template <class F> static void guarded(Ev e, F f) {
  std::string o;
  try { o = f(); } catch (const std::exception &) { out(e.str("res", "error")); return; }
  e.str("res", "ok");
  if (!o.empty()) e.raw("out", o);
  out(e);
}
static std::atomic<long long> now;
struct Obs { uint32_t id; long long s, e; std::string r; bool full; };
static auto js(const std::vector<Obs> &v) -> std::string {
  std::string o = "[";
  for (auto &x : v)
    o += std::string(o.size() > 1 ? "," : "") + "{\"id\":" + std::to_string(x.id) + ",\"s\":" + std::to_string(x.s) + ",\"e\":" + std::to_string(x.e) +
         ",\"r\":" + x.r + ",\"full\":" + (x.full ? "true" : "false") + "}";
  return o + "]";
}
// Writers own nodes (id modulo writers); readers use every way of reading that may run beside writers.
static void par(int nw, int nr, int ops, unsigned seed, const Ids &ids, const std::map<uint32_t, std::pair<long long, Ids>> &cur) {
  now = 0;
  std::vector<std::vector<Obs>> wt(nw), rt(nr);
  std::atomic<int> ready{0};
  std::atomic<bool> failed{false};
  std::vector<std::thread> th;
  auto go = [&] { ready++; while (ready < nw + nr) std::this_thread::yield(); };
  for (int t = 0; t < nw; ++t) th.emplace_back([&, t] {
    std::mt19937 g(seed * 31 + t);
    std::map<uint32_t, std::pair<long long, Ids>> mine = cur;
    Ids own;
    for (size_t k = 0; k < ids.size(); ++k) if (int(k) % nw == t) own.push_back(ids[k]);
    go();
    for (int k = 0; k < ops && !own.empty(); ++k) {
      auto id = own[g() % own.size()];
      auto &m = mine[id];
      Ids nb;
      for (uint32_t j = g() % (R + 1); j; --j) nb.push_back(g() % 1000);
      bool whole = g() % 3 != 0 || m.first < 0;
      Obs o{id, ++now, 0, {}, true};
      try {
        if (whole) { m.first = 1 + (long long)(g() % 1000); auto c = coords(m.first); io->write_node(id, c.data(), uint32_t(nb.size()), nb.data()); }
        else io->write_node_neighbors(id, uint32_t(nb.size()), nb.data());
        if (g() % 6 == 0) io->flush_dirty_pages();
        m.second = nb;
      } catch (const std::exception &) { failed = true; break; }
      o.e = ++now;
      o.r = "{\"b\":" + std::to_string(m.first) + ",\"n\":" + arr(m.second) + "}";
      wt[t].push_back(o);
    }
  });
  for (int t = 0; t < nr; ++t) th.emplace_back([&, t] {
    std::mt19937 g(seed * 37 + t);
    auto buf = abuf(io->geometry().page_size);
    go();
    Ids safe;                                             // nodes inside the file from the start
    for (auto &x : cur) if (x.second.first >= 0) safe.push_back(x.first);
    for (int k = 0; k < ops && !safe.empty(); ++k) {
      auto id = safe[g() % safe.size()];
      Obs o{id, ++now, 0, {}, true};
      auto off = io->geometry().get_page_offset(id);
      try {
        switch (g() % 7) {
          case 0: o.r = node(io->read_node(id)); break;
          case 1: { auto c = io->read_coords_cached(id); o.r = "{\"b\":" + std::to_string(base(c.data())) + ",\"n\":[]}"; o.full = false; break; }
          case 2: { auto id2 = safe[g() % safe.size()]; auto r = io->read_nodes_async(Ids{id, id2}, *pool); o.r = node(r[0]);
                    rt[t].push_back({id2, o.s, ++now, node(r[1]), true}); break; }
          case 3: case 4: {
            uint64_t ver = 0;
            if (!io->search_peek_page(off, buf, &ver)) {
              if (::pread(rfd, buf, io->geometry().page_size, off_t(off)) != ssize_t(io->geometry().page_size)) throw std::runtime_error("device");
              if (g() % 2) std::this_thread::yield();
              io->search_fill_page(off, buf, ver);
            }
            o.r = rec(buf + io->geometry().offset_to_node(id));
            break;
          }
          case 5: { Ids b{id}; for (int j = 0; j < 3; ++j) b.push_back(safe[g() % safe.size()]);
                    auto pre = [&]() -> coro::task<> { co_await pool->schedule(); if (b.size() % 2) co_await io->prefetch_coords(b.data(), b.size(), *pool); else co_await io->prefetch_pages(b.data(), b.size(), *pool); };
                    coro::sync_wait(pre());
                    auto c = io->read_coords_cached(id); o.r = "{\"b\":" + std::to_string(base(c.data())) + ",\"n\":[]}"; o.full = false; break; }
          default: if (!io->try_read_cached_page(off, buf)) continue;
                   o.r = rec(buf + io->geometry().offset_to_node(id));
        }
      } catch (const std::exception &) { failed = true; break; }
      o.e = ++now;
      rt[t].push_back(o);
    }
    alaya::laser::memory::align_free(buf);
  });
  for (auto &t : th) t.join();
  std::vector<Obs> w, r;
  for (auto &v : wt) w.insert(w.end(), v.begin(), v.end());
  for (auto &v : rt) r.insert(r.end(), v.begin(), v.end());
  out(Ev("par").raw("writes", js(w)).raw("reads", js(r)).b("failed", failed));
}
static void cop(const Args &a) {                       // hot-node cache
  auto c = a[0];
  if (c == "u" || c == "n") {
    auto nb = u32(a[c == "u" ? 3 : 2]);
    auto id = uint32_t(I(a[1]));
    Ev e(c == "u" ? "upsert" : "cnbrs");
    e.num("id", id).list("n", nb);
    if (c == "u") e.num("b", I(a[2]));
    guarded(e, [&]() -> std::string {
      if (c == "u") { auto v = coords(I(a[2])); nc->upsert_node(id, v.data(), uint32_t(nb.size()), nb.data()); }
      else nc->update_neighbors(id, uint32_t(nb.size()), nb.data());
      return "";
    });
  } else if (c == "q") {
    auto id = uint32_t(I(a[1]));
    auto h = nc->lookup_record(id);
    bool same = (nc->lookup(id) == nullptr) == !h;
    out(Ev("lookup").num("id", id).raw("out", h ? "[" + rec(h.get()) + "]" : "[]").b("same", same));
  } else if (c == "D") { nc->drop_disk_backed_overrides(); out(Ev("drop")); }
  else if (c == "z") out(Ev("csize").num("n", nc->size()).list("hot", nc->ids()).num("len", nc->node_len()));
  else if (c == "S" || c == "X") {
    auto p = dir + "/ids.bin", q = dir + "/nodes.bin";
    nc->save(p, q);
    std::string r = "ok";
    auto fresh = std::make_unique<NodeCache>();
    if (c == "X") {
      auto which = a[1] == "ids" ? p : q;
      auto b = slurp(which);
      b.resize(b.size() ? size_t(I(a[2])) % b.size() : 0);
      std::ofstream(which, std::ios::binary) << b;
    }
    try { fresh->load(p, q); fresh->configure_geometry(dim, R); } catch (const std::exception &) { r = "error"; }
    if (c == "S") nc = std::move(fresh);
    out(Ev(c == "S" ? "creload" : "cdamaged").str("res", r));
  }
}
static std::map<uint32_t, std::pair<long long, Ids>> known;   // what was put into nodes (only to continue from in concurrent runs)
static void op(const Args &a) {
  auto c = a[0];
  if (mode == "cache") return cop(a);
  if (c == "!") {
    armed = true;
    failing = int(I(a[1]));
    op(Args(a.begin() + 2, a.end()));
    failing = 0;
    armed = false;
    return;
  }
  auto &g = io->geometry();
  if (c == "W" || c == "N") {
    auto id = uint32_t(I(a[1]));
    auto nb = u32(a[c == "W" ? 3 : 2]);
    Ev e(c == "W" ? "write" : "wnbrs");
    e.num("id", id).list("n", nb);
    if (c == "W") e.num("b", I(a[2]));
    guarded(e, [&]() -> std::string {
      if (c == "W") { auto v = coords(I(a[2])); io->write_node(id, v.data(), uint32_t(nb.size()), nb.data()); known[id] = {I(a[2]), nb}; }
      else { io->write_node_neighbors(id, uint32_t(nb.size()), nb.data()); known[id] = {known.count(id) ? known[id].first : 0, nb}; }
      return "";
    });
  } else if (c == "r") { auto id = uint32_t(I(a[1])); guarded(Ev("read").num("id", id), [&] { return node(io->read_node(id)); }); }
  else if (c == "c") { auto id = uint32_t(I(a[1])); guarded(Ev("coords").num("id", id), [&] { auto v = io->read_coords_cached(id); return std::to_string(v.size() == dim ? base(v.data()) : -3); }); }
  else if (c == "K") { io->clear_cache(); out(Ev("nop")); }
  else if (c == "B" || c == "Bp" || c == "Ba") {
    auto ids = u32(a[1]);
    guarded(Ev("nbrs").list("ids", ids), [&] {
      std::vector<Ids> v;
      if (c == "B") v = io->read_neighbors_batch(ids.data(), uint32_t(ids.size()));
      else if (c == "Bp") v = io->read_neighbors_batch_parallel(ids.data(), uint32_t(ids.size()), uint32_t(I(a[2])));
      else {
        auto f = [&]() -> coro::task<std::vector<Ids>> { co_await pool->schedule(); co_return co_await io->read_neighbors_batch_async(ids.data(), uint32_t(ids.size()), *pool); };
        v = coro::sync_wait(f());
      }
      std::string o = "[";
      for (auto &x : v) o += (o.size() > 1 ? "," : "") + arr(x);
      return o + "]";
    });
  } else if (c == "A") {
    auto ids = u32(a[1]);
    guarded(Ev("reads").list("ids", ids), [&] {
      auto v = a[2] == "p" ? io->read_nodes_async(ids, *pool) : io->read_nodes_async(ids, uint32_t(I(a[2])));
      std::string o = "[";
      for (auto &x : v) o += (o.size() > 1 ? "," : "") + node(x);
      return o + "]";
    });
  } else if (c == "P" || c == "Pc") {
    auto ids = u32(a[1]);
    guarded(Ev(c == "P" ? "prefetch" : "precoords").list("ids", ids).b("reactor", reactor != nullptr), [&]() -> std::string {
      auto f = [&]() -> coro::task<> { co_await pool->schedule(); if (c == "P") co_await io->prefetch_pages(ids.data(), ids.size(), *pool); else co_await io->prefetch_coords(ids.data(), ids.size(), *pool); };
      coro::sync_wait(f());
      return "";
    });
  } else if (c == "k") {                                 // look into the cache, remember the version
    auto id = uint32_t(I(a[1]));
    auto k = int(I(a[2]));
    drop(k);
    Handle h{abuf(g.page_size), g.get_page_offset(id), 0, false, false};
    h.hit = io->search_peek_page(h.off, h.buf, &h.ver);
    if (!h.hit && I(a[3]) == 1) devread(h);
    Ev e("peek");
    e.num("id", id).b("hit", h.hit);
    std::string recs; bool clean = true;
    if (h.hit) page(h.buf, h.off, recs, clean);
    out(e.raw("recs", "[" + recs + "]").b("clean", clean));
    handles[k] = h;
    if (h.hit) drop(k);
  } else if (c == "d") {
    auto it = handles.find(int(I(a[1])));
    if (it != handles.end()) devread(it->second);
    out(Ev("nop"));
  } else if (c == "l") {
    auto k = int(I(a[1]));
    auto it = handles.find(k);
    if (it == handles.end()) { out(Ev("nop")); return; }
    auto &h = it->second;
    if (!h.read && !devread(h)) { drop(k); out(Ev("nop")); return; }
    auto id = uint64_t((h.off - kSectorLen) / g.page_size * g.nodes_per_sector);
    std::string recs; bool clean = true;
    try { io->search_fill_page(h.off, h.buf, h.ver); } catch (const std::exception &) { drop(k); out(Ev("fill").num("id", id).str("res", "error")); return; }
    page(h.buf, h.off, recs, clean);
    out(Ev("fill").num("id", id).str("res", "ok").raw("recs", "[" + recs + "]").b("clean", clean));
    drop(k);
  } else if (c == "t") {
    auto id = uint32_t(I(a[1]));
    auto b = abuf(g.page_size);
    bool hit = io->try_read_cached_page(g.get_page_offset(id), b);
    std::string recs; bool clean = true;
    if (hit) page(b, g.get_page_offset(id), recs, clean);
    out(Ev("peek").num("id", id).b("hit", hit).raw("recs", "[" + recs + "]").b("clean", clean));
    alaya::laser::memory::align_free(b);
  } else if (c == "F") {
    try { io->flush_dirty_pages(); } catch (const std::exception &) { if (!armed) throw; out(Ev("flush").str("res", "error")); return; }
    file();
  }
  else if (c == "O") {
    while (!handles.empty()) drop(handles.begin()->first);
    io->flush_dirty_pages(); io.reset(); open(size_t(I(a[1]))); out(Ev("nop"));
  }
  else if (c == "H") {                                   // layout file: write, change one header field or the length, read
    auto gr = graph(a[1]);
    auto n = gr.size();
    auto p = dir + "/layout.index";
    std::vector<float> v;
    for (size_t k = 0; k < n; ++k) { auto x = coords((long long)(k) + 1); v.insert(v.end(), x.begin(), x.end()); }
    Ev e("layout");
    std::string nb = "[";
    for (auto &x : gr) nb += (nb.size() > 1 ? "," : "") + arr(x);
    e.raw("graph", nb + "]").num("medoid", I(a[2]));
    try { write_disk_layout(p, v.data(), gr, WriteDiskLayoutParams{n, dim, R, uint32_t(I(a[2]))}); }
    catch (const std::exception &) { out(e.str("written", "error")); return; }
    e.str("written", "ok");
    auto b = slurp(p);
    std::string recs; bool clean = true;
    for (uint64_t o = kSectorLen; o + g.page_size <= b.size(); o += g.page_size) page(b.data() + o, o, recs, clean);
    e.raw("recs", "[" + recs + "]").b("clean", clean).num("len", b.size());
    static const struct { const char *n; size_t o; int w; } fs[] = {{"np", 0, 8}, {"dim", 8, 8}, {"med", 16, 4}, {"deg", 20, 4}, {"nl", 24, 8}, {"nps", 32, 8}, {"tot", 40, 8}};
    auto get = [&](int k) { uint64_t x = 0; std::memcpy(&x, b.data() + fs[k].o, fs[k].w); return x; };
    auto f = int(I(a[3]));
    auto delta = I(a[4]);
    if (f >= 0 && f < 7) { uint64_t x = get(f) + uint64_t(delta); std::memcpy(b.data() + fs[f].o, &x, fs[f].w); }
    if (f == 7) b.resize(size_t(std::max<long long>(0, (long long)(b.size()) + delta)), 'x');
    std::ofstream(p, std::ios::binary) << b;
    std::string fields = "{";
    for (int k = 0; k < 7; ++k) { uint64_t x = b.size() >= 48 ? get(k) : 0; fields += std::string(k ? "," : "") + "\"" + fs[k].n + "\":" + std::to_string(x > 2000000 ? -1ll : (long long)x); }
    e.raw("f", fields + "}").num("size", b.size());
    try {
      auto h = read_disk_layout_header(p);
      uint64_t x[] = {h.num_points, h.dim, h.medoid, h.max_degree, h.node_len, h.nodes_per_sector, h.total_file_size};
      std::string s = "{";
      for (int k = 0; k < 7; ++k) s += std::string(k ? "," : "") + "\"" + fs[k].n + "\":" + std::to_string(x[k] > 2000000 ? -1ll : (long long)x[k]);
      e.str("res", "ok").raw("got", s + "}");
    } catch (const std::exception &) { e.str("res", "error"); }
    out(e);
  } else if (c == "||") {
    auto ids = u32(a[5]);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::map<uint32_t, std::pair<long long, Ids>> cur;
    for (auto id : ids) {
      bool in = g.get_page_offset(id) + g.page_size <= io->file_size();
      cur[id] = known.count(id) ? known[id] : std::pair<long long, Ids>{in ? 0 : -1, {}};
    }
    par(int(I(a[1])), int(I(a[2])), int(I(a[3])), unsigned(I(a[4])), ids, cur);
    for (auto id : ids) { try { auto d = io->read_node(id); known[id] = {base(d.coords.data()), d.nbrs}; } catch (const std::exception &) {} }
    io->clear_cache();
  }
}
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &a, const std::string &d) {
      dir = d;
      mode = a[0];
      dim = uint64_t(I(a[1]));
      R = uint32_t(I(a[2]));
      known.clear();
      auto gr = graph(a[3]);
      auto n = gr.size();
      std::vector<float> v;
      for (size_t k = 0; k < n; ++k) { auto x = coords((long long)(k) + 1); v.insert(v.end(), x.begin(), x.end()); known[uint32_t(k)] = {(long long)(k) + 1, gr[k]}; }
      std::string nb = "[";
      for (auto &x : gr) nb += (nb.size() > 1 ? "," : "") + arr(x);
      nb += "]";
      if (mode == "cache") {
        nc = std::make_unique<NodeCache>();
        nc->generate(gr, v.data(), uint32_t(I(a[4])), n, dim, R, double(I(a[5])) / 100.0);
        out(Ev("reset").str("kind", "cache").num("dim", dim).num("deg", R).raw("graph", nb).num("medoid", I(a[4])).num("ratio", I(a[5])));
        return;
      }
      path = d + "/diskann.index";
      write_disk_layout(path, v.data(), gr, WriteDiskLayoutParams{n, dim, R, 0});
      head = slurp(path).substr(0, kSectorLen);
      vfu::seed = unsigned(I(a[6]));
      vfu::short_every = 0;
      pool = std::make_unique<coro::thread_pool>(coro::thread_pool::options{nThreads, nullptr, nullptr});
      if (a[5] == "1") reactor = std::make_unique<alaya::UringReactor>(unsigned(4));
      open(size_t(I(a[4])));
      rfd = ::open(path.c_str(), O_RDONLY | O_DIRECT);
      out(Ev("reset").str("kind", "pages").num("dim", dim).num("deg", R).raw("graph", nb).num("cap", I(a[4])).b("reactor", a[5] == "1"));
    }, op, closeAll);
}
