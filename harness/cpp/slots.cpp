// Slot allocator and deletion marks of the updatable disk index.
#include "cpp/common.hpp"
#include "index/graph/diskann/slot_allocator.hpp"
#include <atomic>
#include <memory>
#include <mutex>
#include <random>
#include <thread>
using namespace vfh;
using namespace alaya::diskann;
static std::unique_ptr<SlotAllocator> sa;
static std::unique_ptr<TombstoneBitmap> bm;
static bool slots;
static std::vector<uint32_t> held;
static std::string dir;
static auto marks() -> TombstoneBitmap & { return slots ? sa->tombstone() : *bm; }
static void make(uint32_t n) {
  sa.reset(); bm.reset();
  if (slots) sa = std::make_unique<SlotAllocator>(n); else bm = std::make_unique<TombstoneBitmap>(n);
}
static void fill(uint32_t n) { held.resize(n); for (uint32_t k = 0; k < n; ++k) held[k] = k; }
static void save(const std::string &p) { if (slots) sa->save(p); else bm->save(p); }
static void load(const std::string &p) { if (slots) sa->load(p); else bm->load(p); }
static auto slurp(const std::string &p) { std::ifstream i(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
static constexpr uint64_t kBig = (uint64_t{1} << 32) + 5;
static void state() {
  Ev e(slots ? "state" : "mstate");
  auto &m = marks();
  std::vector<uint64_t> d, s;
  auto cap = m.capacity();
  TombstoneSnapshot sn;
  m.snapshot_into(sn);
  for (uint64_t k = 0; k < cap + 70000; ++k) { if (m.is_deleted(k)) d.push_back(k); if (sn.is_deleted(k)) s.push_back(k); }
  if (slots) e.num("next", sa->next_fresh_id()).num("nfree", sa->free_count()).list("free", sa->free_list()).num("count", sa->tombstone_count());
  else e.num("count", m.count());
  out(e.num("cap", cap).list("marks", d).list("snap", s));
}
struct Op { const char *k; uint32_t id; bool val; long long s, e; };
static std::atomic<long long> now;
static auto js(const std::vector<Op> &v, bool read) -> std::string {
  std::string o = "[";
  for (auto &x : v) {
    o += o.size() > 1 ? "," : "";
    o += std::string("{\"k\":\"") + x.k + "\",\"id\":" + std::to_string(x.id) + ",\"" + (read ? "res" : "val") + "\":" + (x.val ? "true" : "false") +
         ",\"s\":" + std::to_string(x.s) + ",\"e\":" + std::to_string(x.e) + "}";
  }
  return o + "]";
}
static void par(int nw, int nr, int ops, unsigned seed) {
  now = 0;
  std::mutex mu;
  std::vector<Op> writes;                                 // in the order of the lock
  std::vector<std::vector<Op>> wt(nw), rt(nr);
  std::atomic<bool> stop{false};
  std::atomic<int> ready{0};
  std::vector<std::thread> th;
  uint32_t base = slots ? sa->next_fresh_id() : 0;
  static const uint32_t ids[] = {0, 1, 2, 3, 62, 63, 64, 65, 65535, 65536, 65537, 131072, 131073, 200000, 262144, 262145};
  // slots: some held slots are dealt out to the writers
  std::vector<std::vector<uint32_t>> mine(nw);
  if (slots) {
    std::mt19937 g(seed);
    for (int k = 0; k < 6 && !held.empty(); ++k) {
      auto p = g() % held.size();
      mine[k % nw].push_back(held[p]);
      held[p] = held.back();
      held.pop_back();
    }
  }
  auto go = [&] { ready++; while (ready < nw + nr) std::this_thread::yield(); };
  for (int t = 0; t < nw; ++t) th.emplace_back([&, t] {
    std::mt19937 g(seed * 31 + t);
    auto &own = mine[t];
    go();
    for (int k = 0; k < ops; ++k) {
      if (slots) {
        std::lock_guard<std::mutex> lk(mu);
        auto w = g() % 3;
        Op o{};
        o.s = ++now;
        if (w == 0 || own.empty()) { o.k = "alloc"; o.id = sa->alloc(); o.val = true; own.push_back(o.id); }
        else if (w == 1) { o.k = "publish"; o.id = own[g() % own.size()]; o.val = false; sa->publish(o.id); }
        else { auto p = g() % own.size(); o.k = "free"; o.id = own[p]; o.val = true; sa->free(o.id); own.erase(own.begin() + p); }
        o.e = ++now;
        writes.push_back(o);
      } else {
        uint32_t id = ids[(g() % (16 / nw)) * nw + t];     // each mark has one writer
        Op o{};
        o.id = id;
        o.val = g() % 2;
        o.k = o.val ? "set" : "clear";
        o.s = ++now;
        if (o.val) bm->set(id); else bm->clear(id);
        o.e = ++now;
        wt[t].push_back(o);
      }
    }
  });
  for (int t = 0; t < nr; ++t) th.emplace_back([&, t] {
    std::mt19937 g(seed * 37 + t);
    go();
    for (int k = 0; k < ops * 2; ++k) {
      auto one = [&](uint32_t id, auto f) { Op o{"r", id, false, ++now, 0}; o.val = f(id); o.e = ++now; rt[t].push_back(o); };
      uint32_t id = slots ? (g() % 2 ? base + g() % (nw * 4) : g() % (base + 1)) : ids[g() % 16];
      if (k % 8 == 7) {
        TombstoneSnapshot sn;
        long long s = ++now;
        marks().snapshot_into(sn);
        long long e = ++now;
        for (int j = 0; j < 3; ++j) { uint32_t x = slots ? base + j : ids[g() % 16]; rt[t].push_back({"r", x, sn.is_deleted(x), s, e}); }
      } else one(id, [&](uint32_t x) { return marks().is_deleted(x); });
    }
  });
  for (auto &t : th) t.join();
  std::vector<Op> reads;
  for (auto &v : wt) writes.insert(writes.end(), v.begin(), v.end());
  for (auto &v : rt) reads.insert(reads.end(), v.begin(), v.end());
  for (auto &v : mine) held.insert(held.end(), v.begin(), v.end());
  out(Ev("par").raw("writes", js(writes, false)).raw("reads", js(reads, true)));
}
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &a, const std::string &d) {
      dir = d;
      slots = a[0] == "slots";
      auto n = uint32_t(I(a[1]));
      make(n);
      if (slots) fill(n);
      out(Ev("reset").num("n", n));
    },
    [](const Args &a) {
      auto c = a[0];
      if (c == "A") { auto id = sa->alloc(); held.push_back(id); out(Ev("alloc").num("id", id)); }
      else if (c == "P" || c == "F") {
        if (held.empty()) { out(Ev("skip")); return; }
        // small numbers: the slots obtained last
        auto k = I(a[1]);
        size_t p = k < 6 && size_t(k) < held.size() ? held.size() - 1 - size_t(k) : size_t(k) % held.size();
        auto id = held[p];
        if (c == "P") { sa->publish(id); out(Ev("publish").num("id", id)); }
        else { held.erase(held.begin() + long(p)); sa->free(id); out(Ev("free").num("id", id)); }
      } else if (c == "R") {
        auto n = uint32_t(I(a[1]));
        if (slots) { sa->reset(n); fill(n); } else bm->reset(n);
        out(Ev("restart").num("n", n));
      } else if (c == "S" || c == "C" || c == "Q") {
        auto id = I(a[1]);
        bool big = id < 0;
        uint64_t x = big ? kBig : uint64_t(id);
        if (c == "Q") out(Ev("isdel").num("id", id).b("big", big).b("res", slots && !big ? sa->is_deleted(uint32_t(x)) : marks().is_deleted(x)));
        else if (c == "C") { marks().clear(x); out(Ev("clear").num("id", id).b("big", big)); }
        else {
          std::string r = "ok";
          try { marks().set(x); } catch (const std::exception &) { r = "error"; }
          out(Ev("set").num("id", id).b("big", big).str("res", r));
        }
      } else if (c == "L" || c == "X") {
        auto p = dir + "/slots.bin";
        std::string r = "ok";
        save(p);
        if (c == "L") {
          if (a[1] == "fresh") make(3);
          if (a[1] == "used") {                            // what was done after saving is to be forgotten
            if (slots) { for (int k = 0; k < 3; ++k) sa->alloc(); sa->free(0); }
            for (uint64_t id : {1ull, 70003ull, 200001ull, 300001ull}) marks().set(id);
            marks().clear(2);
          }
          try { load(p); } catch (const std::exception &) { r = "error"; }
          out(Ev("reload").str("res", r));
          return;
        }
        auto b = slurp(p);
        auto k = I(a[2]);
        auto was = b;
        if (a[1] == "cut") b.resize(k < 60 ? std::min<size_t>(b.size() - 1, size_t(k)) : b.size() - 1 - std::min<size_t>(b.size() - 1, size_t(k - 60)));
        else if (a[1] == "magic") b[size_t(k) % 8] ^= char(1 << (k % 7));
        else b[24 + sa->free_count() * 4 + size_t(k) % 8] ^= char(1 << (k % 7));   // the marks' own identification
        auto q = dir + "/damaged.bin";
        std::ofstream(q, std::ios::binary) << b;
        try {
          if (slots) { SlotAllocator t; t.load(q); } else { TombstoneBitmap t; t.load(q); }
        } catch (const std::exception &) { r = "error"; }
        out(Ev("damaged").str("res", r));
      } else if (c == "?") state();
      else if (c == "||") par(int(I(a[1])), int(I(a[2])), int(I(a[3])), unsigned(I(a[4])));
    }, [] { sa.reset(); bm.reset(); held.clear(); });
}
