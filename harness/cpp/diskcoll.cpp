// Disk collection: create, open, add, flush, search, close; optionally in a child that is ended at a file operation, or
// with failing file operations.  Labels are reported as their rank in a fixed ascending table.
#include "cpp/common.hpp"
#include "cpp/shimctl.hpp"
#include "index/disk/disk_collection.hpp"
#include <algorithm>
#include <limits>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <atomic>
#include <unistd.h>
#include <thread>
using namespace vfh;
using namespace alaya;
using namespace alaya::disk;
namespace fs = std::filesystem;
static std::unique_ptr<DiskCollection> col;
static fs::path path;
static uint32_t dim;
static MetricType metric;
static DiskIndexType engine;
static size_t cap;
static VamanaSegmentBuildParams vp;
static long *stage;       // shared with children: number of the command being run

static auto label(long long r) -> uint64_t {        // ranks 1..48
  if (r <= 12) return r - 1;
  if (r <= 24) return (1ULL << 32) - 6 + (r - 13);
  if (r <= 36) return (1ULL << 63) - 6 + (r - 25);
  return std::numeric_limits<uint64_t>::max() - (48 - r);
}
static auto rank(uint64_t l) -> long long {
  for (long long r = 1; r <= 48; ++r) if (label(r) == l) return r;
  return -1;
}
static double unit = 1;                            // what 1 in the scripts stands for; a power of two
static auto vec(const std::string &s) -> std::vector<float> {
  std::vector<float> r;
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, ',');)
    r.push_back(t == "n" ? std::nanf("") : t == "i" ? HUGE_VALF : t == "-i" ? -HUGE_VALF : float(std::stof(t) * unit));
  return r;
}
static auto jvec(const std::string &s) -> std::string {
  std::string o = "[", t;
  for (std::stringstream ss(s); std::getline(ss, t, ',');) o += (o.size() > 1 ? "," : "") + (t == "n" ? "1000001" : t == "i" ? "1000002" : t == "-i" ? "1000003" : t);
  return o + "]";
}
static auto rows(const std::string &s) -> std::vector<std::string> {
  std::vector<std::string> r;
  if (s == "-") return r;
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, '/');) r.push_back(t);
  return r;
}
static auto jrows(const std::string &s) -> std::string {
  std::string o = "[";
  for (auto &t : rows(s)) o += (o.size() > 1 ? "," : "") + jvec(t);
  return o + "]";
}
static auto flat(const std::string &s) -> std::vector<float> {
  std::vector<float> r;
  for (auto &t : rows(s)) for (float f : vec(t)) r.push_back(f);
  return r;
}
static auto d4(float d) -> std::string { return std::isnan(d) ? "1999999999" : fnum(double(d) * 4 / (metric == MetricType::COS ? 1 : unit * unit)); }
static auto make() { return std::make_unique<DiskCollection>(path, dim, metric, engine, cap, vp); }
static auto open() { return std::make_unique<DiskCollection>(DiskCollection::open(path)); }
template <class F> auto tried(F f) -> std::string {
  try { f(); return "ok"; } catch (const std::exception &e) { if (std::getenv("VF_SHOW")) std::cerr << e.what() << "\n"; return "err"; }
}

static bool faulted = false;
static void done(Ev &e) {
  e.num("nops", shimctl::count()).b("fault", shimctl::fired() > 0);
  if (faulted) shimctl::fail(-1, 0, 0, "");
  shimctl::arm(-1, 0);
  faulted = false;
  out(e);
}
static void op(const Args &a) {
  const auto &c = a[0];
  if (!faulted) shimctl::arm(-1, 0);
  if (c == "C") { auto r = tried([] { if (col) throw std::runtime_error("held"); col = make(); }); Ev e("create"); done(e.str("res", r)); }
  else if (c == "O") { if (col) { out(Ev("skip")); return; } auto r = tried([] { col = open(); }); Ev e("open"); done(e.str("res", r)); }
  else if (c == "C2") { auto r = tried([] { make(); }); Ev e("create2"); done(e.str("res", r)); }
  else if (c == "O2") { auto r = tried([] { open(); }); Ev e("open2"); done(e.str("res", r)); }
  else if (c == "OX" || c == "CX") {
    auto pid = fork();
    if (pid == 0) { col.release(); _exit(tried([&] { if (c == "OX") open(); else make(); }) == "ok" ? 0 : 3); }
    int st = 0;
    waitpid(pid, &st, 0);
    Ev e(c == "OX" ? "open2" : "create2");
    done(e.str("res", WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) == 3 ? "err" : "crash") : "crash"));
  }
  else if (c == "R" || c == "P") {        // R|P kind n: n simultaneous attempts in threads | processes; kind c, o or m (half of each)
    int n = int(I(a[2])), oks = 0;
    auto one = [&](int t) { return a[1] == "c" || (a[1] == "m" && t % 2 == 0) ? make() : open(); };
    auto *bar = reinterpret_cast<std::atomic<int> *>(stage + 8);
    bar[0] = bar[1] = bar[2] = 0;
    if (c == "R") {
      std::vector<std::unique_ptr<DiskCollection>> hs(n);
      std::vector<std::thread> ts;
      for (int t = 0; t < n; ++t)
        ts.emplace_back([&, t] {
          ++bar[0];
          while (bar[0] < n) {}
          (void)tried([&] { hs[t] = one(t); });
        });
      for (auto &t : ts) t.join();
      oks = std::count_if(hs.begin(), hs.end(), [](auto &h) { return h != nullptr; });
    } else {
      std::vector<pid_t> ps;
      for (int t = 0; t < n; ++t) {
        auto pid = fork();
        if (pid == 0) {
          col.release();
          std::unique_ptr<DiskCollection> h;
          ++bar[0];
          while (bar[0] < n) {}
          if (tried([&] { h = one(t); }) == "ok") ++bar[1];
          ++bar[2];
          while (bar[2] < n) usleep(200);
          _exit(0);
        }
        ps.push_back(pid);
      }
      for (auto p : ps) waitpid(p, nullptr, 0);
      oks = bar[1];
    }
    Ev e("race");
    done(e.str("kind", a[1]).num("n", n).num("oks", oks));
  }
  else if (c == "X") { if (col) { out(Ev("skip")); return; } fs::remove_all(path); out(Ev("rm")); }
  else if (c == "Z") { col.reset(); out(Ev("close")); }
  else if (!col) out(Ev("skip"));
  else if (c == "A") {
    auto ls = ints(a[1]);
    std::vector<uint64_t> l;
    for (auto r : ls) l.push_back(label(r));
    auto v = flat(a[2]);
    auto r = tried([&] { col->add_batch(v.data(), l.data(), l.size()); });
    Ev e("add");
    done(e.list("labels", ls).raw("vs", jrows(a[2])).str("res", r));
  }
  else if (c == "F") { auto r = tried([] { col->flush(); }); Ev e("flush"); done(e.str("res", r)); }
  else if (c == "N") { Ev e("size"); out(e.num("n", col->size())); }
  else if (c == "S") {
    DiskSearchOptions o;
    o.top_k = I(a[1]); o.ef = I(a[2]);
    auto q = vec(a[3]);
    std::string h = "[";
    auto r = tried([&] { for (auto &x : col->search(q.data(), o)) h += (h.size() > 1 ? ",[" : "[") + std::to_string(rank(x.label)) + "," + d4(x.distance) + "]"; });
    Ev e("search");
    out(e.num("k", I(a[1])).num("ef", I(a[2])).raw("q", jvec(a[3])).str("res", r).raw("hits", h + "]"));
  }
  else if (c == "B") {
    DiskSearchOptions o;
    o.top_k = I(a[1]); o.ef = I(a[2]);
    auto q = flat(a[5]);
    size_t n = rows(a[5]).size();
    bool wd = a[4] == "1";
    std::vector<uint64_t> ls(n * o.top_k + 1, std::numeric_limits<uint64_t>::max());
    std::vector<float> ds(n * o.top_k + 1, std::nanf(""));
    auto r = tried([&] { col->batch_search(q.data(), n, o, uint32_t(I(a[3])), ls.data(), wd ? ds.data() : nullptr); });
    std::string h = "[";
    for (size_t i = 0; r == "ok" && i < n; ++i) {
      h += i ? ",[" : "[";
      for (size_t j = 0; j < o.top_k; ++j)
        h += (j ? ",[" : "[") + std::to_string(rank(ls[i * o.top_k + j])) + "," + (wd ? d4(ds[i * o.top_k + j]) : "1999999999") + "]";
      h += "]";
    }
    Ev e("batch");
    out(e.num("k", I(a[1])).num("ef", I(a[2])).num("threads", I(a[3])).b("wd", wd).raw("qs", jrows(a[5])).str("res", r).raw("rows", h + "]")
            .b("over", ls.back() != std::numeric_limits<uint64_t>::max() || !std::isnan(ds.back())));
  }
  else out(Ev("skip"));
}

int main(int argc, char **argv) {
  stage = static_cast<long *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return loop(argc, argv,
    [](const Args &h, const std::string &dir) {     // dim metric engine caprows R L threads [image | record FILE]
      col.reset();
      path = dir + "/c";
      dim = I(h[0]);
      unit = h[1].back() == 'f' ? 1.0 / 1024 : 1;
      auto m = unit == 1 ? h[1] : h[1].substr(0, 2);
      metric = m == "l2" ? MetricType::L2 : m == "ip" ? MetricType::IP : MetricType::COS;
      engine = h[2] == "flat" ? DiskIndexType::Flat : DiskIndexType::Vamana;
      cap = I(h[3]) < 0 ? DiskCollection::kDefaultMaxPendingBytes : I(h[3]) * 2 * (dim * 4 + 8) + 5;
      vp = {};
      vp.R = I(h[4]); vp.L = I(h[5]); vp.num_threads = I(h[6]);
      if (h.size() > 8 && h[7] == "image") fs::copy(h[8], dir, fs::copy_options::recursive);
      shimctl::start(dir, h.size() > 8 && h[7] == "record" ? h[8] : "");
      out(Ev("reset").num("dim", dim).str("metric", m).str("engine", h[2]).num("deg", vp.R).num("cap", I(h[3])));
    },
    [](const Args &a) {
      if (a[0] == "K") {          // K k torn cmd args ; cmd args ; ... : a child runs them and ends at the k-th file operation of the last
        col.reset();
        std::vector<Args> cs(1);
        for (size_t i = 3; i < a.size(); ++i) { if (a[i] == ";") cs.emplace_back(); else cs.back().push_back(a[i]); }
        std::fflush(out.f);
        *stage = 0;
        auto pid = fork();
        if (pid == 0) {
          for (size_t i = 0; i < cs.size(); ++i) {
            *stage = i;
            shimctl::arm(-1, 0);
            if (i + 1 == cs.size()) { shimctl::arm(I(a[1]), int(I(a[2]))); faulted = true; }
            op(cs[i]);
          }
          *stage = cs.size();
          col.release();
          _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        std::fseek(out.f, 0, SEEK_END);
        if (*stage == (long)cs.size() && WIFEXITED(st)) { out(Ev("close").num("nops", 0)); return; }
        bool meant = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        auto &c = cs[*stage][0];
        out(Ev("died").str("of", meant ? (c == "C" ? "create" : c == "F" ? "flush" : "other") : "crash"));
      } else if (a[0] == "E") {   // E k n errno mask : faults for the next command
        shimctl::fail(I(a[1]), I(a[2]), int(I(a[3])), a.size() > 4 ? a[4].c_str() : "");
        faulted = true;
      } else if (a[0] == "M") {   // acknowledgement mark in the recording
        shimctl::mark(a[1]);
      } else if (a[0] == "H") {
        shimctl::stop();
      } else {
        op(a);
      }
    }, [] { shimctl::stop(); col.reset(); });
}
