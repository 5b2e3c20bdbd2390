// Drives the file helpers, the memory map and the I/O engines in a scratch directory.  The calls they make are written down,
// and writes, reads and other calls can be cut short, interrupted or made to fail.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdarg>
#include <set>
#include "common.hpp"
#include "utils/platform_fs.hpp"
#include "storage/mmap_file.hpp"
#include "storage/io/io_engine.hpp"
#include "storage/io/io_uring_engine.hpp"
using namespace vfh;
namespace P = alaya::platform;
// ---------------------------------------------------------------- calls
static bool on = false;                    // within an operation
static std::string dir, sys;
static std::map<int, std::string> fds;
static long cut = 0, intr = 0, fail_at = -1, ncalls = 0;   // bytes at most per call; interruptions left; which call fails
static std::string fail_kind;
static int fail_err = EIO;
static std::string base(const std::string &p) { return p == dir || p == dir + "/" ? "." : p.substr(p.rfind('/') + 1); }
static void rec(const char *c, const std::string &f, long n, const std::string &g = "") {
  sys += std::string(sys.size() > 1 ? "," : "") + "[\"" + c + "\",\"" + f + "\"," + std::to_string(n) + ",\"" + g + "\"]";
}
static bool fails(const char *kind) {
  if (fail_at < 0 || fail_kind != kind || ncalls++ != fail_at) return false;
  rec("fail", kind, 0);
  errno = fail_err;
  return true;
}
static std::string rival;        // a competitor's file that appears in front of the next rename
static bool took = false;
static void compete();
static bool mine(int fd) { return on && fds.count(fd); }
template <class F> static ssize_t io(const char *kind, int fd, size_t n, F go) {
  if (!mine(fd)) return go(n);
  if (intr > 0) { --intr; errno = EINTR; return -1; }
  if (fails(kind)) return -1;
  auto r = go(cut && n > size_t(cut) ? size_t(cut) : n);
  if (kind[0] == 'w') rec("write", fds[fd], r);
  return r;
}
extern "C" {
ssize_t write(int fd, const void *b, size_t n) { return io("write", fd, n, [&](size_t m) { return ssize_t(::syscall(SYS_write, fd, b, m)); }); }
ssize_t read(int fd, void *b, size_t n) { return io("read", fd, n, [&](size_t m) { return ssize_t(::syscall(SYS_read, fd, b, m)); }); }
int open(const char *p, int flags, ...) {
  va_list l; va_start(l, flags); int mode = flags & O_CREAT ? va_arg(l, int) : 0; va_end(l);
  bool m = on && std::strncmp(p, dir.c_str(), dir.size()) == 0;
  if (m && fails("open")) return -1;
  int fd = int(::syscall(SYS_openat, AT_FDCWD, p, flags, mode));
  if (m && fd >= 0) { fds[fd] = base(p); if (flags & (O_CREAT | O_TRUNC)) rec("start", base(p), 0); }
  return fd;
}
int fsync(int fd) {
  if (mine(fd)) { if (fails("fsync")) return -1; rec("fsync", fds[fd], 0); }
  return int(::syscall(SYS_fsync, fd));
}
int close(int fd) {
  bool m = mine(fd);
  if (m) fds.erase(fd);
  int r = int(::syscall(SYS_close, fd));
  if (m && fails("close")) return -1;
  return r;
}
int rename(const char *a, const char *b) {
  if (on) { if (fails("rename")) return -1; compete(); }
  int r = int(::syscall(SYS_rename, a, b));
  if (on && r == 0) rec("rename", base(a), 0, base(b));
  return r;
}
long syscall(long n, ...) {
  va_list l; va_start(l, n);
  long a = va_arg(l, long), b = va_arg(l, long), c = va_arg(l, long), d = va_arg(l, long), e = va_arg(l, long), f = va_arg(l, long);
  va_end(l);
  if (on && (n == SYS_renameat2 || n == SYS_linkat || n == SYS_renameat)) compete();
  long r;
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = int(-r); return -1; }
  return r;
}
int link(const char *a, const char *b) { if (on) compete(); return int(::syscall(SYS_link, a, b)); }
int unlink(const char *a) { if (on) rec("unlink", base(a), 0); return int(::syscall(SYS_unlink, a)); }
int remove(const char *a) { if (on) rec("unlink", base(a), 0); int r = int(::syscall(SYS_unlink, a)); return r ? int(::syscall(SYS_rmdir, a)) : r; }
}
// ---------------------------------------------------------------- contents
static int pat(long long seed, size_t i) { return int((seed * 31 + (long long)i * 7 + (long long)(i / 251) * 13) % 251); }
static std::string make(long long seed, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = char(pat(seed, i)); return s; }
static std::string samples(const char *p, size_t n) {           // [position, byte] pairs
  std::string o = "[";
  std::set<size_t> at;
  for (size_t k = 0; k < 6; ++k) { if (k < n) { at.insert(k); at.insert(n - 1 - k); } }
  for (size_t k = 0; k < 10 && n; ++k) at.insert((k * 2654435761u + 77) % n);
  for (size_t e = 4096; e < n; e += 4096) { at.insert(e - 1); at.insert(e); }
  for (auto k : at) o += std::string(o.size() > 1 ? "," : "") + "[" + std::to_string(k) + "," + std::to_string((unsigned char)p[k]) + "]";
  return o + "]";
}
static void compete() {
  if (rival.empty()) return;
  int fd = int(::syscall(SYS_openat, AT_FDCWD, rival.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600));
  if (fd >= 0) { auto s = make(999, 3); ::syscall(SYS_write, fd, s.data(), s.size()); ::syscall(SYS_close, fd); took = true; }
  rival.clear();
}
static std::unique_ptr<alaya::IOEngine> eng;
static std::string path(const std::string &n) { return dir + "/" + n; }
static void faults(const Args &a, size_t k) {                    // "cut N" "intr N" "fail KIND J ERR"
  cut = intr = 0; fail_at = -1; ncalls = 0; fds.clear();
  for (; k < a.size(); ++k) {
    if (a[k] == "cut") cut = I(a[++k]);
    else if (a[k] == "intr") intr = I(a[++k]);
    else if (a[k] == "fail") { fail_kind = a[++k]; fail_at = I(a[++k]); fail_err = int(I(a[++k])); }
  }
}
template <class F> static void guarded(Ev &e, F f) {
  sys = "[";
  std::string r = "ok";
  on = true;
  try { f(); } catch (const std::exception &x) { r = "err"; }
  on = false;
  e.str("res", r).raw("sys", sys + "]");
}
static void cb(void *arg, int32_t r) { *static_cast<int32_t *>(arg) = r; }
static void op(const Args &a) {
  Ev e(a[0]);
  if (a.size() > 1) e.str("n", a[1]);
  if (a[0] == "put") {
    auto s = make(I(a[2]), size_t(I(a[3])));
    faults(a, 4);
    guarded(e, [&] { P::write_all_fsync(path(a[1]), s.data(), s.size()); });
    struct stat st{};
    e.num("seed", I(a[2])).num("len", I(a[3])).num("left", ::lstat(path(a[1]).c_str(), &st) == 0 && S_ISREG(st.st_mode) ? (long long)st.st_size : -1);
  } else if (a[0] == "swap" || a[0] == "move") {
    faults(a, 3);
    e.str("m", a[2]);
    bool race = a.size() > 3 && a[3] == "race";
    took = false;
    rival = race ? path(a[2]) : "";
    guarded(e, [&] { if (a[0] == "swap") P::atomic_replace(path(a[1]), path(a[2])); else P::atomic_replace_no_overwrite(path(a[1]), path(a[2])); });
    rival.clear();
    e.b("race", race).b("took", took);
  } else if (a[0] == "syncdir") {
    faults(a, 2);
    guarded(e, [&] { P::sync_directory_or_throw(a[1] == "." ? dir : path(a[1])); });
  } else if (a[0] == "syncfile") {
    faults(a, 2);
    guarded(e, [&] { P::sync_file_or_throw(path(a[1])); });
  } else if (a[0] == "prefix" || a[0] == "bounded") {
    faults(a, 3);
    std::string s;
    guarded(e, [&] { s = a[0] == "prefix" ? P::read_file_prefix(path(a[1]), size_t(I(a[2]))) : P::read_regular_file_bounded(path(a[1]), size_t(I(a[2]))); });
    e.num("k", I(a[2])).num("len", s.size()).raw("at", samples(s.data(), s.size()));
  } else if (a[0] == "map") {
    faults(a, 2);
    alaya::storage::MMapFile f;
    int eights = 0;
    guarded(e, [&] {
      f = alaya::storage::MMapFile::open(path(a[1]));
      auto g = std::move(f); f = std::move(g);                    // a mapping survives being moved
      try { eights = f.as<uint64_t>() == f.data() ? 1 : 2; } catch (const std::exception &) { eights = 0; }
    });
    e.num("len", f.size()).num("eights", eights).raw("at", samples(static_cast<const char *>(f.data()), f.size()));
  } else if (a[0] == "look") {
    faults(a, 2);
    guarded(e, [&] {});
    e.num("size", (long long)P::file_size_or(path(a[1]), 987654)).b("regular", P::is_readable_regular_file(path(a[1])));
  } else if (a[0] == "trunc") {
    int fd = ::open(path(a[1]).c_str(), O_RDWR | O_NOFOLLOW);
    bool ok = fd >= 0 && P::truncate_open_file(fd, uint64_t(I(a[2])));
    if (fd >= 0) ::close(fd);
    e.num("k", I(a[2])).b("ok", ok);
  } else if (a[0] == "mkdir") {
    faults(a, 2);
    guarded(e, [&] { P::create_directories_if_needed(path(a[1])); });
  } else if (a[0] == "link") {
    (void)::symlink(a[2].c_str(), path(a[1]).c_str());
    e.str("m", a[2]);
  } else if (a[0] == "list") {
    std::string o = "[";
    std::set<std::string> names;
    for (auto &d : std::filesystem::directory_iterator(dir)) names.insert(d.path().filename().string());
    for (auto &n : names) o += (o.size() > 1 ? ",\"" : "\"") + n + "\"";
    e.raw("names", o + "]");
  } else if (a[0] == "engine") {
    eng.reset();
    vfu::short_every = a.size() > 3 ? int(I(a[3])) : 0;
    if (a[1] == "ring") eng = std::make_unique<alaya::IOUringEngine>(size_t(I(a[2]))); else eng = std::make_unique<alaya::SyncEngine>();
    e.num("short", vfu::short_every);
  } else if (a[0] == "rd" || a[0] == "wr" || a[0] == "ard") {     // NAME off:len[:seed] …
    std::vector<std::string> bufs;
    std::vector<std::array<long long, 3>> q;
    for (size_t k = 2; k < a.size(); ++k) {
      std::array<long long, 3> x{};
      std::sscanf(a[k].c_str(), "%lld:%lld:%lld", &x[0], &x[1], &x[2]);
      q.push_back(x);
      bufs.push_back(a[0] == "wr" ? make(x[2], size_t(x[1])) : std::string(size_t(x[1]) + 8, char(0xEE)));
    }
    int fd = ::open(path(a[1]).c_str(), (a[0] == "wr" ? O_RDWR : O_RDONLY) | O_NOFOLLOW);
    std::vector<int32_t> res(q.size(), -999);
    size_t sub = 0, done = 0;
    if (a[0] == "ard") {
      bool async = eng->supports_async();
      for (size_t k = 0; k < q.size(); ++k) {
        if (eng->submit_async_read(fd, bufs[k].data(), size_t(q[k][1]), uint64_t(q[k][0]), cb, &res[k])) ++sub;
        if (k % 3 == 1) done += eng->check_completion();
      }
      if (q.size() % 2) { for (int t = 0; t < 10000 && done < sub; ++t) done += eng->check_completion(); }
      else { eng->drain_pending(); done = sub; }
      e.b("async", async);
    } else {
      std::vector<alaya::IORequest> r;
      for (size_t k = 0; k < q.size(); ++k) r.emplace_back(bufs[k].data(), size_t(q[k][1]), uint64_t(q[k][0]));
      sub = a[0] == "rd" ? eng->submit_reads(fd, r) : eng->submit_writes(fd, r);
      done = eng->wait(eng->supports_async() ? sub : 0, q.size() % 2 ? -1 : 50);
      for (size_t k = 0; k < q.size(); ++k) res[k] = r[k].result_;
      std::string g = "[";
      for (auto &x : r) g += std::string(g.size() > 1 ? "," : "") + (x.is_success() ? "true" : "false");
      e.raw("good", g + "]").b("async", eng->supports_async());
    }
    if (fd >= 0) ::close(fd);
    std::string o = "[";
    for (size_t k = 0; k < q.size(); ++k) {
      bool clean = a[0] == "wr" || (bufs[k].compare(bufs[k].size() - 8, 8, std::string(8, char(0xEE))) == 0);
      o += std::string(k ? "," : "") + "{\"off\":" + std::to_string(q[k][0]) + ",\"len\":" + std::to_string(q[k][1]) + ",\"seed\":" + std::to_string(q[k][2]) + ",\"res\":" + std::to_string(res[k]) +
           ",\"clean\":" + (clean ? "true" : "false") + ",\"at\":" + (a[0] == "wr" || res[k] <= 0 ? "[]" : samples(bufs[k].data(), size_t(res[k]))) + "}";
    }
    e.raw("q", o + "]").num("sub", sub).num("done", done).b("open", fd >= 0);
  }
  out(e);
}
int main(int argc, char **argv) {
  return loop(argc, argv, [](const Args &a, const std::string &d) {
    dir = d; eng = std::make_unique<alaya::SyncEngine>(); fds.clear(); vfu::short_every = 0; vfu::seed = a.size() < 2 ? 1 : unsigned(I(a[1]));
    out(Ev("reset"));
  }, op, [] { eng.reset(); });
}
