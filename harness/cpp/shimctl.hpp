// Control of the preloaded file-operation library (absent: the calls do nothing).
#pragma once
#include <dlfcn.h>
#include <string>
namespace shimctl {
template <class F> auto sym(const char *n) -> F { return reinterpret_cast<F>(dlsym(RTLD_DEFAULT, n)); }
inline void start(const std::string &dir, const std::string &rec = "") {
  if (auto f = sym<void (*)(const char *, long, int, long, long, int, const char *, const char *, int)>("vf_start"))
    f(dir.c_str(), -1, 0, -1, 0, 0, "", rec.c_str(), 1);
}
inline void arm(long k, int torn) { if (auto f = sym<void (*)(long, int)>("vf_arm")) f(k, torn); }
inline void fail(long k, long n, int err, const char *mask) { if (auto f = sym<void (*)(long, long, int, const char *)>("vf_fail")) f(k, n, err, mask); }
inline auto count() -> long { auto f = sym<long (*)()>("vf_count"); return f ? f() : 0; }
inline auto fired() -> long { auto f = sym<long (*)()>("vf_fired"); return f ? f() : 0; }
inline void stop() { if (auto f = sym<void (*)()>("vf_stop")) f(); }
inline void mark(const std::string &t) { if (auto f = sym<void (*)(const char *)>("vf_mark")) f(t.c_str()); }
}  // namespace shimctl
