// Command loop shared by the C++ harnesses: reads command lines, performs them on real library objects and writes one
// JSON event per command.  It reports and judges nothing.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <filesystem>

namespace vfh {
using Args = std::vector<std::string>;

struct Ev {
  std::string s;
  explicit Ev(const std::string &op) { s = "{\"op\":\"" + op + "\""; }
  static auto esc(const std::string &v) -> std::string {
    std::string o;
    char b[8];
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += char(c);
    }
    return o;
  }
  auto &raw(const std::string &k, const std::string &v) { s += ",\"" + k + "\":" + v; return *this; }
  auto &str(const std::string &k, const std::string &v) { return raw(k, "\"" + esc(v) + "\""); }
  template <class T> auto &num(const std::string &k, T v) { return raw(k, std::to_string((long long)v)); }
  auto &b(const std::string &k, bool v) { return raw(k, v ? "true" : "false"); }
  template <class C> auto &list(const std::string &k, const C &v) {
    std::string o = "[";
    for (auto x : v) o += (o.size() > 1 ? "," : "") + std::to_string((long long)x);
    return raw(k, o + "]");
  }
};

struct Out {
  FILE *f = nullptr;
  void operator()(const Ev &e) { std::fprintf(f, "%s}\n", e.s.c_str()); std::fflush(f); }
};
inline Out out;
inline std::string work;

// A float that should be a small integer: its value, or a string that no specification value equals.
inline auto fnum(double d) -> std::string {
  if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) < 2e9) return std::to_string((long long)d);
  std::ostringstream o; o.precision(17); o << d;
  return "\"" + o.str() + "\"";
}
inline auto ints(const std::string &a) -> std::vector<long long> {   // "1,2,3" or "-" for none
  std::vector<long long> r;
  if (a == "-") return r;
  std::stringstream ss(a);
  for (std::string t; std::getline(ss, t, ',');) r.push_back(std::stoll(t));
  return r;
}
inline auto floats(const std::string &a) -> std::vector<float> {
  std::vector<float> r;
  for (auto x : ints(a)) r.push_back(float(x));
  return r;
}
inline auto I(const std::string &a) -> long long { return std::stoll(a); }

inline int loop(int argc, char **argv, const std::function<void(const Args &, const std::string &)> &reset,
                const std::function<void(const Args &)> &op, const std::function<void()> &finish = [] {}) {
  std::ifstream in(argv[1]);
  out.f = std::fopen(argv[2], "w");
  work = argv[3];
  int n = 0;
  for (std::string line; std::getline(in, line);) {
    std::stringstream ss(line);
    Args a;
    for (std::string t; ss >> t;) a.push_back(t);
    if (a.empty()) continue;
    if (a[0] == "reset") {
      if (n) { finish(); std::filesystem::remove_all(work + "/r" + std::to_string(n)); }
      ++n;
      auto dir = work + "/r" + std::to_string(n);
      std::filesystem::create_directories(dir);
      a.erase(a.begin());
      reset(a, dir);
    } else {
      op(a);
    }
  }
  if (n) { finish(); std::filesystem::remove_all(work + "/r" + std::to_string(n)); }
  out(Ev("end"));
  std::fclose(out.f);
  std::_Exit(0);
}
}  // namespace vfh
