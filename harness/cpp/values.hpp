// Typed scalar values as the specifications see them: numbers by rank in a sorted table, strings by character code.
#pragma once
#include "cpp/common.hpp"
#include "utils/scalar_data.hpp"
#include <limits>
namespace vfh {
inline const std::vector<int64_t> INTS = {INT64_MIN, INT64_MIN + 1, -(1LL << 40), -256, -2, -1, 0, 1, 2, 255, 256, 1LL << 31, 1LL << 40,
                                          INT64_MAX - 1, INT64_MAX};
inline const std::vector<double> DBLS = {-std::numeric_limits<double>::infinity(), -1.7976931348623157e308, -1e300, -256.5, -2.0, -1.0, -5e-324, 0.0, 5e-324, 0.5, 1.0, 2.0, 256.5,
                                         1e300, 1.7976931348623157e308, std::numeric_limits<double>::infinity()};
inline auto split(const std::string &s, char c) -> std::vector<std::string> {
  std::vector<std::string> r;
  std::stringstream ss(s);
  for (std::string t; std::getline(ss, t, c);) r.push_back(t);
  return r;
}
// i:RANK  d:RANK  d:z (negative zero)  b:0  s:97,98 (s:- is empty)
inline auto val(const std::string &a) -> alaya::MetadataValue {
  auto v = a.substr(2);
  switch (a[0]) {
    case 'i': return INTS.at(I(v));
    case 'd': return v == "z" ? -0.0 : DBLS.at(I(v));
    case 'b': return v == "1";
    default: { std::string s; for (auto x : ints(v)) s += char(x); return s; }
  }
}
inline auto enc(const alaya::MetadataValue &m) -> std::string {
  auto rank = [](const auto &tab, auto x) { for (size_t i = 0; i < tab.size(); ++i) if (tab[i] == x) return std::to_string(i); return std::string("-1"); };
  if (auto *i = std::get_if<int64_t>(&m)) return "{\"t\":\"i\",\"v\":[" + rank(INTS, *i) + "]}";
  if (auto *d = std::get_if<double>(&m))
    return "{\"t\":\"d\",\"v\":[" + rank(DBLS, *d) + "]" + (*d == 0 && std::signbit(*d) ? ",\"z\":1}" : "}");
  if (auto *b = std::get_if<bool>(&m)) return std::string("{\"t\":\"b\",\"v\":[") + (*b ? "1]}" : "0]}");
  std::string o = "{\"t\":\"s\",\"v\":[";
  bool first = true;
  for (unsigned char c : std::get<std::string>(m)) { o += (first ? "" : ",") + std::to_string(int(c)); first = false; }
  return o + "]}";
}
inline auto meta(const std::string &a) -> alaya::MetadataMap {   // f=value;g=value or -
  alaya::MetadataMap m;
  if (a == "-") return m;
  for (auto &p : split(a, ';')) { auto e = p.find('='); m[p.substr(0, e)] = val(p.substr(e + 1)); }
  return m;
}
inline auto encmeta(const alaya::MetadataMap &m) -> std::string {
  std::map<std::string, std::string> s;
  for (auto &[k, v] : m) s[k] = enc(v);
  std::string o = "[";
  for (auto &[k, v] : s) o += (o.size() > 1 ? "," : "") + std::string("{\"f\":\"") + Ev::esc(k) + "\",\"x\":" + v + "}";
  return o + "]";
}
}  // namespace vfh
