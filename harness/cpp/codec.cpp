// Encoded index keys, stored records and the binary reader and writer.
#include "cpp/common.hpp"
#include <bit>
#include <map>
#include <set>
#include <unordered_set>
#include "utils/index_encoding.hpp"
#include "utils/scalar_data.hpp"
#include "utils/binary_io.hpp"
using namespace vfh;
using namespace alaya;
namespace ie = alaya::index_encoding;

static auto nibbles(uint64_t v) -> std::vector<int> { std::vector<int> r; for (int k = 60; k >= 0; k -= 4) r.push_back(int(v >> k & 15)); return r; }
static auto bytes(const std::string &s) -> std::vector<int> { std::vector<int> r; for (unsigned char c : s) r.push_back(c); return r; }
static auto hex(const std::string &s) -> std::string { std::string o; char b[3]; for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); o += b; } return o.size() > 400 ? std::to_string(s.size()) + ":" + std::to_string(std::hash<std::string>()(s)) : o; }
static auto text(const std::string &a) -> std::string {                   // "-" empty, "*N" N times 'a', otherwise hex
  std::string o;
  if (a == "-") return o;
  if (a[0] == '*') return std::string(size_t(I(a.substr(1))), 'a');
  for (size_t k = 0; k + 1 < a.size(); k += 2) o += char(std::stoi(a.substr(k, 2), nullptr, 16));
  return o;
}
static auto u64(const std::string &h) { return std::stoull(h, nullptr, 16); }
static auto value(const std::string &t) -> MetadataValue {                // i<hex16> d<hex16> s<text> b0 b1
  auto r = t.substr(1);
  switch (t[0]) {
    case 'i': return int64_t(u64(r));
    case 'd': return std::bit_cast<double>(u64(r));
    case 's': return text(r);
    default: return r == "1";
  }
}
static auto shown(const MetadataValue &v) -> std::string {
  char b[24];
  if (auto *i = std::get_if<int64_t>(&v)) { std::snprintf(b, sizeof b, "i%016llx", (unsigned long long)*i); return b; }
  if (auto *d = std::get_if<double>(&v)) { std::snprintf(b, sizeof b, "d%016llx", (unsigned long long)std::bit_cast<uint64_t>(*d)); return b; }
  if (auto *s = std::get_if<std::string>(&v)) return "s" + hex(*s);
  return std::get<bool>(v) ? "b1" : "b0";
}
static auto shown(const MetadataMap &m) -> std::string {
  std::map<std::string, std::string> sorted;
  for (auto &[k, v] : m) sorted["k" + hex(k)] = shown(v);
  std::string o = "[";
  for (auto &[k, v] : sorted) o += (o.size() > 1 ? ",[\"" : "[\"") + k + "\",\"" + v + "\"]";
  return o + "]";
}
static auto shown(const ScalarData &r) -> std::string { return "{\"id\":\"" + hex(r.item_id) + "\",\"doc\":\"" + hex(r.document) + "\",\"meta\":" + shown(r.metadata) + "}"; }

static ScalarData rec;
static std::vector<char> ser;
static std::vector<std::string> fields;                                   // asked for by the projections
// What reading the given bytes answers: the record, the selected fields, each of them alone.
static void read(Ev &e, const std::vector<char> &from) {
  std::vector<char> exact(from);                                          // its own allocation: a read past it is seen
  exact.shrink_to_fit();
  try { e.raw("rec", shown(ScalarData::deserialize(exact.data(), exact.size()))).str("res", "ok"); }
  catch (const std::exception &) { e.raw("rec", "{}").str("res", "error"); }
  e.raw("sel", shown(ScalarData::deserialize_selected_metadata(exact.data(), exact.size(), {fields.begin(), fields.end()})));
  std::string o = "[";
  for (auto &f : fields) { auto v = ScalarData::deserialize_single_metadata_value(exact.data(), exact.size(), f); o += (o.size() > 1 ? ",[\"k" : "[\"k") + hex(f) + "\",\"" + (v ? shown(*v) : "none") + "\"]"; }
  e.raw("one", o + "]");
}
static std::vector<Args> writes;
static void op(const Args &a) {
  Ev e(a[0]);
  if (a[0] == "int" || a[0] == "dbl") {                                   // two numbers
    std::string x, y;
    uint64_t p = u64(a[1]), q = u64(a[2]), dp, dq;
    if (a[0] == "int") { x = ie::encode_int64(int64_t(p)); y = ie::encode_int64(int64_t(q)); dp = uint64_t(ie::decode_int64(x)); dq = uint64_t(ie::decode_int64(y)); }
    else { x = ie::encode_double(std::bit_cast<double>(p)); y = ie::encode_double(std::bit_cast<double>(q)); dp = std::bit_cast<uint64_t>(ie::decode_double(x)); dq = std::bit_cast<uint64_t>(ie::decode_double(y)); }
    MetadataValue vp = value((a[0] == "int" ? "i" : "d") + a[1]), vq = value((a[0] == "int" ? "i" : "d") + a[2]);
    e.list("p", nibbles(p)).list("q", nibbles(q)).list("x", bytes(x)).list("y", bytes(y)).list("dp", nibbles(dp)).list("dq", nibbles(dq))
        .list("vx", bytes(ie::encode_value(vp))).list("vy", bytes(ie::encode_value(vq)));
  } else if (a[0] == "key") {                                             // field, value, id
    auto v = value(a[2]);
    auto enc = ie::encode_value(v);
    uint64_t id = uint64_t(I(a[3]));
    auto k = ie::make_field_index_key<uint64_t>(text(a[1]), enc, id), pre = ie::make_field_index_prefix(text(a[1]), enc), fp = ie::make_field_prefix(text(a[1]));
    e.b("inpre", k.compare(0, pre.size(), pre) == 0).b("infield", pre.compare(0, fp.size(), fp) == 0).num("id", ie::extract_id_from_key<uint64_t>(k)).num("want", id);
  } else if (a[0] == "two") {                                             // two values of any type
    auto p = value(a[1]), q = value(a[2]);
    e.str("p", shown(p)).str("q", shown(q)).b("same", ie::encode_value(p) == ie::encode_value(q));
  } else if (a[0] == "rec") {                                             // id doc fields|- then key value ...
    rec = ScalarData(text(a[1]), text(a[2]), {});
    for (size_t k = 4; k + 1 < a.size(); k += 2) rec.metadata[text(a[k])] = value(a[k + 1]);
    fields.clear();
    if (a[3] != "-") { std::stringstream ss(a[3]); for (std::string t; std::getline(ss, t, ',');) fields.push_back(text(t)); }
    std::sort(fields.begin(), fields.end());
    ser = rec.serialize();
    e.raw("in", shown(rec)).num("size", ser.size()).num("est", rec.serialized_size());
    std::string o = "[";
    for (auto &f : fields) o += (o.size() > 1 ? ",\"k" : "\"k") + hex(f) + "\"";
    e.raw("fields", o + "]");
    read(e, ser);
  } else if (a[0] == "cut") {                                             // per mille of the record, or -N bytes from the end
    long long n = I(a[1]);
    size_t len = n < 0 ? size_t(std::max<long long>(0, (long long)ser.size() + n)) : ser.size() * size_t(n) / 1000;
    if (len >= ser.size()) return out(Ev("skip"));
    std::vector<char> t(ser.begin(), ser.begin() + long(len));
    e.num("len", len);
    read(e, t);
  } else if (a[0] == "bad") {                                             // a byte becomes another
    if (ser.empty()) return out(Ev("skip"));
    auto t = ser;
    size_t at = size_t(I(a[1])) % t.size();
    t[at] = char(I(a[2]));
    if (t == ser) return out(Ev("skip"));
    read(e, t);
    e = Ev("bad");                                                        // anything but a crash or a hang
  } else if (a[0] == "tag") {                                             // an unknown type tag in the last value
    if (rec.metadata.size() != 1) return out(Ev("skip"));
    auto t = ser;
    size_t at = 8 + rec.item_id.size() + rec.document.size() + 4 + 4 + rec.metadata.begin()->first.size();
    t[at] = char(4 + I(a[1]) % 250);
    read(e, t);
  } else if (a[0] == "io") {                                              // writes, then the same reads and one more
    binary_io::BinaryWriter w;
    std::string in = "[", got = "[";
    auto add = [](std::string &o, const std::string &x) { o += (o.size() > 1 ? ",\"" : "\"") + x + "\""; };
    for (size_t k = 1; k < a.size(); ++k) {
      auto r = a[k].substr(1);
      add(in, a[k][0] == 's' || a[k][0] == 'b' || a[k][0] == 'f' ? a[k][0] + hex(text(r)) : a[k]);
      switch (a[k][0]) {
        case '1': w.write_u8(uint8_t(u64(r))); break;
        case '4': w.write_u32(uint32_t(u64(r))); break;
        case '8': w.write_u64(u64(r)); break;
        case 's': w.write_string(text(r)); break;
        case 'b': w.write_blob(text(r)); break;
        default: { auto t = text(r); w.write_bytes(t.data(), t.size()); }
      }
    }
    auto data = std::move(w).finish();
    data.shrink_to_fit();
    auto pass = [&](size_t size, std::string &o) {
      std::vector<char> own(data.begin(), data.begin() + long(size));
      binary_io::BinaryReader rd(own.data(), own.size());
      char b[24];
      for (size_t k = 1; k < a.size(); ++k) {
        bool ok = true;
        std::string s;
        auto num = [&](auto v, const char *f, char c) { ok = v.has_value(); if (ok) { std::snprintf(b, sizeof b, f, (unsigned long long)*v); s = std::string(1, c) + b; } };
        switch (a[k][0]) {
          case '1': num(rd.read_u8(), "%llx", '1'); break;
          case '4': num(rd.read_u32(), "%llx", '4'); break;
          case '8': num(rd.read_u64(), "%llx", '8'); break;
          case 's': { auto v = rd.read_string(); ok = v.has_value(); if (ok) s = "s" + hex(*v); break; }
          case 'b': { auto v = rd.read_blob(); ok = v.has_value(); if (ok) s = "b" + hex({v->begin(), v->end()}); break; }
          default: { auto v = rd.read_fixed_blob(text(a[k].substr(1)).size()); ok = v.has_value(); if (ok) s = "f" + hex({v->begin(), v->end()}); }
        }
        if (!ok) { add(o, "none"); return rd.remaining(); }
        add(o, s);
      }
      return rd.remaining();
    };
    auto rest = pass(data.size(), got);
    std::string cuts = "[";
    for (size_t n = 0; n < data.size(); n += data.size() > 300 ? 37 : 1) { std::string o = "["; pass(n, o); cuts += (cuts.size() > 1 ? "," : "") + o + "]"; }
    e.raw("in", in + "]").raw("got", got + "]").num("rest", rest).raw("cuts", cuts + "]");
  }
  out(e);
}
int main(int argc, char **argv) { return loop(argc, argv, [](const Args &, const std::string &) { rec = {}; ser = rec.serialize(); fields.clear(); out(Ev("reset")); }, op); }
