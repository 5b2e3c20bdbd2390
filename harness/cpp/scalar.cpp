// The scalar store: records under internal ids, item ids, secondary indexes, count; reopenings, kills, copies.
#include "cpp/values.hpp"
#include "storage/rocksdb_storage.hpp"
#include <barrier>
#include <memory>
#include <thread>
using namespace vfh;
using namespace alaya;
namespace fs = std::filesystem;
#ifndef IDT
#define IDT uint32_t
#endif
using Store = RocksDBStorage<IDT>;
static const std::vector<IDT> IDS = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 99, 100, 101, 4294967290U, 4294967291U, 4294967292U, 4294967293U, 4294967294U};
static const std::vector<std::string> ITEMS = {"", "a", "a_", "a_1", "1", "_", std::string("\0b", 2), std::string(300, 'z'), "d_0000000001", "\xc3\xa9"};
static const std::vector<std::string> DOCS = {"", "x", std::string("y\0z", 3), std::string(5000, 'q'), "x "};
static std::unique_ptr<Store> st, ro;
static RocksDBConfig cfg;
static std::string dir;
static int nth;
static auto rank(const auto &tab, const auto &x) -> long long {
  for (size_t i = 0; i < tab.size(); ++i) if (tab[i] == x) return (long long)i;
  return -1;
}
static auto rec(const std::string &a) -> ScalarData {   // item/doc/meta
  auto p = split(a, '/');
  return ScalarData(ITEMS.at(I(p[0])), DOCS.at(I(p[1])), meta(p[2]));
}
static auto encrec(const ScalarData &d) -> std::string {
  return "{\"item\":" + std::to_string(rank(ITEMS, d.item_id)) + ",\"doc\":" + std::to_string(rank(DOCS, d.document)) + ",\"meta\":" + encmeta(d.metadata) + "}";
}
static auto idlist(const std::vector<IDT> &v) -> std::vector<long long> { std::vector<long long> r; for (auto x : v) r.push_back(rank(IDS, x)); return r; }
static auto ids(const std::string &a) -> std::vector<IDT> { std::vector<IDT> r; for (auto x : ints(a)) r.push_back(IDS.at(x)); return r; }
static auto open(const std::string &path) -> std::unique_ptr<Store> { auto c = cfg; c.db_path_ = path; return std::make_unique<Store>(c); }
template <class F> static auto result(F f) -> long long { try { return f() ? 1 : 0; } catch (const std::exception &) { return 2; } }
static void query(Store &s, const Args &a, bool r) {
  Ev e(a[0] == "g" ? "get" : a[0] == "m" ? "mget" : a[0] == "f" ? "find" : a[0] == "e" ? "eq" : a[0] == "r" ? "range" : a[0] == "s" ? "scan" : "count");
  e.b("ro", r);
  if (a[0] == "g") {
    auto id = IDS.at(I(a[1]));
    std::string raw;
    bool ok = s.get_raw_value(id, raw);
    e.num("id", I(a[1])).b("valid", s.is_valid(id)).b("raw", ok).raw("rec", encrec(s[id]));
    e.raw("rrec", ok ? encrec(ScalarData::deserialize(raw.data(), raw.size())) : encrec(ScalarData{}));
  } else if (a[0] == "m") {
    auto v = ids(a[1]);
    std::string o = "[", p = "[", q = "[";
    for (auto &d : s.batch_get(v)) o += (o.size() > 1 ? "," : "") + encrec(d);
    for (auto &i : s.batch_get_item_id_only(v)) p += (p.size() > 1 ? "," : "") + std::to_string(rank(ITEMS, i));
    for (auto &w : s.batch_get_raw_values(v)) q += (q.size() > 1 ? "," : "") + encrec(w.empty() ? ScalarData{} : ScalarData::deserialize(w.data(), w.size()));
    e.list("ids", ints(a[1])).raw("recs", o + "]").raw("items", p + "]").raw("raws", q + "]");
  } else if (a[0] == "f") {
    auto it = ITEMS.at(I(a[1]));
    auto f = s.find_by_item_id(it);
    e.num("item", I(a[1])).num("id", f ? rank(IDS, *f) : -2).b("avail", s.item_id_available(it)).num("at", I(a[2])).b("availfor", s.item_id_available(it, IDS.at(I(a[2]))));
  } else if (a[0] == "e") {
    e.str("f", a[1]).raw("x", enc(val(a[2]))).list("ids", idlist(s.get_ids_by_field_value(a[1], val(a[2]))));
  } else if (a[0] == "r") {
    auto lo = val(a[2]), hi = val(a[3]);
    auto v = lo.index() == MetadataValue(int64_t(0)).index() ? s.get_ids_by_int_range(a[1], std::get<int64_t>(lo), std::get<int64_t>(hi))
                                                            : s.get_ids_by_double_range(a[1], std::get<double>(lo), std::get<double>(hi));
    e.str("f", a[1]).raw("lo", enc(lo)).raw("hi", enc(hi)).list("ids", idlist(v));
  } else if (a[0] == "s") {
    auto f = a[1];
    std::string o = "[";
    for (auto &[id, d] : s.scan_with_filter([&](const ScalarData &d) { return f == "*" || d.metadata.count(f) > 0; }, I(a[2])))
      o += (o.size() > 1 ? "," : "") + std::string("{\"id\":") + std::to_string(rank(IDS, id)) + ",\"rec\":" + encrec(d) + "}";
    e.str("f", f).num("lim", I(a[2])).raw("out", o + "]");
  } else {
    e.num("n", s.count());
  }
  out(e);
}
static auto mutate(Store &s, const Args &a) -> long long {
  if (a[0] == "I") return result([&] { return s.insert(IDS.at(I(a[1])), rec(a[2])); });
  if (a[0] == "U") return result([&] { return s.update(IDS.at(I(a[1])), rec(a[2])); });
  return result([&] { return s.remove(IDS.at(I(a[1]))); });
}
static auto mev(const Args &a, long long r) -> std::string {
  return std::string("{\"k\":\"") + a[0] + "\",\"id\":" + a[1] + ",\"rec\":" + (a[0] == "D" ? "0" : encrec(rec(a[2]))) + ",\"ok\":" + std::to_string(r) + "}";
}
// The files at one moment: the database may be tidying up in the background, so copy again until nothing changed meanwhile.
static auto listing(const std::string &d) -> std::map<std::string, uintmax_t> {
  std::map<std::string, uintmax_t> r;
  for (auto &e : fs::directory_iterator(d)) { std::error_code ec; auto n = fs::file_size(e.path(), ec); r[e.path().filename()] = ec ? 0 : n; }
  return r;
}
static void image(const std::string &from, const std::string &to) {
  for (int t = 0;; ++t) {
    fs::remove_all(to);
    try {
      auto a = listing(from);
      fs::copy(from, to, fs::copy_options::recursive);
      if (listing(from) == a || t == 200) return;
    } catch (const fs::filesystem_error &) { if (t == 200) throw; }
    usleep(10000);
  }
}
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &a, const std::string &d) {
      ro.reset(); st.reset();
      nth = 0;
      cfg = RocksDBConfig::default_config();
      cfg.indexed_fields_ = split(a.size() > 1 ? a[1] : std::string("n;g;n_s;n_i"), ';');
      cfg.block_cache_size_mb_ = 8;
      dir = d + "/db0";
      st = open(dir);
      out(Ev("reset").raw("indexed", [] { std::string o = "["; for (auto &f : cfg.indexed_fields_) o += (o.size() > 1 ? "," : "") + std::string("\"") + f + "\""; return o + "]"; }()));
    },
    [](const Args &a) {
      auto next = [&] { return fs::path(dir).parent_path().string() + "/db" + std::to_string(++nth); };
      if (a[0] == "I" || a[0] == "U" || a[0] == "D") { out(Ev("mut").raw("m", mev(a, mutate(*st, a)))); }
      else if (a[0] == "B") {            // batch from a start id
        std::vector<ScalarData> v;
        std::string o = "[", i = "[";
        for (size_t k = 2; k < a.size(); ++k) {
          v.push_back(rec(a[k]));
          o += (o.size() > 1 ? "," : "") + encrec(v.back());
          i += (i.size() > 1 ? "," : "") + std::to_string(rank(IDS, IDT(IDS.at(I(a[1])) + k - 2)));
        }
        auto r = result([&] { return st->batch_insert(IDS.at(I(a[1])), v.begin(), v.end()); });
        out(Ev("batch").raw("ids", i + "]").raw("recs", o + "]").num("ok", r));
      } else if (a[0] == "P") {          // calls made at the same time, one per thread, separated by "|"
        std::vector<Args> ops{{}};
        for (size_t k = 1; k < a.size(); ++k) { if (a[k] == "|") ops.push_back({}); else ops.back().push_back(a[k]); }
        std::vector<long long> r(ops.size());
        std::barrier bar((long)ops.size());
        std::vector<std::thread> t;
        for (size_t k = 0; k < ops.size(); ++k) t.emplace_back([&, k] { bar.arrive_and_wait(); r[k] = mutate(*st, ops[k]); });
        for (auto &x : t) x.join();
        std::string o = "[";
        for (size_t k = 0; k < ops.size(); ++k) o += (k ? "," : "") + mev(ops[k], r[k]);
        out(Ev("par").raw("ms", o + "]"));
      } else if (a[0] == "O") { st.reset(); st = open(dir); out(Ev("reopen").str("how", "closed").num("n", st->count())); }
      else if (a[0] == "K") {            // the process is killed: what its files hold at this moment is all there is
        auto d = next();
        image(dir, d);
        fs::remove(d + "/LOCK");
        st.reset();
        dir = d;
        st = open(dir);
        out(Ev("reopen").str("how", "killed").num("n", st->count()));
      } else if (a[0] == "S") {          // a copy made by save; go on with the copy
        auto d = next();
        if (a[1] == "1") st->compact();
        st->save(d);
        if (a[1] == "2") { mutate(*st, {"D", "0"}); mutate(*st, {"I", "3", "1/1/-"}); }   // after the copy: must not show in it
        st.reset();
        dir = d;
        st = open(dir);
        out(Ev("reopen").str("how", "saved").num("n", st->count()));
      } else if (a[0] == "F") { st->flush(); out(Ev("flush")); }
      else if (a[0] == "M") {            // moved to another object (constructed, then assigned over an open one)
        auto b = std::make_unique<Store>(std::move(*st));
        auto o = open(next());
        *o = std::move(*b);
        b.reset();
        st = std::move(o);
        out(Ev("reopen").str("how", "moved").num("n", st->count()));
      } else if (a[0] == "L") {          // the given records as an older release keyed them
        st.reset();
        rocksdb::DB *db = nullptr;
        rocksdb::Options o;
        if (!rocksdb::DB::Open(o, dir, &db).ok()) throw std::runtime_error("open");
        for (auto id : ids(a[1])) {
          auto s = std::to_string(id);
          auto k = "d_" + std::string(std::max<size_t>(s.size(), std::numeric_limits<IDT>::digits10 + 1) - s.size(), '0') + s;
          std::string v;
          if (k != "d_" + s && db->Get({}, k, &v).ok()) { db->Delete({}, k); db->Put({}, "d_" + s, v); }
        }
        db->Close();
        delete db;
        st = open(dir);
        out(Ev("reopen").str("how", "legacy").num("n", st->count()));
      } else if (a[0] == "H") {          // a second handle while the first is open
        ro.reset();
        ro = open(dir);
        out(Ev("second").b("ro", ro->is_read_only()).b("first", st->is_read_only()).num("n", ro->count()));
      } else if (a[0] == "W") {          // writes through the second handle
        if (!ro) { out(Ev("skip")); return; }
        std::string o = "[";
        o += std::to_string(mutate(*ro, {"I", "0", "1/1/-"})) + "," + std::to_string(mutate(*ro, {"U", "0", "1/1/-"})) + "," + std::to_string(mutate(*ro, {"D", "0"}));
        std::vector<ScalarData> v{rec("2/1/-")};
        o += "," + std::to_string(result([&] { return ro->batch_insert(0, v.begin(), v.end()); })) + "," + std::to_string(result([&] { ro->flush(); return true; }));
        out(Ev("rowrite").raw("out", o + "]"));
      } else if (a[0] == "?") {
        Args b(a.begin() + 1, a.end());
        if (ro) query(*ro, b, true); else out(Ev("skip"));
      } else query(*st, a, false);
    }, [] { ro.reset(); st.reset(); });
}
