// Manifest texts: reading arbitrary bytes, writing and reading back, and opening a disk collection whose texts were edited.
#include "cpp/common.hpp"
#include "index/disk/disk_collection.hpp"
#include "recovery/snapshot_manifest.hpp"
#include "recovery/recovery_manager.hpp"
#include <memory>
#include <unistd.h>
using namespace vfh;
using namespace alaya;
using namespace alaya::disk;
using alaya::recovery::SnapshotManifest;
namespace fs = std::filesystem;
static fs::path dir;
static auto bytes(const std::string &a) -> std::string {
  std::string r;
  for (auto x : ints(a)) r.push_back(char(x));
  return r;
}
static auto jb(const std::string &s) -> std::string {
  std::string o = "[";
  for (unsigned char c : s) o += (o.size() > 1 ? "," : "") + std::to_string(int(c));
  return o + "]";
}
static auto jn(uint64_t v) { return jb(std::to_string(v)); }
static void put(const fs::path &p, const std::string &s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(s.data(), std::streamsize(s.size())); }
static auto get(const fs::path &p) -> std::string { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static auto jx(const std::map<std::string, std::string> &x) -> std::string {
  std::string o = "[";
  for (auto &[k, v] : x) o += (o.size() > 1 ? ",[" : "[") + jb(k) + "," + jb(v) + "]";
  return o + "]";
}
static auto xs(const std::string &a) -> std::map<std::string, std::string> {   // k:v/k:v as byte lists, "-" none
  std::map<std::string, std::string> r;
  if (a == "-") return r;
  std::stringstream ss(a);
  for (std::string t; std::getline(ss, t, '/');) { auto c = t.find(':'); r[bytes(t.substr(0, c))] = bytes(t.substr(c + 1)); }
  return r;
}
static auto met(MetricType m) { return jb(std::string(disk::detail::metric_to_string(m))); }
static auto j(const SegmentManifest &m) -> std::string {
  return "{\"ok\":true,\"id\":" + jb(m.segment_id) + ",\"engine\":" + jb(std::string(index_type_to_string(m.index_type))) + ",\"metric\":" + met(m.metric) +
         ",\"dim\":" + jn(m.dim) + ",\"count\":" + jn(m.count) + ",\"ids\":" + jb(m.ids_file) + ",\"vecs\":" + jb(m.vectors_file) + ",\"x\":" + jx(m.x_extras) + "}";
}
static auto j(const CollectionManifest &m) -> std::string {
  std::string s = "[";
  for (auto &i : m.segment_ids) s += (s.size() > 1 ? "," : "") + jb(i);
  return "{\"ok\":true,\"dim\":" + jn(m.dim) + ",\"metric\":" + met(m.metric) + ",\"engine\":" + jb(std::string(index_type_to_string(m.index_type))) +
         ",\"next\":" + jn(m.next_segment_id) + ",\"segs\":" + s + "],\"x\":" + jx(m.x_extras) + "}";
}
static auto j(const SnapshotManifest &m) -> std::string {
  return "{\"ok\":true,\"nums\":[" + jn(m.format_version_) + "," + jn(m.applied_through_op_id_) + "," + jn(m.created_unix_ms_) + "],\"texts\":[" + jb(m.snapshot_id_) +
         "," + jb(m.reason_) + "," + jb(m.graph_file_) + "," + jb(m.data_file_) + "," + jb(m.quant_file_) + "," + jb(m.rocksdb_dir_) + "]}";
}
static const std::string none = "{\"ok\":false}";
template <class M> auto load(const fs::path &p) -> std::string {
  try { return j(M::load(p)); }
  catch (const std::invalid_argument &) { return none; }
  catch (const std::exception &e) { return "{\"ok\":false,\"other\":\"" + Ev::esc(e.what()) + "\"}"; }
}
static auto snap(const std::string &t) -> std::string {
  auto m = SnapshotManifest::deserialize(t);
  return m ? j(*m) : none;
}
static int serial = 0;
static auto fresh() { return dir / ("m" + std::to_string(++serial) + ".txt"); }

// ---- a collection of three rows and two rows, dimension 3
static fs::path cpath;
static DiskIndexType engine;
static std::string texts[3];                   // collection manifest, manifests of the segments
static auto text_file(int k) -> fs::path {
  return k == 0 ? cpath / "collection_manifest.txt" : cpath / "segments" / ("seg_0000000" + std::to_string(k)) / "manifest.txt";
}
static void build(const std::string &eng, const std::string &met) {
  engine = eng == "flat" ? DiskIndexType::Flat : DiskIndexType::Vamana;
  cpath = dir / "c";
  VamanaSegmentBuildParams p;
  p.R = 4; p.L = 8; p.num_threads = 1;
  DiskCollection c(cpath, 3, kMetricMap[met], engine, 1 << 20, p);
  const float v1[] = {1, 0, 0, 2, 1, 0, 0, 0, 3}, v2[] = {4, 0, 1, 0, 5, 2};
  const uint64_t l1[] = {11, 12, 13}, l2[] = {21, 22};
  c.add_batch(v1, l1, 3); c.flush();
  c.add_batch(v2, l2, 2); c.flush();
  for (int k = 0; k < 3; ++k) texts[k] = get(text_file(k));
}
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &, const std::string &d) { dir = d; serial = 0; out(Ev("reset")); },
    [](const Args &a) {
      if (a[0] == "S" || a[0] == "C") {
        auto p = fresh();
        put(p, bytes(a[1]));
        out(Ev(a[0] == "S" ? "seg" : "col").raw("text", jb(bytes(a[1]))).raw("got", a[0] == "S" ? load<SegmentManifest>(p) : load<CollectionManifest>(p)));
      } else if (a[0] == "N") {
        out(Ev("snap").raw("text", jb(bytes(a[1]))).raw("got", snap(bytes(a[1]))));
      } else if (a[0] == "WS") {              // id engine metric dim count ids vecs extras
        SegmentManifest m;
        m.segment_id = bytes(a[1]); m.index_type = index_type_from_string(bytes(a[2])); m.metric = kMetricMap[bytes(a[3])];
        m.dim = std::stoull(bytes(a[4])); m.count = std::stoull(bytes(a[5])); m.ids_file = bytes(a[6]); m.vectors_file = bytes(a[7]); m.x_extras = xs(a[8]);
        auto p = fresh();
        m.save(p);
        out(Ev("wseg").raw("m", j(m)).raw("text", jb(get(p))).raw("got", load<SegmentManifest>(p)));
      } else if (a[0] == "WC") {              // dim metric engine next segs(/) extras
        CollectionManifest m;
        m.dim = std::stoull(bytes(a[1])); m.metric = kMetricMap[bytes(a[2])]; m.index_type = index_type_from_string(bytes(a[3])); m.next_segment_id = std::stoull(bytes(a[4]));
        if (a[5] != "-") { std::stringstream ss(a[5]); for (std::string t; std::getline(ss, t, '/');) m.segment_ids.push_back(bytes(t)); }
        m.x_extras = xs(a[6]);
        auto p = fresh();
        m.save(p);
        out(Ev("wcol").raw("m", j(m)).raw("text", jb(get(p))).raw("got", load<CollectionManifest>(p)));
      } else if (a[0] == "WN") {              // version applied created id reason graph data quant rocksdb
        SnapshotManifest m;
        m.format_version_ = uint32_t(std::stoull(bytes(a[1]))); m.applied_through_op_id_ = std::stoull(bytes(a[2])); m.created_unix_ms_ = std::stoull(bytes(a[3]));
        m.snapshot_id_ = bytes(a[4]); m.reason_ = bytes(a[5]); m.graph_file_ = bytes(a[6]); m.data_file_ = bytes(a[7]); m.quant_file_ = bytes(a[8]); m.rocksdb_dir_ = bytes(a[9]);
        auto t = m.serialize();
        out(Ev("wsnap").raw("m", j(m)).raw("text", jb(t)).raw("got", snap(t)));
      } else if (a[0] == "B") {               // size: a segment manifest padded to a number of bytes by a comment; link: through a symbolic link; dir
        auto p = fresh();
        std::string t = "version=1\nsegment_id=seg_00000001\nindex_type=disk_flat\nmetric=L2\ndim=1\ncount=1\nids_file=a\nvectors_file=b\n#";
        size_t want = size_t(I(a[2]));
        if (a[1] == "size") { t += std::string(want > t.size() ? want - t.size() : 0, 'x'); put(p, t); }
        else if (a[1] == "link") { put(fs::path(p.string() + "real"), t); fs::create_symlink(p.string() + "real", p); }
        else if (a[1] == "dir") fs::create_directory(p);
        bool ok = load<SegmentManifest>(p) != none;
        out(Ev("odd").str("kind", a[1]).num("size", (long long)want).b("ok", ok));
      } else if (a[0] == "D") {               // engine metric
        build(a[1], a[2]);
        out(Ev("made").str("engine", a[1]).str("metric", a[2]).raw("texts", "[" + jb(texts[0]) + "," + jb(texts[1]) + "," + jb(texts[2]) + "]"));
      } else if (a[0] == "E") {               // which text: put it in place, open, look, put the old one back
        int k = int(I(a[1]));
        put(text_file(k), bytes(a[2]));
        Ev e("opened");
        e.num("which", k).raw("text", jb(bytes(a[2])));
        std::unique_ptr<DiskCollection> c;
        try { c = std::make_unique<DiskCollection>(DiskCollection::open(cpath)); }
        catch (const std::exception &x) { if (std::getenv("VF_SHOW")) std::cerr << x.what() << "\n"; }
        e.b("ok", c != nullptr);
        std::string hs = "[";
        long long n = -1, d = -1;
        if (c) {
          n = (long long)c->size(); d = c->dim();
          if (d == 3) {
            float q[3] = {1, 0, 0};
            DiskSearchOptions o;
            o.top_k = 10; o.ef = 10;
            for (auto &h : c->search(q, o)) hs += (hs.size() > 1 ? ",[" : "[") + std::to_string((long long)h.label) + "," + fnum(h.distance) + "]";
          }
        }
        e.num("size", n).num("dim", d).raw("hits", hs + "]");
        out(e);
        c.reset();
        put(text_file(k), texts[k]);
      }
    });
}
