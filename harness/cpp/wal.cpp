// Write-ahead log: append, replay, damage, reopen.
#include "cpp/common.hpp"
#include "recovery/write_ahead_log.hpp"
#include <memory>
using namespace vfh;
using namespace alaya::recovery;
namespace fs = std::filesystem;
static std::unique_ptr<WriteAheadLog> wal;
static fs::path path;
static std::vector<long long> sizes;   // file size after each append since the log was last dropped
static auto size() -> long long { std::error_code ec; auto s = fs::file_size(path, ec); return ec ? 0 : (long long)s; }
static auto payload(const std::string &spec) -> std::vector<char> {   // value:length, byte i = value + i
  auto v = ints(spec);
  std::vector<char> r;
  for (long long i = 0; i < v[1]; ++i) r.push_back(char((v[0] + i) & 255));
  return r;
}
int main(int argc, char **argv) {
  return loop(argc, argv,
    [](const Args &, const std::string &dir) {
      path = dir + "/sub/wal.bin";
      wal = std::make_unique<WriteAheadLog>(path);
      sizes.clear();
      out(Ev("reset"));
    },
    [](const Args &a) {
      if (a[0] == "P") {
        wal->append_prepare(WalRecord{.op_id_ = (uint64_t)I(a[1]), .mutation_type_ = MutationType(I(a[2])), .payload_ = payload(a[3])});
        auto p = ints(a[3]);
        sizes.push_back(size());
        out(Ev("prepare").num("id", I(a[1])).num("mt", I(a[2])).list("p", p).num("size", size()));
      } else if (a[0] == "C") {
        wal->append_commit(I(a[1]), MutationType(I(a[2])));
        sizes.push_back(size());
        out(Ev("commit").num("id", I(a[1])).num("mt", I(a[2])).num("size", size()));
      } else if (a[0] == "R") {
        uint64_t mx = 0;
        auto recs = wal->replayable_records(I(a[1]), &mx);
        std::string o = "[";
        for (auto &r : recs) {
          // a payload is reported as (first byte, length) when its bytes run as written
          bool run = true;
          for (size_t i = 1; i < r.payload_.size(); ++i) run = run && (unsigned char)r.payload_[i] == (((unsigned char)r.payload_[0] + i) & 255);
          long long f = r.payload_.empty() ? 0 : (unsigned char)r.payload_[0];
          if (!run) f = -1;
          o += (o.size() > 1 ? "," : "") + std::string("[") + std::to_string(r.op_id_) + "," + std::to_string((int)r.mutation_type_) + "," +
               std::to_string(f) + "," + std::to_string(r.payload_.size()) + "]";
        }
        out(Ev("replay").num("after", I(a[1])).raw("out", o + "]").num("max", mx));
      } else if (a[0] == "T") {
        wal->truncate();
        sizes.clear();
        out(Ev("drop"));
      } else if (a[0] == "O") {                 // the process ended; the log is opened anew
        wal.reset();
        wal = std::make_unique<WriteAheadLog>(path);
        out(Ev("reopen"));
      } else if (a[0] == "K" || a[0] == "B") {  // K off: cut at a byte; B back frac: cut frac/16 into the frame `back` from the end
        wal.reset();
        long long off = 0, s = size();
        if (a[0] == "K") off = I(a[1]);
        else {
          std::vector<long long> e{0};
          for (auto x : sizes) if (x <= s) e.push_back(x);
          auto i = (long long)e.size() - 1 - I(a[1]);
          if (i < 1) off = 0;
          else off = e[i - 1] + (e[i] - e[i - 1]) * I(a[2]) / 16;
        }
        off = std::min(off, s);
        if (fs::exists(path)) fs::resize_file(path, off);
        std::vector<long long> keep;
        for (auto x : sizes) if (x <= off) keep.push_back(x);
        sizes = keep;
        if (I(a.back()) != 0) {                 // garbage behind the cut: zeros or other bytes
          std::ofstream o(path, std::ios::binary | std::ios::app);
          for (long long i = 0; i < std::llabs(I(a.back())); ++i) o.put(I(a.back()) < 0 ? 0 : char(i * 37 + 11));
        }
        wal = std::make_unique<WriteAheadLog>(path);
        out(Ev("damage").num("off", off).num("junk", I(a.back())));
      }
    }, [] { wal.reset(); });
}
