// Distance kernels of every instruction set on vectors that end (or begin) at unreadable memory.
#include "cpp/common.hpp"
#include <random>
#include <sys/mman.h>
#include "simd/distance_ip.hpp"
#include "simd/distance_l2.hpp"
#include "simd/fht.hpp"
#include "simd/laser_dispatch.hpp"
#include "space/quant/rabitq.hpp"
#include "space/quant/sq4.hpp"
#include "space/quant/sq8.hpp"
#include "utils/rabitq_utils/lut.hpp"
#include "utils/rabitq_utils/rotator.hpp"
#include "index/graph/laser/quantization/rabitq.hpp"
#include "index/graph/laser/qg/qg_scanner.hpp"
#include "index/graph/laser/utils/rotator.hpp"
#include "index/graph/laser/utils/scalar_quantize.hpp"
using namespace vfh;
namespace S = alaya::simd;
namespace L = alaya::laser;
namespace D = alaya::laser::simd::detail;

static int mode = 0;                                                      // 0 ends at the guard page, 1 begins after one, 2 one element before the end
template <class T> struct Mem {                                           // n elements beside unreadable pages
  char *base; size_t len; T *p; size_t n;
  explicit Mem(size_t count, int m = -1) : n(count) {
    if (m < 0) m = mode;
    const size_t page = 4096, need = count * sizeof(T), body = (need / page + 2) * page;
    len = body + 2 * page;
    base = static_cast<char *>(mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + page, body, PROT_READ | PROT_WRITE);
    char *at = m == 1 ? base + page : base + page + body - need - (m == 2 ? sizeof(T) : 0);
    p = reinterpret_cast<T *>(at);
  }
  template <class U> Mem(const std::vector<U> &v, int m = -1) : Mem(v.size(), m) { for (size_t k = 0; k < n; ++k) p[k] = T(v[k]); }
  Mem(const Mem &) = delete;
  ~Mem() { munmap(base, len); }
};
template <class T> struct Al {                                            // 64-byte aligned, where the library requires it
  T *p; explicit Al(size_t n) { p = static_cast<T *>(std::aligned_alloc(64, (n * sizeof(T) + 127) / 64 * 64)); std::memset(p, 0, n * sizeof(T)); }
  ~Al() { std::free(p); }
};
static std::mt19937 rng;
static int pick(int lo, int hi) { return lo + int(rng() % unsigned(hi - lo + 1)); }
static auto some(size_t n, int lo, int hi) { std::vector<long long> v(n); for (auto &x : v) x = pick(lo, hi); return v; }
static long long exact(double d) { return std::isfinite(d) && d == std::floor(d) && std::fabs(d) < 2e9 ? (long long)d : 2000000001; }
static long long milli(double d) { return std::isfinite(d) && std::fabs(d) < 2.1e6 ? std::llround(d * 1000) : 2147000001; }

static void op(const Args &a) {
  Ev e(a[0]);
  if (a[0] == "sel") {                                                    // avx512 avx2 fma sse policy
    S::CpuFeatures f{};
    f.avx512f_ = a[1] == "1"; f.avx2_ = a[2] == "1"; f.fma_ = a[3] == "1"; f.sse4_1_ = a[4] == "1";
    auto pol = S::parse_distance_dispatch_policy(a[5] == "-" ? nullptr : a[5].c_str());
    const char *n[] = {"generic", "sse4", "avx2", "avx512"};
    return out(e.b("z", f.avx512f_).b("y", f.avx2_).b("m", f.fma_).b("s", f.sse4_1_).str("policy", a[5]).str("fp", n[int(S::select_fp32_distance_level(f, pol))]).str("all", n[int(S::get_simd_level(f))]));
  }
  size_t dim = size_t(I(a[1]));
  rng.seed(unsigned(I(a[2])));
  mode = int(I(a[3]));
  int mag = a.size() > 4 ? int(I(a[4])) : 0;
  e.num("dim", dim);
  if (a[0] == "f") {
    auto x = some(dim, -mag, mag), y = some(dim, -mag, mag);
    Mem<float> p(x), q(y);
    std::vector<long long> l2, ip, l2r, ipr;
    for (auto f : {S::l2_sqr_generic, S::l2_sqr_avx2, S::l2_sqr_avx2_diskann_compat, S::l2_sqr_avx512, S::get_l2_sqr_func()}) { l2.push_back(exact(f(p.p, q.p, dim))); l2.push_back(exact(f(q.p, p.p, dim))); }
    for (auto f : {S::ip_sqr_generic, S::ip_sqr_avx2, S::ip_sqr_avx512, S::get_ip_sqr_func()}) { ip.push_back(exact(f(p.p, q.p, dim))); ip.push_back(exact(f(q.p, p.p, dim))); }
    l2.push_back(exact(S::l2_sqr<float, float>(p.p, q.p, dim)));
    ip.push_back(exact(S::ip_sqr<float, float>(p.p, q.p, dim)));
    { Mem<double> c(x), d(y); l2.push_back(exact(S::l2_sqr<double, double>(c.p, d.p, dim))); ip.push_back(exact(S::ip_sqr<double, double>(c.p, d.p, dim))); }
    if (mag <= 127) { Mem<int8_t> c(x), d(y); l2.push_back(exact(S::l2_sqr<int8_t, float>(c.p, d.p, dim))); ip.push_back(exact(S::ip_sqr<int8_t, float>(c.p, d.p, dim))); }
    if (mag <= 127) { auto u = x, v = y; for (auto &k : u) k += 128; for (auto &k : v) k += 128; Mem<uint8_t> c(u), d(v); l2.push_back(exact(S::l2_sqr<uint8_t, int32_t>(c.p, d.p, dim))); }
    std::vector<long long> one;                                           // square of the norm and range
    float lo, hi;
    std::vector<long long> range;
    for (auto f : {D::l2_sqr_single_generic, D::l2_sqr_single_avx512, D::l2_sqr_single_avx2, L::simd::get_l2_sqr_single_func()}) one.push_back(exact(f(p.p, dim)));
    for (auto f : {D::data_range_generic, D::data_range_avx512, D::data_range_avx2, L::simd::get_data_range_func()}) { f(p.p, dim, lo, hi); range.push_back(exact(lo)); range.push_back(exact(hi)); }
    e.list("x", x).list("y", y).list("l2", l2).list("ip", ip).list("one", one).list("range", range);
  } else if (a[0] == "q8" || a[0] == "q4") {                              // codes, least values and steps
    bool eight = a[0] == "q8";
    int cap = eight ? mag : 15;
    auto x = some(dim, 0, cap), y = some(dim, 0, cap), mn = some(dim, -9, 9), st = some(dim, 0, 2);
    std::vector<long long> cx, cy, mx;
    for (size_t k = 0; k < dim; ++k) mx.push_back(mn[k] + (eight ? 255 : 15) * st[k]);
    if (eight) { cx = x; cy = y; }
    else for (size_t k = 0; k < dim; k += 2) { cx.push_back(x[k] | (k + 1 < dim ? x[k + 1] << 4 : pick(0, 15) << 4)); cy.push_back(y[k] | (k + 1 < dim ? y[k + 1] << 4 : pick(0, 15) << 4)); }
    Mem<uint8_t> p(cx), q(cy);
    Mem<float> lo(mn), hi(mx);
    std::vector<long long> l2, ip;
    if (eight) {
      for (auto f : {S::l2_sqr_sq8_generic, S::l2_sqr_sq8_avx2, S::l2_sqr_sq8_avx512, S::get_l2_sqr_sq8_func()}) { l2.push_back(milli(f(p.p, q.p, dim, lo.p, hi.p))); l2.push_back(milli(f(q.p, p.p, dim, lo.p, hi.p))); }
      for (auto f : {S::ip_sqr_sq8_generic, S::ip_sqr_sq8_avx2, S::ip_sqr_sq8_avx512, S::get_ip_sqr_sq8_func()}) { ip.push_back(milli(f(p.p, q.p, dim, lo.p, hi.p))); ip.push_back(milli(f(q.p, p.p, dim, lo.p, hi.p))); }
      l2.push_back(milli(S::l2_sqr_sq8<float, float>(p.p, q.p, dim, lo.p, hi.p)));
      ip.push_back(milli(S::ip_sqr_sq8<float, float>(p.p, q.p, dim, lo.p, hi.p)));
      Mem<double> dl(mn), dh(mx);
      l2.push_back(milli(S::l2_sqr_sq8<double, double>(p.p, q.p, dim, dl.p, dh.p)));
      ip.push_back(milli(S::ip_sqr_sq8<double, double>(p.p, q.p, dim, dl.p, dh.p)));
    } else {
      for (auto f : {S::l2_sqr_sq4_generic, S::l2_sqr_sq4_avx2, S::l2_sqr_sq4_avx512, S::get_l2_sqr_sq4_func()}) { l2.push_back(milli(f(p.p, q.p, dim, lo.p, hi.p))); l2.push_back(milli(f(q.p, p.p, dim, lo.p, hi.p))); }
      for (auto f : {S::ip_sqr_sq4_generic, S::ip_sqr_sq4_avx2, S::ip_sqr_sq4_avx512, S::get_ip_sqr_sq4_func()}) { ip.push_back(milli(f(p.p, q.p, dim, lo.p, hi.p))); ip.push_back(milli(f(q.p, p.p, dim, lo.p, hi.p))); }
      l2.push_back(milli(S::l2_sqr_sq4<float, float>(p.p, q.p, dim, lo.p, hi.p)));
      ip.push_back(milli(S::ip_sqr_sq4<float, float>(p.p, q.p, dim, lo.p, hi.p)));
      Mem<double> dl(mn), dh(mx);
      l2.push_back(milli(S::l2_sqr_sq4<double, double>(p.p, q.p, dim, dl.p, dh.p)));
      ip.push_back(milli(S::ip_sqr_sq4<double, double>(p.p, q.p, dim, dl.p, dh.p)));
    }
    e.list("x", x).list("y", y).list("mn", mn).list("st", st).list("l2", l2).list("ip", ip);
  } else if (a[0] == "e8" || a[0] == "e4") {                              // fitted, encoded and compared
    bool eight = a[0] == "e8";
    int top = eight ? 255 : 15, cap = eight ? mag : 15;
    auto mn = some(dim, -9, 9), st = some(dim, 0, 2), x = some(dim, 0, cap), y = some(dim, 0, cap);
    Mem<float> rows(dim * 2, mode), p(dim), q(dim);
    for (size_t k = 0; k < dim; ++k) { rows.p[k] = float(mn[k]); rows.p[dim + k] = float(mn[k] + top * st[k]); p.p[k] = float(mn[k] + x[k] * st[k]); q.p[k] = float(mn[k] + y[k] * st[k]); }
    std::vector<long long> cx, cy, r;
    auto go = [&](auto &z, size_t n, auto l2, auto ip) {
      z.fit(rows.p, 2);
      Mem<uint8_t> c(n), d(n);
      z.encode(p.p, c.p); z.encode(q.p, d.p);
      for (size_t k = 0; k < n; ++k) { cx.push_back(c.p[k]); cy.push_back(d.p[k]); }
      r = {milli(l2(c.p, d.p, dim, z.get_min(), z.get_max())), milli(ip(c.p, d.p, dim, z.get_min(), z.get_max()))};
    };
    if (eight) { alaya::SQ8Quantizer<float> z{uint32_t(dim)}; go(z, dim, S::l2_sqr_sq8<float, float>, S::ip_sqr_sq8<float, float>); }
    else { alaya::SQ4Quantizer<float> z{uint32_t(dim)}; go(z, (dim + 1) / 2, S::l2_sqr_sq4<float, float>, S::ip_sqr_sq4<float, float>); }
    e.list("x", x).list("y", y).list("mn", mn).list("st", st).list("cx", cx).list("cy", cy).list("r", r);
  } else if (a[0] == "acc") {                                             // 32 codes against a table of bytes, dim a multiple of 16
    auto q = some(dim, 0, mag);
    auto codes = some(32 * dim / 8, 0, 255);
    if (a.size() > 5) for (auto &c : codes) c = I(a[5]);
    std::vector<uint8_t> raw(codes.begin(), codes.end());
    Mem<uint8_t> src(raw), packed(dim * 4), table(dim * 4), bytes(q);
    alaya::fastscan::pack_codes(dim, src.p, 32, packed.p);
    alaya::fastscan::pack_lut(dim, bytes.p, table.p);
    std::string o = "[";
    auto add = [&](const uint16_t *r) { o += o.size() > 1 ? ",[" : "["; for (int k = 0; k < 32; ++k) o += (k ? "," : "") + std::to_string(r[k]); o += "]"; };
    Mem<uint16_t> r(32);
    alaya::fastscan::detail::accumulate_scalar(packed.p, table.p, r.p, dim); add(r.p);
    if (dim % 16 == 0) {
      alaya::fastscan::accumulate(packed.p, table.p, r.p, dim); add(r.p);
      for (auto f : {D::accumulate_impl_generic, D::accumulate_impl_avx512, D::accumulate_impl_avx2, L::simd::get_accumulate_func()}) { f(dim, packed.p, table.p, r.p); add(r.p); }
    }
    if (dim % 64 == 0) {                                                  // the LASER way to the same sums
      std::vector<uint64_t> words(32 * dim / 64);
      for (int v = 0; v < 32; ++v) for (size_t k = 0; k < dim; ++k) if (raw[size_t(v) * dim / 8 + k / 8] >> (7 - k % 8) & 1) words[size_t(v) * dim / 64 + k / 64] |= 1ULL << (63 - k % 64);
      Mem<uint8_t> pk(dim * 4), lt(dim * 4);
      L::pack_codes(dim, words.data(), 32, pk.p);
      L::pack_lut_impl(dim, bytes.p, lt.p);
      L::simd::get_accumulate_func()(dim, pk.p, lt.p, r.p); add(r.p);
    }
    e.list("q", q).list("codes", codes).raw("r", o + "]");
  } else if (a[0] == "est") {                                             // vectors around a centre, dim a multiple of 64
    int step = a.size() > 5 ? int(I(a[5])) : 1, same = a.size() > 6 ? int(I(a[6])) : 0;
    auto q = same ? std::vector<long long>(dim, mag) : some(dim, -mag, mag), c = some(dim, same ? 0 : -2, same ? 0 : 2);
    auto codes = some(32 * dim / 8, 0, 255);
    if (same == 3) for (size_t k = 0; k < dim; ++k) q[k] = k / 4 % 2 ? mag : 0;
    if (same) for (auto &k : codes) k = same == 2 ? 255 : pick(0, 3) ? 255 : pick(0, 255);
    std::vector<long long> flat;                                          // vectors that are the centre itself
    if (same == 0) for (int v = pick(1, 40); v <= 32; v += pick(3, 12)) flat.push_back(v);
    std::vector<float> data(32 * dim), cen(c.begin(), c.end()), qry(q.begin(), q.end());
    for (size_t v = 0; v < 32; ++v) for (size_t k = 0; k < dim; ++k) data[v * dim + k] = cen[k] + float(codes[v * dim / 8 + k / 8] >> (7 - k % 8) & 1 ? step : -step);
    for (auto v : flat) for (size_t k = 0; k < dim; ++k) data[(v - 1) * dim + k] = cen[k];
    Al<uint8_t> packed(dim * 4);
    std::vector<float> fadd(32), fres(32);
    alaya::RaBitQQuantizer<float> z{uint32_t(dim), uint32_t(dim)};
    z.batch_quantize(data.data(), cen.data(), 32, packed.p, fadd.data(), fres.data(), alaya::MetricType::L2);
    alaya::Lut<float> lut; lut = alaya::Lut<float>(qry.data(), dim);
    double sum = 0, sq = 0;
    for (size_t k = 0; k < dim; ++k) { sum += qry[k]; sq += (qry[k] - cen[k]) * double(qry[k] - cen[k]); }
    std::vector<float> est(32);
    alaya::fastscan::accumulate_and_estimate_distances(packed.p, lut.lut(), fadd.data(), fres.data(), float(sq), lut.delta(), lut.sum_vl() + float(-0.5 * sum), est.data(), dim);
    std::vector<long long> r1, r2;
    for (auto f : est) r1.push_back(milli(f));
    L::RowMatrix<float> m(32, long(dim)), cm(1, long(dim));
    for (size_t v = 0; v < 32; ++v) for (size_t k = 0; k < dim; ++k) m(long(v), long(k)) = data[v * dim + k];
    for (size_t k = 0; k < dim; ++k) cm(0, long(k)) = cen[k];
    Al<uint8_t> pk(dim * 4), table(dim * 4), by(dim);
    Al<float> fac(96), ap(32), al(dim);
    for (size_t k = 0; k < dim; ++k) al.p[k] = qry[k];
    L::rabitq_codes(m, cm, pk.p, fac.p, fac.p + 32, fac.p + 64);
    float lo, hi; int32_t sumq;
    L::scalar::data_range(al.p, dim, lo, hi);
    float width = (hi - lo) / ((1 << QG_BQUERY) - 1);
    L::scalar::quantize(by.p, al.p, dim, lo, width, sumq);
    L::QGScanner sc(dim, 32);
    sc.pack_lut(by.p, table.p);
    sc.scan_neighbors(ap.p, table.p, float(sq), lo, width, 0, sumq, pk.p, fac.p);
    for (int k = 0; k < 32; ++k) r2.push_back(milli(ap.p[k]));
    e.list("q", q).list("c", c).list("codes", codes).num("step", step).list("flat", flat).list("rabitq", r1).list("laser", r2);
    std::vector<long long> bl; for (size_t k = 0; k < dim; ++k) bl.push_back(by.p[k]);
    e.list("bytes", bl).num("sumq", sumq);
  } else if (a[0] == "fht") {                                             // dim = 2^n; few entries other than zero
    std::vector<long long> at, val;
    for (int k = pick(1, 3); k > 0; --k) { at.push_back(pick(0, int(dim) - 1)); val.push_back(pick(1, 9)); }
    std::string o = "[";
    auto go = [&](auto f) {
      Al<float> b(dim);
      for (size_t k = 0; k < at.size(); ++k) b.p[at[k]] += float(val[k]);
      f(b.p);
      o += o.size() > 1 ? ",[" : "[";
      for (size_t k = 0; k < dim; ++k) o += (k ? "," : "") + std::to_string(exact(b.p[k]));
      o += "]";
    };
    auto lg = [&] { int n = 0; while ((1u << n) < dim) ++n; return n; }();
    switch (lg) {
#define CASE(n) case n: go(S::helper_float_##n##_avx2); go(S::helper_float_##n##_avx512); go(S::helper_float_##n); go(S::fwht_generic_template<n>); break;
      CASE(6) CASE(7) CASE(8) CASE(9) CASE(10) CASE(11)
    }
    go([&](float *b) { S::fht_float(b, lg); });
    go([&](float *b) { L::detail::fht_float_portable(b, size_t(lg)); });
    go([&](float *b) { L::detail::select_fht_float(size_t(lg))(b); });
    e.list("at", at).list("val", val).raw("r", o + "]");
  } else if (a[0] == "rot") {                                             // rotations keep products and norms
    auto x = some(dim, -mag, mag), y = some(dim, -mag, mag);
    std::string o = "[";
    auto go = [&](size_t padded, auto rotate) {
      Al<float> p(padded), q(padded);
      std::vector<float> u(x.begin(), x.end()), v(y.begin(), y.end());
      rotate(u.data(), p.p); rotate(v.data(), q.p);
      double xy = 0, xx = 0, yy = 0;
      for (size_t k = 0; k < padded; ++k) { xy += double(p.p[k]) * q.p[k]; xx += double(p.p[k]) * p.p[k]; yy += double(q.p[k]) * q.p[k]; }
      o += (o.size() > 1 ? ",[" : "[") + std::to_string(milli(xy)) + "," + std::to_string(milli(xx)) + "," + std::to_string(milli(yy)) + "]";
    };
    if (dim >= 64) { auto r = alaya::choose_rotator<float>(dim); go(r->size(), [&](const float *s, float *d) { r->rotate(s, d); }); }
    if (dim <= 200) { auto r = alaya::choose_rotator<float>(dim, alaya::RotatorType::MatrixRotator); go(r->size(), [&](const float *s, float *d) { r->rotate(s, d); }); }
    if (dim > 32) { L::FHTRotator r(dim, uint64_t(I(a[2])) + 1); size_t pad = 64; while (pad < dim) pad *= 2; go(pad, [&](const float *s, float *d) { r.rotate(s, d); }); }
    e.list("x", x).list("y", y).raw("r", o + "]");
  } else if (a[0] == "lin") {                                             // conversion, estimate and scaling loops of any length
    auto acc = some(dim, 0, 65535), t = some(dim, -50, 50), dq = some(dim, -3, 3), vq = some(dim, -5, 5), res = some(dim, -99, 99);
    int sumq = pick(0, 5000), y = pick(0, 99), w = pick(1, 3), vl = pick(-4, 4), sr = pick(0, 40);
    Mem<uint16_t> u(acc);
    Mem<float> o(dim), pt(t), pd(dq), pv(vq), pr(res);
    std::string c = "[", g = "[", m = "[";
    auto add = [&](std::string &s, size_t n) { s += s.size() > 1 ? ",[" : "["; for (size_t k = 0; k < n; ++k) s += (k ? "," : "") + std::to_string(exact(o.p[k])); s += "]"; };
    for (auto f : {D::convert_accum_to_float_generic, D::convert_accum_to_float_avx512, D::convert_accum_to_float_avx2, L::simd::get_convert_func()}) { f(dim, u.p, sumq, o.p); add(c, dim); }
    for (auto f : {D::appro_dist_impl_generic, D::appro_dist_impl_avx512, D::appro_dist_impl_avx2, L::simd::get_appro_dist_func()}) { f(dim, float(y), float(w), float(vl), float(sr), pr.p, pt.p, pd.p, pv.p, o.p); add(g, dim); }
    for (auto f : {D::rotate_loop_generic, D::rotate_loop_avx512, D::rotate_loop_avx2, L::simd::get_rotate_loop_func()}) { auto n = f(pr.p, pt.p, dim, o.p); add(m, n); }
    e.list("acc", acc).num("sumq", sumq).num("y", y).num("w", w).num("vl", vl).num("sr", sr).list("t", t).list("dq", dq).list("vq", vq).list("res", res).raw("conv", c + "]").raw("est", g + "]").raw("scaled", m + "]");
  }
  out(e);
}
int main(int argc, char **argv) { return loop(argc, argv, [](const Args &, const std::string &) { out(Ev("reset")); }, op); }
