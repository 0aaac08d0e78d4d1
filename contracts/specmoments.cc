// tools/specmoments: moments of raw binned spectra
#include "vp.h"
//@ opts: candlin=1
//@ moments_tool: nativeonly=1 trials=3000
//@ flags: -fno-strict-return
//@ moments_merge: candlin=2 deadline=500
#include <map>
#include <vector>
#include <cmath>
#include <cfloat>
#include <algorithm>
#include "outrec.h"
#define main tool_main
#include "specmoments/specmoments.cc"
#undef main
#undef cout
#include "rawspec.h"
static void input() {
  vfreq = vp_vec<double>("vfreq", 0); vspec = vp_vec_n<double>("vspec", vfreq.size()); nr_spec = vfreq.size();
  verbose = vp_bool("verbose"); vp_out.n = 0;
}
static double pw(double x, int k) { return k == 0 ? 1 : k == 1 ? x : k == 2 ? x * x : k == 3 ? x * x * x : x * x * x * x; }
static double msum(int j, int k, double c) { return vp_sum(0, j, [&](int i) { return vspec[i] * pw(vfreq[i] - c, k); }); }
static double rsum(int j, int k) { return vp_sum(0, j, [&](int i) { return vspec[i] * pw(vfreq[i], k); }); }
static double mag(int k, double c) { return vp_sum(0, (int)nr_spec, [&](int i) { return fabs(vspec[i]) * pw(fabs(vfreq[i]) + fabs(c), k); }); }
VP_CONTRACT(moments_raw) {
  input();
  const int n = nr_spec;
  vp_candidate([&](int j) { return 0 <= j && j <= n; }, "range");
  vp_candidate([&](int j, double v) { return v == rsum(j, 0); }, "m0"); vp_candidate([&](int j, double v) { return v == rsum(j, 1); }, "m1");
  vp_candidate([&](int j, double v) { return v == rsum(j, 2); }, "m2"); vp_candidate([&](int j, double v) { return v == rsum(j, 3); }, "m3");
  vp_candidate([&](int j, double v) { return v == rsum(j, 4); }, "m4");
  moments();
  vp_assert(vp_out.n == 5, "five-moments");
  vp_assert_near(vp_out.v[0], rsum(n, 0), mag(0, 0), "zeroth-moment");
  vp_assert_near(vp_out.v[1], rsum(n, 1), mag(1, 0), "first-moment");
  vp_assert_near(vp_out.v[2], rsum(n, 2), mag(2, 0), "second-moment");
  vp_assert_near(vp_out.v[3], rsum(n, 3), mag(3, 0), "third-moment");
  vp_assert_near(vp_out.v[4], rsum(n, 4), mag(4, 0), "fourth-moment");
}
VP_CONTRACT(moments_central) {
  input(); verbose = false;
#ifndef VP_SYM
  for (auto &x : vspec) x = fabs(x);
#endif
  const int n = nr_spec;
  const double m0 = rsum(n, 0);
  vp_assume(m0 > 0);
  const double mu = rsum(n, 1) / m0;
  vp_candidate([&](int j) { return 0 <= j && j <= n; }, "range");
  vp_candidate([&](int j, double v) { return v == rsum(j, 0); }, "m0"); vp_candidate([&](int j, double v) { return v == rsum(j, 1); }, "m1");
  vp_candidate([&](int j, double v) { return v == msum(j, 2, mu); }, "c2"); vp_candidate([&](int j, double v) { return v == msum(j, 3, mu); }, "c3");
  vp_candidate([&](int j, double v) { return v == msum(j, 4, mu); }, "c4");
  central_moments();
  vp_assert(vp_out.n == 5, "five-central-moments");
  vp_assert_near(vp_out.v[0], m0, mag(0, 0), "weight");
  vp_assert_near(vp_out.v[1], rsum(n, 1), mag(1, 0), "first-raw-moment");
  vp_assert_near(vp_out.v[2], msum(n, 2, mu) / m0, mag(2, mu) / m0, "variance");
  vp_assert_near(vp_out.v[3], msum(n, 3, mu) / m0, mag(3, mu) / m0, "third-central-moment");
  vp_assert_near(vp_out.v[4], msum(n, 4, mu) / m0, mag(4, mu) / m0, "fourth-central-moment");
}
VP_CONTRACT(moments_filter) {
  input();
  filterlow = vp_real("low"); filterhigh = vp_real("high"); posonly = vp_bool("pos"); negonly = vp_bool("neg");
  vp_assume(nr_spec > 0);
  const int k = vp_int_in("k", 0, (int)nr_spec - 1);
  const double w = vfreq[k], s = vspec[k];
  const bool drop = fabs(w) < filterlow || fabs(w) > filterhigh || (w < 0 && posonly) || (w > 0 && negonly);
  vp_candidate([&](int j) { return vspec[k] == (j <= k ? s : drop ? 0 : s); }, "done");
  filter();
  vp_assert(vspec[k] == (drop ? 0 : s), "kept-or-dropped");
  vp_assert(vfreq[k] == w, "frequencies-unchanged");
}
VP_CONTRACT(moments_merge) {
  verbose = false; vp_out.n = 0; spec.clear(); vfreq.clear(); vspec.clear();
  Nz = vp_int_in("Nz", 1, 1000);
  nrcol = vp_int_in("nrcol", 1, 2); col = vp_int_in("col", 1, nrcol);
  buffers = vp_vec_n<vector<double>>("buf", Nz + 1);
  sizes = vp_vec_n<int>("sizes", Nz + 1);
  const int rows = 1 + nrcol;
#ifndef VP_SYM
  for (int i = 0; i <= Nz; i++) { sizes[i] = abs(sizes[i]); vp_setlen(buffers[i], rows * sizes[i]); }
#endif
  vp_assume(vp_forall(1, Nz + 1, [&](int i) { return 0 <= sizes[i] && sizes[i] <= 100000000 && (int)buffers[i].size() == rows * sizes[i]; }));
  auto g = [](double w) { return vp_uf1("g", w); };
  auto part = [&](int i, int l) { return vp_sum(0, l, [&](int j) { return buffers[i][rows * j + col] * g(buffers[i][rows * j]); }); };
  auto msum = [&]() { return vp_sum(0, (int)spec.size(), [&](int j) { return vp_mapval(spec, j) * g(vp_mapkey(spec, j)); }); };
  auto tot = [&](int i) { return vp_sum(1, i, [&](int a) { return part(a, sizes[a]); }); };
  vp_candidate([&](int i) { return msum() == tot(i); }, "outer");
  vp_candidate([&](long i, int l) { return 0 <= l && msum() == tot(i) + part(i, l); }, "inner");
  vp_candidate([&](long i, int l) { return l <= sizes[i]; }, "inner-bound");
  vp_candidate([&](int k) { return 0 <= k && k == (int)vspec.size() && k <= (int)spec.size() && vp_forall(0, k, [&](int j) { return vspec[j] == vp_mapval(spec, j); }); }, "vspec");
  vp_candidate([&](int k) { return 0 <= k && k == (int)vfreq.size() && vp_forall(0, k, [&](int j) { return vfreq[j] == vp_mapkey(spec, j); }); }, "vfreq");
  auto out = [&](int k) { return vp_sum(0, k, [&](int j) { return Nz * vspec[j] * g(vfreq[j]); }); };
  auto mpre = [&](int k) { return vp_sum(0, k, [&](int j) { return vp_mapval(spec, j) * g(vp_mapkey(spec, j)); }); };
  vp_candidate([&](int k) { return 0 <= k && k == (int)vspec.size() && out(k) + mpre((int)spec.size()) - mpre(k) == tot(Nz + 1); }, "scaled");
  merge();
  vp_assert(vfreq.size() == vspec.size(), "equal-lengths");
  const int n = vfreq.size();
  const int k = vp_int("k");
  if (0 <= k && k + 1 < n) vp_assert(vfreq[k] < vfreq[k + 1], "distinct-increasing-frequencies");
  vp_assert_near(out(n), tot(Nz + 1), vp_sum(1, Nz + 1, [&](int i) { return vp_sum(0, sizes[i], [&](int j) { return fabs(buffers[i][rows * j + col] * g(buffers[i][rows * j])); }); }), "weight-conserved");
}
VP_CONTRACT(moments_tool) {
#ifndef VP_SYM
  spec.clear(); vfreq.clear(); vspec.clear(); buffers.clear(); sizes.clear(); one = posonly = negonly = central = verbose = false; filterlow = 0; filterhigh = DBL_MAX; nrcol = col = 1; vp_out.n = 0;
  const int nz = tio::pick(1, 3); const bool flat = nz == 1 && tio::coin();
  const auto r = raw_spectra("in.dat", nz, 1, 1, flat);
  vector<string> av = {"specmoments"}; if (flat) av.push_back("-o");
  double lo = 0, hi = 1e300; const int sgn = tio::pick(-1, 1);
  if (tio::coin()) { lo = tio::pick(0, 20) / 8.0; av.push_back("-l"); av.push_back(to_string(lo)); }
  if (tio::coin()) { hi = tio::pick(20, 60) / 8.0; av.push_back("-h"); av.push_back(to_string(hi)); }
  if (sgn) av.push_back(sgn > 0 ? "-p" : "-n");
  double m[5] = {}, c[5] = {};
  for (auto &[e, v] : r.avg) if (fabs(e) >= lo && fabs(e) <= hi && (sgn >= 0 || e <= 0) && (sgn <= 0 || e >= 0)) for (int k = 0; k < 5; k++) m[k] += v * (k ? pow(e, k) : 1);
  const bool cen = fabs(m[0]) > 0.05 && tio::coin(); if (cen) av.push_back("-c");
  const double mu = m[1] / m[0]; double mag = r.mag * pow(8, 4);
  if (cen) {
    for (auto &[e, v] : r.avg) if (fabs(e) >= lo && fabs(e) <= hi && (sgn >= 0 || e <= 0) && (sgn <= 0 || e >= 0)) for (int k = 2; k < 5; k++) c[k] += v * pow(e - mu, k) / m[0];
    for (int k = 2; k < 5; k++) m[k] = c[k];
    mag = r.mag * pow(8 + fabs(mu), 4) / fabs(m[0]) + 1;
  }
  for (auto &x : {string("in.dat"), to_string(nz)}) av.push_back(x);
  tio::Args a(av);
  tool_main(a.argc(), a.argv());
  bool ok = vp_out.n >= 5;
  for (int k = 0; k < 5 && ok; k++) ok = tio::close(vp_out.v[vp_out.n - 5 + k], m[k], mag + 1);
  vp_assert(vp_out.n >= 5, "five-numbers-printed");
  vp_assert(ok, "moments-of-the-filtered-average");
#endif
}
