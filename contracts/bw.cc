// tools/bw: adaptive broadening
#include "vp.h"
//@ opts: candlin=2 trials=5000
//@ bw_steps: nativeonly=1 trials=20000
//@ bw_refine: nativeonly=1 trials=20000
//@ bw_tool: nativeonly=1 trials=2000
//@ flags: -fno-access-control -fno-strict-return -DVERSION=\"x\"
#define VP_NO_RECORD
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include <cassert>
#include <cfloat>
#include <cstdlib>
#include <utility>
#include <stdexcept>
#include <limits>
#include <unistd.h>
#include <getopt.h>
#include "outrec.h"
#include "toolio.h"
#define main tool_main
#include "bw/bw.cc"
#undef main
#undef cout
// the kernel: a modified log-Gaussian of the ratio of the two frequencies
static double kernel(double E, double alpha, double w) {
  const double t = std::log(E / w) / alpha - alpha / 4; return std::exp(-t * t) / (alpha * fabs(E) * std::sqrt(M_PI));
}
[[gnu::used]] static double vp_callee_bfnc(double E, double alpha, double w) { vp_assert((E > 0 && w > 0) || (E < 0 && w < 0), "kernel-used-on-one-side-of-zero"); return vp_uf2("kernel", vp_uf2("pair", E, alpha), w); }
static double kern(double E, double alpha, double w) {
#ifdef VP_SYM
  return vp_uf2("kernel", vp_uf2("pair", E, alpha), w);
#else
  return kernel(E, alpha, w);
#endif
}
#ifndef VP_SYM
static double rnd(int a, int b) { return tio::pick(a, b) / 8.0; }
static std::vector<double> signed_mesh(int n, bool zero = false) { std::vector<double> m; double x = rnd(1, 4); for (int k = 0; k < n; k++) { m.push_back(x); m.push_back(-x); x += rnd(1, 8); } if (zero) m.push_back(0); std::sort(m.begin(), m.end()); return m; }
#endif
VP_CONTRACT(bw_kernel) {
  double E = vp_real("E"), w = vp_real("w"), al = vp_real("alpha");
#ifndef VP_SYM
  E = rnd(1, 40) * (tio::coin() ? 1 : -1); w = rnd(1, 40) * (E < 0 ? -1 : 1); al = rnd(1, 8);
#endif
  vp_assume(al > 0 && E / w > 0);
  vp_assume(E > 0 || E < 0);
  const double k = kernel(E, al, w);
  vp_assert_near(bfnc(E, al, w), k, fabs(k), "log-gaussian");
}
// every output frequency collects the weights of the peaks on its side of zero
VP_CONTRACT(bw_broadening) {
  mesh.clear();
#ifdef VP_SYM
  const int n = vp_int_in("n", 1, 1000000), m = vp_int_in("m", 1, 1000000);
  vp_use_contract("bfnc");
  mesh = vp_vec_n<double>("mesh", m); vfreq = vp_vec_n<double>("freq", n); vspec = vp_vec_n<double>("weight", n); b = vp_vec_n<double>("b", n);
  vp_assume(vp_forall(0, m, [&](int i) { return bool((mesh[i] > 0) | (mesh[i] < 0)); }) && vp_forall(0, n, [&](int i) { return bool((vfreq[i] > 0) | (vfreq[i] < 0)); }));
#else
  mesh = signed_mesh(tio::pick(1, 5)); vfreq = signed_mesh(tio::pick(1, 3)); const int n = vfreq.size(), m = mesh.size(); vspec.clear(); b.clear();
  for (int j = 0; j < n; j++) { vspec.push_back(tio::grid()); b.push_back(rnd(1, 8)); }
#endif
  enforce_positivity = vp_bool("positive"); veryverbose = false; verbose = false; nr_spec = n; a.clear();
  const auto A = [&](int i, int k) { return vp_sum(0, k, [&](int j) { return (mesh[i] < 0) == (vfreq[j] < 0) ? vspec[j] * kern(mesh[i], b[j], vfreq[j]) : 0.0; }); };
  vp_candidate([&](int j, long i) { return vp_eq(a[i], A(i, j)); }, "partial-sum");
  vp_candidate([&](int, long i) { return vp_forall(0, i, [&](int k) { const double s = A(k, n); return bool(vp_eq(a[k], s) | (enforce_positivity & (s < 0))); }); }, "kept");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int k) { const double s = A(k, n); return bool(vp_eq(a[k], s) | (enforce_positivity & (s < 0))); }); }, "done");
  broaden(mesh, a, b);
  vp_assert((int)a.size() == m, "one-value-per-frequency");
  const int i = vp_int_in("i", 0, m - 1); const double s = A(i, n);
  vp_split(enforce_positivity);
  if (!enforce_positivity) vp_assert_near(a[i], s, vp_sum(0, n, [&](int j) { return fabs(vspec[j]); }), "sum-of-broadened-peaks");
}
// the integrated function, from the left
VP_CONTRACT(bw_integral) {
#ifdef VP_SYM
  const int m = vp_int_in("m", 1, 1000000);
  mesh = vp_vec_n<double>("mesh", m); a = vp_vec_n<double>("a", m);
  vp_assume(vp_forall(1, m, [&](int i) { return mesh[i] > mesh[i - 1]; }));
#else
  mesh = signed_mesh(tio::pick(1, 5)); const int m = mesh.size(); a.clear(); for (int k = 0; k < m; k++) a.push_back(tio::grid());
#endif
  verbose = false; inta.clear();
  const auto T = [&](int k) { return vp_sum(1, k, [&](int j) { return (a[j] + a[j - 1]) * (mesh[j] - mesh[j - 1]) / 2; }); };
  vp_candidate([&](int i, double s) { return vp_eq(s, T(i)); }, "sum");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int k) { return vp_eq(inta[k], T(k + 1)); }); }, "values");
  integrate_a(a, mesh, inta);
  vp_assert((int)inta.size() == m, "one-value-per-point");
  const int i = vp_int_in("i", 0, m - 1);
  vp_assert_near(inta[i], T(i + 1), 1 + vp_sum(1, i + 1, [&](int j) { return fabs(a[j] + a[j - 1]) * (mesh[j] - mesh[j - 1]); }), "trapezoid-integral");
}
// broadening widths from the logarithmic derivatives
VP_CONTRACT(bw_widths) {
#ifdef VP_SYM
  const int n = vp_int_in("n", 1, 1000000);
  const vec d1 = vp_vec_n<double>("d1", n), d2 = vp_vec_n<double>("d2", n);
#else
  const int n = tio::pick(1, 6); vec d1, d2; for (int k = 0; k < n; k++) { d1.push_back(tio::grid()); d2.push_back(tio::grid()); }
#endif
  q = vp_real("q"); b0 = vp_real("b0");
#ifndef VP_SYM
  q = rnd(1, 16); b0 = rnd(1, 8);
#endif
  vp_assume(q > 0 && b0 > 0);
  vec bb;
  const auto W = [&](int k) { return b0 * (q * (1 / (q + fabs(d1[k])) + 1 / (q + fabs(d2[k]))) / 2); };
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int k) { return vp_eq(bb[k], W(k)); }); }, "values");
  calc_b(d1, d2, bb);
  vp_assert((int)bb.size() == n, "one-width-per-point");
  const int i = vp_int_in("i", 0, n - 1);
  vp_assert_near(bb[i], W(i), b0, "width");
}
VP_CONTRACT(bw_steps) {
#ifndef VP_SYM
  { // negative values replaced when asked for
    mesh = signed_mesh(tio::pick(1, 5)); vfreq = signed_mesh(tio::pick(1, 3)); const int n = vfreq.size(), m = mesh.size(); vspec.clear(); b.clear(); a.clear();
    for (int j = 0; j < n; j++) { vspec.push_back(tio::grid()); b.push_back(rnd(1, 8)); }
    enforce_positivity = true; veryverbose = verbose = false; nr_spec = n; broaden(mesh, a, b); enforce_positivity = false; bool ok = true;
    for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) if ((mesh[i] < 0) == (vfreq[j] < 0)) t += vspec[j] * kernel(mesh[i], b[j], vfreq[j]); ok = ok && (t < -1e-12 ? a[i] == 1e-16 : (a[i] >= 0 && (fabs(t) < 1e-12 || tio::close(a[i], t)))); }
    vp_assert(ok, "positivity");
  }
  // merging of the runs: equal frequencies collected, average over the runs
  Nz = tio::pick(1, 4); buffers.assign(Nz + 1, {}); sizes.assign(Nz + 1, 0); spec.clear(); vfreq.clear(); vspec.clear(); verbose = false;
  std::vector<std::pair<double, double>> all;
  for (int i = 1; i <= Nz; i++) { sizes[i] = tio::pick(0, 5); for (int l = 0; l < sizes[i]; l++) { const double f = tio::pick(-6, 6), v = tio::grid(); buffers[i].push_back(f); buffers[i].push_back(v); all.push_back({f, v}); } }
  merge(); bool ok = vfreq.size() == vspec.size() && nr_spec == vfreq.size() && std::is_sorted(vfreq.begin(), vfreq.end()); size_t seen = 0;
  for (size_t k = 0; k < vfreq.size(); k++) { double s = 0; int c = 0; for (auto &p : all) if (p.first == vfreq[k]) { s += p.second; c++; } seen += c; ok = ok && c > 0 && tio::close(vspec[k], s / Nz) && (!k || vfreq[k] > vfreq[k - 1]); }
  vp_assert(ok && seen == all.size(), "average-over-runs");
  // the mesh: symmetric, logarithmic, up to beyond the largest frequency
  broaden_min = rnd(1, 8) / 16; broaden_max = broaden_min * (2 + rnd(0, 100)); broaden_ratio = 1 + rnd(1, 8) / 4; mesh.clear(); make_mesh(mesh);
  const int m = mesh.size(); ok = m >= 4 && m % 2 == 0; for (int k = 0; ok && k < m / 2; k++) { ok = mesh[k] == -mesh[m - 1 - k] && mesh[k] < 0; if (k >= 2) ok = ok && tio::close(mesh[k - 1] / mesh[k], broaden_ratio); }
  vp_assert(ok && mesh[m / 2] == broaden_min && mesh[m - 1] >= broaden_max && mesh[m - 2] < broaden_max * (1 + 1e-12), "logarithmic-mesh");
  // integrals from zero and from the right
  vec ia, ib, ic; double s = 0; for (int k = 0; k < m; k++) ia.push_back(s += rnd(0, 16));
  combinations(mesh, ia, ib, ic); ok = ib.size() == (size_t)m && ic.size() == (size_t)m; const double mid = (ia[m / 2 - 1] + ia[m / 2]) / 2;
  for (int k = 0; ok && k < m; k++) ok = tio::close(ib[k], ia[k] - mid) && tio::close(ic[k], ia[m - 1] - ia[k]);
  vp_assert(ok, "integrals-from-zero-and-from-the-right");
  // logarithmic derivatives, zero where undefined
  vec f, d; for (int k = 0; k < m; k++) f.push_back(tio::pick(0, 5) ? tio::grid(10) : 0.0);
  calc_deriv(f, d); ok = d.size() == (size_t)m && d[0] == 0;
  for (int k = 1; ok && k < m; k++) { const double r = f[k] / f[k - 1], l = std::log(std::fabs(mesh[k] / mesh[k - 1])); const double e = std::isfinite(r) && r > 0 && l != 0 ? std::log(r) / l : 0; ok = tio::close(d[k], e); }
  vp_assert(ok, "logarithmic-derivatives");
  // widths at the positions of the peaks: from the side of zero of each peak, not below the minimum
  vec bp, bn; for (int k = 0; k < m; k++) { bp.push_back(rnd(1, 40)); bn.push_back(rnd(1, 40)); }
  vfreq.clear(); const int n = tio::pick(1, 6); for (int k = 0; k < n; k++) vfreq.push_back(tio::grid() * broaden_max / 4); if (tio::coin()) std::sort(vfreq.begin(), vfreq.end()); nr_spec = n; vspec.assign(n, 1); bmin = rnd(0, 10); b.assign(n, 1);
  recalc_b(mesh, bp, bn, b); ok = true;
  for (int k = 0; k < n; k++) ok = ok && tio::close(b[k], std::max(bmin, tio::linear(mesh, vfreq[k] < 0 ? bn : bp, vfreq[k])));
  vp_assert(ok, "widths-at-the-peaks");
#endif
}
VP_CONTRACT(bw_refine) {
#ifndef VP_SYM
  vec m = signed_mesh(tio::pick(3, 8)), y; for (size_t k = 0; k < m.size(); k++) y.push_back(rnd(1, 40)); dyn_mesh = rnd(1, 16);
  const vec old = m; refine_mesh(m, y); const int n = old.size();
  std::vector<double> want = old;
  const auto mid = [&](int i, int j) { want.push_back((old[i] < 0 ? -1 : 1) * std::sqrt(old[i] * old[j])); };
  mid(0, 1); mid(n - 1, n - 2);
  for (int i = 2; i < n && old[i] < 0; i++) { const double p = y[i - 1] + (y[i - 1] - y[i - 2]) / (old[i - 1] - old[i - 2]) * (old[i] - old[i - 1]); if (std::fabs(y[i] - p) > dyn_mesh * y[i] * (1 + 1e-12)) mid(i - 1, i); else if (std::fabs(y[i] - p) > dyn_mesh * y[i] * (1 - 1e-12)) return; }
  for (int i = n - 3; i > 0 && old[i] > 0; i--) { const double p = y[i + 1] + (y[i + 2] - y[i + 1]) / (old[i + 2] - old[i + 1]) * (old[i] - old[i + 1]); if (std::fabs(y[i] - p) > dyn_mesh * y[i] * (1 + 1e-12)) mid(i, i + 1); else if (std::fabs(y[i] - p) > dyn_mesh * y[i] * (1 - 1e-12)) return; }
  std::sort(want.begin(), want.end()); bool ok = want.size() == m.size(); for (size_t k = 0; ok && k < want.size(); k++) ok = tio::close(want[k], m[k], 0);
  vp_assert(ok, "points-added-where-the-prediction-fails");
#endif
}
VP_CONTRACT(bw_tool) {
#ifndef VP_SYM
  // whole tool, one iteration: the broadened average; several: weight kept
  const int nz = tio::pick(1, 3), it = tio::pick(1, 3); const bool single = nz == 1 && tio::coin(); std::map<double, double> peaks;
  for (int i = 1; i <= nz; i++) { std::vector<double> raw; const int n = tio::pick(2, 5); for (int k = 0; k < n; k++) { const double f = (tio::coin() ? 1 : -1) * std::pow(2, -tio::pick(0, 4)), v = rnd(1, 16); raw.push_back(f); raw.push_back(v); peaks[f] += v / nz; } if (single) tio::binary("raw.bin", raw); else { tio::dir(std::to_string(i)); tio::binary(std::to_string(i) + "/raw.bin", raw); } }
  spec.clear(); vfreq.clear(); vspec.clear(); mesh.clear(); a.clear(); b.clear(); buffers.clear(); sizes.clear(); bmin = -999; trim = -999; q = 1; dyn_mesh = -999; enforce_positivity = savemore = saveall = one = verbose = veryverbose = false; broaden_min = 1e-7; broaden_max = 2; broaden_ratio = 1.01; nr_iter = 10;
  std::vector<std::string> av{"bw", "-m", "0.001", "-M", "20", "-r", "1.05", "-n", std::to_string(it)}; if (single) av.push_back("-o"); const bool tr = tio::coin(); if (tr) { av.push_back("-t"); av.push_back("0.1"); }
  av.insert(av.end(), {"raw.bin", "0.5", std::to_string(nz)}); tio::Args A(av); std::remove(("a" + std::to_string(it) + ".dat").c_str());
  std::ostringstream o, e; auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf()); tool_main(A.argc(), A.argv()); std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
  vp_assert(e.str().find("error") == std::string::npos, "tool-succeeds");
  const auto t = tio::read_table("a" + std::to_string(it) + ".dat"); vp_assert(t.size() > 20, "spectrum-written");
  bool ok = true; double w = 0, sum = 0; for (auto &p : peaks) sum += p.second;
  for (size_t k = 0; k < t.size(); k++) { if (tr) ok = ok && std::fabs(t[k][0]) >= 0.1; else ok = ok && std::fabs(t[k][0]) >= 0.01; }
  vp_assert(ok, "low-frequencies-trimmed");
  if (it == 1) { for (auto &r : t) { double s = 0; for (auto &p : peaks) if ((p.first < 0) == (r[0] < 0)) s += p.second * kernel(r[0], 0.5, p.first); ok = ok && std::fabs(s - r[1]) <= 1e-4 * s + 1e-6; } vp_assert(ok, "broadened-average"); }
  for (size_t k = 1; k < t.size(); k++) if (t[k][0] * t[k - 1][0] > 0) w += (t[k][1] + t[k - 1][1]) / 2 * (t[k][0] - t[k - 1][0]);
  if (!tr) vp_assert(std::fabs(w - sum) < 0.02 * sum, "weight-kept");
#endif
}
