// tools/mats: Matsubara-frequency Green's function from raw binned spectra
#include "vp.h"
//@ opts: candlin=1
//@ mats_merge: candlin=2 deadline=500
//@ mats_compute: candlin=2
//@ mats_tool: nativeonly=1 trials=3000
//@ flags: -fno-strict-return
#define main tool_main
#include "mats/mats.cc"
#undef main
using namespace std;
#include "rawspec.h"

// the Matsubara frequencies
VP_CONTRACT(mats_omegan) {
  T = vp_pos("T");
  const int n = vp_int_in("n", 0, 1000000000);
  const bool fermi = vp_bool("fermi");
  particle_stat = fermi ? 'f' : 'b';
  const double w = omegan(n);
  vp_assert_eq(w, fermi ? M_PI * T * (2.0 * n + 1.0) : M_PI * T * 2.0 * n, "matsubara-frequency");
  const cmpl z = iomegan(n);
  vp_assert_eq(z.real(), 0, "purely-imaginary");
  vp_assert_eq(z.imag(), w, "imaginary-part");
}
VP_CONTRACT(mats_mesh) {
  T = vp_pos("T");
  particle_stat = 'f';
  nrmats = vp_int_in("nrmats", 1, 1000000000);
  cvec m;
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int k) { return m[k].real() == 0 && m[k].imag() == M_PI * T * (2.0 * k + 1.0); }); }, "entries");
  make_mesh(m);
  vp_assert((int)m.size() == nrmats, "one-entry-per-frequency");
  const int k = vp_int_in("k", 0, nrmats - 1);
  vp_assert_eq(m[k].real(), 0, "entry-re");
  vp_assert_eq(m[k].imag(), M_PI * T * (2.0 * k + 1.0), "entry-im");
}
// spectral sum at every mesh point
VP_CONTRACT(mats_compute) {
  vfreq = vp_vec<double>("vfreq", 0); vspec = vp_vec_n<double>("vspec", vfreq.size());
  nr_spec = vfreq.size();
  cvec m = vp_vec<complex<double>>("mesh", 1);
#ifndef VP_SYM
  for (auto &z : m) z = {z.real(), z.imag() == 0 ? 1 : fabs(z.imag())};
#endif
  const int nm = m.size();
  vp_assume(vp_forall(0, nm, [&](int k) { return m[k].imag() > 0; }));
  cvec g;
  const int n = nr_spec;
  const int i = vp_int_in("i", 0, nm - 1);
  const double x = m[i].real(), y = m[i].imag();
  auto re = [&](int j) { return (vspec[j] * (x - vfreq[j])) / ((x - vfreq[j]) * (x - vfreq[j]) + y * y); };
  auto im = [&](int j) { return (-(vspec[j] * y)) / ((x - vfreq[j]) * (x - vfreq[j]) + y * y); };
  vp_candidate([&](int a) { return a <= i || g[i].real() == vp_sum(0, n, re); }, "re-done");
  vp_candidate([&](int a) { return a <= i || g[i].imag() == vp_sum(0, n, im); }, "im-done");
  vp_candidate([&](long a, int b) { return a != i || g[i].real() == vp_sum(0, b, re); }, "re-partial");
  vp_candidate([&](long a, int b) { return a != i || g[i].imag() == vp_sum(0, b, im); }, "im-partial");
  compute(m, g);
  vp_assert((int)g.size() == nm, "one-value-per-point");
  vp_assert_near(g[i].real(), vp_sum(0, n, re), vp_sum(0, n, [&](int j) { return fabs(re(j)) + fabs(im(j)); }), "real-part");
  vp_assert_near(g[i].imag(), vp_sum(0, n, im), vp_sum(0, n, [&](int j) { return fabs(re(j)) + fabs(im(j)); }), "imaginary-part");
}
// merging of the Nz raw spectra: distinct ordered frequencies, and for every test function the weighted sum is the average
VP_CONTRACT(mats_merge) {
  spec.clear(); vfreq.clear(); vspec.clear();
  Nz = vp_int_in("Nz", 1, 1000);
  nrcol = vp_int_in("nrcol", 1, 2); col = vp_int_in("col", 1, nrcol);
  buffers = vp_vec_n<vector<double>>("buf", Nz + 1);
  sizes = vp_vec_n<int>("sizes", Nz + 1);
  const int rows = 1 + nrcol;
#ifndef VP_SYM
  for (int i = 0; i <= Nz; i++) { sizes[i] = abs(sizes[i]); vp_setlen(buffers[i], rows * sizes[i]); }
#endif
  vp_assume(vp_forall(1, Nz + 1, [&](int i) { return 0 <= sizes[i] && sizes[i] <= 100000000 && (int)buffers[i].size() == rows * sizes[i]; }));
  auto g = [](double w) { return vp_uf1("g", w); };
  auto part = [&](int i, int l) { return vp_sum(0, l, [&](int j) { return buffers[i][rows * j + col] * g(buffers[i][rows * j]); }); };
  auto msum = [&]() { return vp_sum(0, (int)spec.size(), [&](int j) { return vp_mapval(spec, j) * g(vp_mapkey(spec, j)); }); };
  auto tot = [&](int i) { return vp_sum(1, i, [&](int a) { return part(a, sizes[a]); }); };
  vp_candidate([&](int i) { return msum() == tot(i); }, "outer");
  vp_candidate([&](long i, int l) { return 0 <= l && msum() == tot(i) + part(i, l); }, "inner");
  vp_candidate([&](long i, int l) { return l <= sizes[i]; }, "inner-bound");
  vp_candidate([&](int k) { return 0 <= k && k == (int)vspec.size() && k <= (int)spec.size() && vp_forall(0, k, [&](int j) { return vspec[j] == vp_mapval(spec, j); }); }, "vspec");
  vp_candidate([&](int k) { return 0 <= k && k == (int)vfreq.size() && vp_forall(0, k, [&](int j) { return vfreq[j] == vp_mapkey(spec, j); }); }, "vfreq");
  auto out = [&](int k) { return vp_sum(0, k, [&](int j) { return Nz * vspec[j] * g(vfreq[j]); }); };
  auto mpre = [&](int k) { return vp_sum(0, k, [&](int j) { return vp_mapval(spec, j) * g(vp_mapkey(spec, j)); }); };
  vp_candidate([&](int k) { return 0 <= k && k == (int)vspec.size() && out(k) + mpre((int)spec.size()) - mpre(k) == tot(Nz + 1); }, "scaled");
  merge();
  vp_assert(vfreq.size() == vspec.size(), "equal-lengths");
  const int n = vfreq.size();
  const int k = vp_int("k");
  if (0 <= k && k + 1 < n) vp_assert(vfreq[k] < vfreq[k + 1], "distinct-increasing-frequencies");
  vp_assert_near(out(n), tot(Nz + 1), vp_sum(1, Nz + 1, [&](int i) { return vp_sum(0, sizes[i], [&](int j) { return fabs(buffers[i][rows * j + col] * g(buffers[i][rows * j])); }); }), "weight-conserved");
}
// the whole tool: options, columns, files
VP_CONTRACT(mats_tool) {
#ifndef VP_SYM
  spec.clear(); vfreq.clear(); vspec.clear(); buffers.clear(); sizes.clear(); mesh.clear(); G.clear(); one = false; nrcol = col = 1; particle_stat = 'f'; name = "";
  const int nz = tio::pick(1, 3), opt = tio::pick(1, 3), nm = tio::pick(1, 4); const bool flat = nz == 1 && tio::coin();
  const double t = tio::pick(1, 20) / 4.0;
  const auto r = raw_spectra("in.dat", nz, opt == 1 ? 1 : 2, opt == 3 ? 2 : 1, flat);
  vector<string> av = {"mats"}; if (flat) av.push_back("-o"); if (opt > 1) av.push_back(opt == 2 ? "-2" : "-3");
  for (auto &x : {string("in.dat"), to_string(nz), to_string(t), to_string(nm)}) av.push_back(x);
  tio::Args a(av);
  { std::ostringstream sink; auto *b = cout.rdbuf(sink.rdbuf()); tool_main(a.argc(), a.argv()); cout.rdbuf(b); }
  const auto g = tio::read_table("spec.dat");
  bool shape = (int)g.size() == nm, val = true;
  for (int i = 0; i < nm && shape; i++) {
    shape = shape && g[i].size() == 3; if (!shape) break;
    const double w = M_PI * t * (2 * i + 1);
    complex<double> z = 0; for (auto &[e, v] : r.avg) z += v / (complex<double>(0, w) - e);
    val = val && tio::close(g[i][0], w) && tio::close(g[i][1], z.real(), r.mag) && tio::close(g[i][2], z.imag(), r.mag);
  }
  vp_assert(shape, "one-line-per-frequency");
  vp_assert(val, "average-spectral-sum");
#endif
}
