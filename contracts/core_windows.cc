// patching of the spectra of consecutive NRG steps (c++/spectrum.hpp, c++/step.hpp, c++/params.hpp)
//@ flags: -fno-access-control
//@ opts: candlin=1
#include "vp.h"
#include "core.h"
#include "step.hpp"
#include "spectrum.hpp"
using namespace NRG;
using namespace std;
using W = complex<double>;
using Peak = pair<double, W>;
using B = Bins<double>;
static Params &params() {
  Params &P = vp_params();
  P.emin = 1e-4; P.emax = 10.; P.bins = 2; P.accumulation = 0.0; P.discard_immediately = 0.0;
  P.Ninit = 0; P.Nmax = 10; P.channels = 1; P.absolute = false; P.NN1 = false; P.NN2even = true; P.NN2avg = false; P.NNtanh = 0.0; P.substeps = false;
  P.Lambda = 2.0; P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.goodE = 2.0; P.betabar = 1.0; P.T = 1e-3;
  return P;
}
static void window_params(Params &P, Step &st, int where) {
  // where: 0 = some intermediate step, 1 = the first, 2 = the last
  P.Ninit = (size_t)vp_int_in("Ninit", 0, 1000); P.Nmax = (size_t)vp_int_in("Nmax", 0, 1000);
#ifndef VP_SYM
  P.Nmax = P.Ninit.value() + 3 + vp::rng() % 5;
#endif
  vp_assume(P.Nmax > P.Ninit.value() + 2);
  int N = vp_int_in("N", 0, 1000);
#ifndef VP_SYM
  N = where == 1 ? P.Ninit.value() : where == 2 ? P.Nmax - 1 : P.Ninit.value() + 1 + N % (P.Nmax - P.Ninit.value() - 2);
#endif
  vp_assume(where == 1 ? N == (int)P.Ninit.value() : where == 2 ? N == (int)P.Nmax - 1 : N > (int)P.Ninit.value() && N < (int)P.Nmax - 1);
  st.set(N);
}
static double tanh_shape(double) { return vp_bool("linear") ? 0.0 : vp_pos("NNtanh"); }

// away from the ends of the chain: the windows of two consecutive patched steps, whose characteristic energies follow one another, add up to one
VP_CONTRACT(window_partition) {
  Params &P = params(); Step s1(P), s2(P);
  P.NNtanh = tanh_shape(0);
  window_params(P, s1, 0); s2.set(s1.get_trueN());
  const double e0 = vp_pos("E0"), e1 = e0 + vp_pos("d1"), e2 = e1 + vp_pos("d2"), e3 = e2 + vp_pos("d3");
  double E = vp_real("E");
#ifndef VP_SYM
  if (!(e1 < E && E < e2)) E = e1 + (e2 - e1) * fabs(E - floor(E));
#endif
  vp_assume(e1 < E && E < e2);
  const double lower = windowfunction(E, e1, e2, e3, s1, P), upper = windowfunction(E, e0, e1, e2, s2, P);
  vp_assert_eq(lower + upper, 1, "partition-of-unity");
  vp_assert(vp_le(0, lower) && vp_le(lower, 1) && vp_le(0, upper) && vp_le(upper, 1), "window-in-unit-interval");
}
// support and peak; at the two ends of the chain the window is flat outwards
VP_CONTRACT(window_ends) {
  Params &P = params(); Step st(P);
  P.NNtanh = tanh_shape(0);
  const int where = vp_bool("first") ? 1 : vp_bool("last") ? 2 : 0;
  window_params(P, st, where);
  const double a = vp_pos("Emin"), x = a + vp_pos("d1"), b = x + vp_pos("d2");
  const double E = vp_pos("E");
  const double w = windowfunction(E, a, x, b, st, P);
  vp_assert(vp_le(0, w) && vp_le(w, 1), "in-unit-interval");
  if (where == 2 && E <= x) vp_assert_eq(w, 1, "last-step-keeps-low-energies");
  else if (where == 1 && E >= x) vp_assert_eq(w, 1, "first-step-keeps-high-energies");
  else if (E <= a || E >= b) vp_assert_eq(w, 0, "zero-outside-window");
  if (E == x) vp_assert_eq(w, 1, "one-at-centre");
}
// linear window: the straight lines between the characteristic energies
VP_CONTRACT(window_linear) {
  Params &P = params(); Step st(P);
  window_params(P, st, 0);
  const double a = vp_pos("Emin"), x = a + vp_pos("d1"), b = x + vp_pos("d2");
  const double E = vp_pos("E");
  const double w = windowfunction(E, a, x, b, st, P);
  if (a < E && E <= x) vp_assert_eq(w, (E - a) / (x - a), "rising-line");
  if (x < E && E < b) vp_assert_eq(w, 1 - (E - x) / (b - x), "falling-line");
}
// which steps contribute
VP_CONTRACT(window_steps) {
  Params &P = params(); Step st(P);
  const int N = vp_int_in("N", 0, 100000); st.set(N);
  P.NN1 = vp_bool("NN1"); P.NN2avg = vp_bool("NN2avg"); P.NN2even = vp_bool("NN2even");
  Step nx(P); nx.set(N); nx.next();
  vp_assert(nx.get_trueN() == N + 1 && (int)nx.ndx() == N + 1, "next-step");
  if (P.NN1 || P.NN2avg) vp_assert(st.N_for_merging() && nx.N_for_merging(), "every-step");
  else {
    vp_assert(st.N_for_merging() != nx.N_for_merging(), "every-other-step");
    vp_assert(st.N_for_merging() == (P.NN2even.value() == (N % 2 == 0)), "parity");
  }
}
// one half-axis: each bin is increased by factor*weight*window of its energy, and nothing else changes
VP_CONTRACT(merge_half) {
  Params &P = params(); Step st(P);
  SpectrumRealFreq<double> sp("n", "a", "f", P);
  B cs(P);
  window_params(P, st, vp_int_in("where", 0, 2));
  P.absolute = true; P.channels = vp_int_in("channels", 1, 3); P.NN1 = vp_bool("NN1"); P.NN2avg = vp_bool("NN2avg");
  P.goodE = vp_pos("goodE"); P.Lambda = 1 + vp_pos("L");
  const int n = vp_int_in("n", 1, 100000);
  static_cast<std::vector<Peak> &>(sp.fspos.bins) = vp_vec_n<Peak>("full", n);
  static_cast<std::vector<Peak> &>(cs.bins) = vp_vec_n<Peak>("part", n);
  const std::vector<Peak> old = sp.fspos.bins, part = cs.bins;
  const double f = P.NN2avg ? 0.5 : 1.0, a = P.getEmin(), x = P.getEx(), b = P.getEmax();
  const auto win = [&](double E) { return windowfunction(E, a, x, b, st, P); };
  const int k = vp_int_in("k", 0, n - 1);
  const auto win2 = [&](int j) { return (a < part[j].first && part[j].first < b) ? f * win(part[j].first) : 0.0; };
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return sp.fspos.bins[j].second.real() == old[j].second.real() + win2(j) * part[j].second.real(); }); }, "done-re");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return sp.fspos.bins[j].second.imag() == old[j].second.imag() + win2(j) * part[j].second.imag(); }); }, "done-im");
  vp_candidate([&](int i) { return vp_forall(i, n, [&](int j) { return sp.fspos.bins[j].second.real() == old[j].second.real() && sp.fspos.bins[j].second.imag() == old[j].second.imag(); }); }, "rest");
  sp.mergeNN2half(sp.fspos, cs, st);
  vp_assert((int)sp.fspos.bins.size() == n, "same-grid-length");
  vp_assert_eq(sp.fspos.bins[k].first, old[k].first, "grid-points-untouched");
  const double w = (a < part[k].first && part[k].first < b) ? f * win(part[k].first) : 0.0;
  vp_assert_eq(sp.fspos.bins[k].second.real(), old[k].second.real() + w * part[k].second.real(), "windowed-re");
  vp_assert_eq(sp.fspos.bins[k].second.imag(), old[k].second.imag() + w * part[k].second.imag(), "windowed-im");
}
static void scale_params(Params &P) {
  P.Lambda = 1 + vp_pos("L"); P.z = vp_unit("z"); P.bandrescale = vp_pos("bandrescale"); P.goodE = vp_pos("goodE");
  P.discretization = vp_bool("Y") ? "Y" : vp_bool("C") ? "C" : "Z";
  P.NN1 = vp_bool("NN1"); P.absolute = vp_bool("absolute");
}
// characteristic energies of consecutive patched steps follow one another (single channel, N/N+2 patching; N/N+1 patching)
VP_CONTRACT(window_energies) {
  Params &P = params(); scale_params(P);
  Step s(P); const int N = vp_int_in("N", 0, 20000); s.set(N);
  Step t(P); t.set(P.NN1 ? N + 1 : N + 2);
  P.absolute = false;
  const double q = P.NN1 ? sqrt(P.Lambda.value()) : P.Lambda.value();
  vp_assert_eq(s.scale(), q * t.scale(), "scale-ratio");
  vp_assert_eq(P.getEx(), q * P.getEmin(), "centre");
  vp_assert_eq(P.getEmax(), q * P.getEx(), "upper-end");
  vp_assert_eq(P.getEmin(), P.goodE, "lower-end");
}
VP_CONTRACT(chain_binning) {
  Params &P = params();
  ChainBinning<double> c(P);
  const int n = vp_int_in("n", 2, 100000);
  static_cast<std::vector<Peak> &>(c.spos.bins) = vp_vec_n<Peak>("pos", n);
  static_cast<std::vector<Peak> &>(c.sneg.bins) = vp_vec_n<Peak>("neg", n);
  c.spos.emin = c.sneg.emin = vp_pos("emin"); c.spos.log10emin = c.sneg.log10emin = vp_real("log10emin");
  const std::vector<Peak> p0 = c.spos.bins, n0 = c.sneg.bins;
  const double e = vp_real("e"); const W w(vp_real("wr"), vp_real("wi")); const double f = vp_real("factor");
  c.add(make_pair(e, w), f);
  const auto tot = [n](const std::vector<Peak> &v) { return vp_sum(0, n, [&](int j) { return v[j].second.real(); }); };
  const auto toti = [n](const std::vector<Peak> &v) { return vp_sum(0, n, [&](int j) { return v[j].second.imag(); }); };
  vp_assert_eq(tot(c.spos.bins), tot(p0) + (e >= 0 ? f * w.real() : 0), "positive-side-re");
  vp_assert_eq(tot(c.sneg.bins), tot(n0) + (e < 0 ? f * w.real() : 0), "negative-side-re");
  vp_assert_eq(toti(c.spos.bins), toti(p0) + (e >= 0 ? f * w.imag() : 0), "positive-side-im");
  vp_assert_eq(toti(c.sneg.bins), toti(n0) + (e < 0 ? f * w.imag() : 0), "negative-side-im");
}
