// statistical factors, spectral sums and moments of the NRG core (c++/spectral.hpp)
//@ opts: candlin=1
#include "vp.h"
#include "core.h"
#include "spectral.hpp"
using namespace NRG;
using namespace std;
using W = complex<double>;

VP_CONTRACT(fermi_factor) {
  const double T = vp_pos("T"), w = vp_real("w");
  vp_assume(fabs(w) < 36 * T);
  const double f = fermi_fnc(w, T), fm = fermi_fnc(-w, T);
  vp_assert_eq(f, 1 / (1 + exp(-(w / T))), "fermi-factor");
  vp_assert(f >= 0 && f <= 1, "between-zero-and-one");
  vp_assert_eq(f + fm, 1, "particle-hole");
}
VP_CONTRACT(fermi_monotonic) {
  const double T = vp_pos("T"), a = vp_real("a"), b = vp_real("b");
  vp_assume(a <= b && fabs(a) < 36 * T && fabs(b) < 36 * T);
  vp_assert(vp_le(fermi_fnc(a, T), fermi_fnc(b, T)), "increasing");
}
VP_CONTRACT(fermi_far) {
  const double T = vp_pos("T"), w = T * (37 + vp_pos("x"));
  vp_assert(fermi_fnc(w, T) >= 1 - 1e-10 && fermi_fnc(w, T) <= 1, "one-far-above");
  vp_assert(fermi_fnc(-w, T) >= 0 && fermi_fnc(-w, T) <= 1e-10, "zero-far-below");
}
VP_CONTRACT(bose_factor) {
  const double T = vp_pos("T"), w = vp_real("w");
  vp_assume(fabs(w) > 1e-6 * T && fabs(w) < 36 * T);
  const double f = bose_fnc(w, T), fm = bose_fnc(-w, T);
  vp_assert_eq(f * (1 - exp(-(w / T))), 1, "bose-factor");
  vp_assert_eq(f + fm, 1, "detailed-balance");
}
static Spikes<double> spikes(const char *n) { Spikes<double> s; static_cast<std::vector<pair<double, W>> &>(s) = vp_vec<pair<double, W>>(n, 0); return s; }
// integrated spectral function with an arbitrary kernel
VP_CONTRACT(kernel_sum) {
  const auto v = spikes("v");
  const bool inv = vp_bool("invert");
  const int n = v.size();
  auto re = [&](int k) { return vp_sum(0, k, [&](int j) { return v[j].second.real() * vp_uf1("g", inv ? -v[j].first : v[j].first); }); };
  auto im = [&](int k) { return vp_sum(0, k, [&](int j) { return v[j].second.imag() * vp_uf1("g", inv ? -v[j].first : v[j].first); }); };
  vp_candidate([&](int k, double s) { return s == re(k); }, "re");
  vp_candidate([&](int k, double s) { return s == im(k); }, "im");
  const W r = v.sum(inv, [](const double x) { return vp_uf1("g", x); });
  vp_assert_eq(r.real(), re(n), "weighted-sum-re");
  vp_assert_eq(r.imag(), im(n), "weighted-sum-im");
}
// Lehmann weights at finite temperature: every peak enters with its statistical factor
VP_CONTRACT(fd_fermi_sum) {
  const auto neg = spikes("neg"), pos = spikes("pos");
  const double T = vp_pos("T");
  const int n = neg.size(), m = pos.size();
  vp_assume(vp_forall(0, n, [&](int j) { return fabs(neg[j].first / T) < 36; }));
  vp_assume(vp_forall(0, m, [&](int j) { return fabs(pos[j].first / T) < 36; }));
  auto sn = [&](int k) { return vp_sum(0, k, [&](int j) { return neg[j].second.real() * (1 / (1 + exp(neg[j].first / T))); }); };
  auto sp = [&](int k) { return vp_sum(0, k, [&](int j) { return pos[j].second.real() * (1 / (1 + exp(-(pos[j].first / T)))); }); };
  vp_candidate([&](int k, double s) { return s == sn(k); }, "neg");
  vp_candidate([&](int k, double s) { return s == sp(k); }, "pos");
  double mag = 0;
#ifndef VP_SYM
  for (auto &[e, w] : neg) mag += abs(w);
  for (auto &[e, w] : pos) mag += abs(w);
#endif
  const W r = fd_fermi(neg, pos, T);
  vp_assert_near(r.real(), sn(n) + sp(m), mag, "fermi-weighted-sum");
}
VP_CONTRACT(fd_bose_sum) {
  const auto neg = spikes("neg"), pos = spikes("pos");
  const double T = vp_pos("T");
  const int n = neg.size(), m = pos.size();
  vp_assume(vp_forall(0, n, [&](int j) { return fabs(neg[j].first / T) < 36 && fabs(neg[j].first / T) > 1e-6; }));
  vp_assume(vp_forall(0, m, [&](int j) { return fabs(pos[j].first / T) < 36 && fabs(pos[j].first / T) > 1e-6; }));
  auto sn = [&](int k) { return vp_sum(0, k, [&](int j) { return neg[j].second.real() * (1 / (1 - exp(neg[j].first / T))); }); };
  auto sp = [&](int k) { return vp_sum(0, k, [&](int j) { return pos[j].second.real() * (1 / (1 - exp(-(pos[j].first / T)))); }); };
  vp_candidate([&](int k, double s) { return s == sn(k); }, "neg");
  vp_candidate([&](int k, double s) { return s == sp(k); }, "pos");
  double mag = 0;
#ifndef VP_SYM
  for (auto &[e, w] : neg) mag += abs(w / (1 - exp(e / T)));
  for (auto &[e, w] : pos) mag += abs(w / (1 - exp(-e / T)));
#endif
  const W r = fd_bose(neg, pos, T);
  vp_assert_near(r.real(), sn(n) + sp(m), mag, "bose-weighted-sum");
}
VP_CONTRACT(moment_sum) {
  const auto neg = spikes("neg"), pos = spikes("pos");
  const int k = vp_int_in("k", 1, 4);
  const int n = neg.size(), m = pos.size();
  auto sn = [&](int l) { return vp_sum(0, l, [&](int j) { return neg[j].second.real() * pow(-neg[j].first, k); }); };
  auto sp = [&](int l) { return vp_sum(0, l, [&](int j) { return pos[j].second.real() * pow(pos[j].first, k); }); };
  vp_candidate([&](int l, double s) { return s == sn(l); }, "neg-re");
  vp_candidate([&](int l, double s) { return s == sp(l); }, "pos-re");
  const W r = moment(neg, pos, k);
  vp_assert_eq(r.real(), sn(n) + sp(m), "moment");
}
VP_CONTRACT(total_weight) {
  const auto s = spikes("s");
  const int n = s.size();
  auto sr = [&](int l) { return vp_sum(0, l, [&](int j) { return s[j].second.real(); }); };
  auto si = [&](int l) { return vp_sum(0, l, [&](int j) { return s[j].second.imag(); }); };
  vp_candidate([&](int l, double x) { return x == sr(l); }, "re");
  vp_candidate([&](int l, double x) { return x == si(l); }, "im");
  const W r = s.sum_weights();
  vp_assert_eq(r.real(), sr(n), "total-re"); vp_assert_eq(r.imag(), si(n), "total-im");
}
