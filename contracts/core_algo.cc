// spectral-function algorithms: Lehmann weights (c++/algo_FT.hpp, algo_DMNRG.hpp, algo_CFS.hpp, algo_FDM.hpp)
//@ libs: -lboost_serialization -lgmp -llapack -lblas
//@ flags: -fno-access-control
//@ opts: nativeonly=1 trials=2000
#include "vp.h"
#include "core.h"
#include "td_stub.h"
#include "debug.hpp"
#include "step.hpp"
#include "eigen.hpp"
#include "symmetry.hpp"
#define ChainBinning ChainBinning_real
#include "spectrum.hpp"
#undef ChainBinning
namespace NRG {
// records the peaks instead of binning them (the binning has its own contracts)
template<scalar S> struct ChainBinning : ChainBinning_real<S> {
  std::vector<std::pair<double, std::complex<double>>> peaks;
  explicit ChainBinning(const Params &P) : ChainBinning_real<S>(P) {}
  void add(const double e, const weight_traits<S> w) { peaks.emplace_back(e, w); }
  void add(const std::pair<double, weight_traits<S>> &p, const weight_traits<S> f) { peaks.emplace_back(p.first, f * p.second); }
};
}
#include "algo.hpp"
using namespace NRG;
using namespace std;
using Z = std::complex<double>;
using Mat = Matrix_traits<Z>;
#ifndef VP_SYM
static double U01() { return (vp::rng() % 1000001) / 1000000.0; }
static int D(int a, int b) { return a + vp::rng() % (b - a + 1); }
static Mat random_matrix(int r, int c) {
  Mat m(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = Z(2 * U01() - 1, 2 * U01() - 1);
  return m;
}
static Mat hermitian(int n) { Mat m(n, n), a = random_matrix(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (a(i, j) + std::conj(a(j, i))) / 2.0; return m; }
static void subspace(NRG::Eigen<Z> &e, bool last, double scale, double shift, double tshift, double gs, bool integers) {
  const int n = D(1, 5);
  e.values.v.resize(n);
  for (auto &x : e.values.v) x = shift + (integers ? D(0, 4) : 4 * U01());
  std::sort(e.values.v.begin(), e.values.v.end());
  e.values.c = e.values.corrected = e.values.v;
  e.values.set_scale(scale); e.values.set_shift(shift); e.values.set_T_shift(tshift); e.values.set_abs_GS_energy(gs);
  e.truncate_prepare(D(0, n)); e.last = last;
}
struct Setup {
  Params &P = vp_params();
  Stats<Z> *st;
  std::unique_ptr<Step> step;
  NRG::Eigen<Z> p, q; // Ip and I1
  Mat A, B;
  Invar Ip{0}, I1{1};
  DensMatElements<Z> rho;
  Z factor; gf_type gt; int sign; bool last; double T;
  Setup(bool integers = false) {
    P.Lambda = 1.5 + 2 * U01(); P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = false; P.substeps = false; P.silent = true;
    T = 0.1 + U01(); P.T = T; P.Nmax = 10; P.Ninit = 0; P.mats = 6; P.reim = true;
    P.bins = 5; P.emin = 1e-5; P.emax = 10; P.broaden_min = 1e-5; P.broaden_max = 10; P.accumulation = 0; P.keep = 100; P.goodE = 2.0; P.NN1 = vp::rng() % 2;
    P.gtp = 0.5 + U01(); P.chitp = 0.5 + U01();
    st = &vp_stats<Z>();
    step = std::make_unique<Step>(P); last = vp::rng() % 3 == 0; step->set(last ? 9 : D(0, 8));
    const double scale = integers ? 0.5 : step->scale() + 0.1, tshift = U01(), gs = 0.1 * U01();
    subspace(p, last, scale, 0.25, tshift, gs, integers); subspace(q, last, scale, 0.25, tshift, gs, integers);
    const int np = p.values.v.size(), nq = q.values.v.size();
    A = random_matrix(nq, np); B = random_matrix(nq, np);
    factor = Z(2 * U01() - 1, 0); gt = vp::rng() % 2 ? gf_type::bosonic : gf_type::fermionic; sign = gt == gf_type::bosonic ? 1 : -1;
    rho[Ip] = hermitian(p.getnrkept()); rho[I1] = hermitian(q.getnrkept());
    st->Zft = 1 + U01(); st->Zgt = 1 + U01(); st->Zchit = 1 + U01(); st->wnfactor = std::vector<double>(10, 0.0); for (auto &w : st->wnfactor) w = 0.5 + U01();
  }
  double wn() { return st->wnfactor[step->ndx()]; }
  double Eq(int j) { return q.values.abs_zero(j); }
  double Ep(int i) { return p.values.abs_zero(i); }
  double Gq(int j) { return q.values.abs_G(j); }
  double Gp(int i) { return p.values.abs_G(i); }
  int np() { return p.values.v.size(); }
  int nq() { return q.values.v.size(); }
  int kp() { return p.getnrkept(); }
  int kq() { return q.getnrkept(); }
  int bp() { return last ? 0 : kp(); } // first state counted as discarded in the full-density-matrix approach
  int bq() { return last ? 0 : kq(); }
  Z brho(int j, int i) { Z s = 0; for (int k = 0; k < kp(); k++) s += B(j, k) * rho[Ip](k, i); return s; }   // (B rho_p)(j,i)
  Z rhob(int j, int i) { Z s = 0; for (int k = 0; k < kq(); k++) s += rho[I1](j, k) * B(k, i); return s; }   // (rho_q B)(j,i)
  Z rhoa(int j, int i) { Z s = 0; for (int k = 0; k < kq(); k++) s += rho[I1](j, k) * std::conj(A(k, i)); return s; }
  Z arho(int j, int i) { Z s = 0; for (int k = 0; k < kq(); k++) s += rho[I1](k, j) * std::conj(A(k, i)); return s; }
  Z me(int j, int i) { return std::conj(A(j, i)) * B(j, i); }
};
// two lists of peaks are the same distribution
struct Peaks {
  std::vector<std::pair<double, Z>> v;
  void add(double e, Z w) { v.emplace_back(e, w); }
  static Z test(const std::vector<std::pair<double, Z>> &v, int k) { Z s = 0; for (const auto &[e, w] : v) s += w * (k == 0 ? 1.0 : k == 1 ? e : k == 2 ? e * e : std::cos(3 * e) + std::sin(7 * e)); return s; }
  bool same(const std::vector<std::pair<double, Z>> &w) const {
    double mag = 1; for (const auto &x : v) mag += std::abs(x.second);
    for (int k = 0; k < 4; k++) if (!(std::abs(test(v, k) - test(w, k)) <= 1e-8 * mag * 400)) return false;
    return true;
  }
};
#define RUN(ALGO, ...) ALGO a("x", "spec", s.gt, s.P, ##__VA_ARGS__); a.begin(*s.step); a.calc(*s.step, s.p, s.q, s.A, s.B, s.factor, s.Ip, s.I1, s.rho, *s.st)
#endif
VP_CONTRACT(spectral_FT) {
#ifndef VP_SYM
  Setup s; Peaks e;
  for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) e.add(s.Eq(j) - s.Ep(i), s.factor * s.me(j, i) * (-s.sign * exp(-s.Eq(j) / s.T) + exp(-s.Ep(i) / s.T)) / s.st->Zft);
  RUN(Algo_FT<Z>);
  vp_assert(e.same(a.cb->peaks), "lehmann-weights");
#endif
}
VP_CONTRACT(spectral_DMNRG) {
#ifndef VP_SYM
  Setup s; Peaks e;
  const double lo = s.step->scale() * s.P.getEmin(), hi = s.step->scale() * s.P.getEmax();
  for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) {
    const double w = s.Eq(j) - s.Ep(i);
    if (fabs(w) < lo || fabs(w) > hi) continue;
    Z a = 0; for (int k = 0; k < s.kp(); k++) a += s.B(j, k) * s.rho[s.Ip](i, k);
    e.add(w, s.factor * (a * std::conj(s.A(j, i)) - double(s.sign) * s.rhoa(j, i) * s.B(j, i)));
  }
  RUN(Algo_DMNRG<Z>);
  vp_assert(e.same(a.cb->peaks), "lehmann-weights");
#endif
}
VP_CONTRACT(spectral_CFS) {
#ifndef VP_SYM
  Setup s; Peaks ls, gt;
  if (s.last) {
    for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) {
      ls.add(s.Eq(j) - s.Ep(i), -double(s.sign) * s.factor * s.me(j, i) * exp(-s.Eq(j) / s.T) / s.st->Zft);
      gt.add(s.Eq(j) - s.Ep(i), s.factor * s.me(j, i) * exp(-s.Ep(i) / s.T) / s.st->Zft);
    }
  } else {
    for (int j = s.kq(); j < s.nq(); j++) for (int i = 0; i < s.kp(); i++) ls.add(s.Eq(j) - s.Ep(i), -double(s.sign) * s.factor * std::conj(s.A(j, i)) * s.brho(j, i));
    for (int j = 0; j < s.kq(); j++) for (int i = s.kp(); i < s.np(); i++) gt.add(s.Eq(j) - s.Ep(i), s.factor * s.arho(j, i) * s.B(j, i));
  }
  { RUN(Algo_CFSls<Z>, false); vp_assert(ls.same(a.cb->peaks), "lesser-weights"); }
  { RUN(Algo_CFSgt<Z>, false); vp_assert(gt.same(a.cb->peaks), "greater-weights"); }
  { RUN(Algo_CFS<Z>); auto l = a.Algo_CFSls<Z>::cb->peaks, g = a.Algo_CFSgt<Z>::cb->peaks; vp_assert(ls.same(l) && gt.same(g), "both-parts"); }
#endif
}
#ifndef VP_SYM
static void fdm(Setup &s, Peaks &ls, Peaks &gt) {
  for (int j = 0; j < s.nq(); j++) for (int i = 0; i < s.np(); i++) {
    const bool dj = j >= s.bq(), di = i >= s.bp();
    if (!dj && !di) continue;
    const double w = s.Gq(j) - s.Gp(i);
    ls.add(w, -double(s.sign) * s.factor * (dj ? s.me(j, i) * s.wn() * exp(-s.Gq(j) / s.T) : std::conj(s.A(j, i)) * s.rhob(j, i)));
    gt.add(w, s.factor * (di ? s.me(j, i) * s.wn() * exp(-s.Gp(i) / s.T) : std::conj(s.A(j, i)) * s.brho(j, i)));
  }
}
#endif
VP_CONTRACT(spectral_FDM) {
#ifndef VP_SYM
  Setup s; Peaks ls, gt; fdm(s, ls, gt);
  { RUN(Algo_FDMls<Z>, false); vp_assert(ls.same(a.cb->peaks), "lesser-weights"); }
  { RUN(Algo_FDMgt<Z>, false); vp_assert(gt.same(a.cb->peaks), "greater-weights"); }
  { RUN(Algo_FDM<Z>); auto l = a.Algo_FDMls<Z>::cb->peaks, g = a.Algo_FDMgt<Z>::cb->peaks; vp_assert(ls.same(l) && gt.same(g), "both-parts"); }
#endif
}
#ifndef VP_SYM
static Z green(const Peaks &p, Z w) { Z s = 0; for (const auto &[e, x] : p.v) s += x / (w - e); return s; }
static bool close(Z a, Z b, double mag) { return std::abs(a - b) <= 1e-8 * (1 + mag + std::abs(b)); }
static bool nonzero(Setup &s, bool g) { // no vanishing excitation energy
  for (int j = 0; j < s.nq(); j++) for (int i = 0; i < s.np(); i++) if (std::abs(g ? s.Gq(j) - s.Gp(i) : s.Eq(j) - s.Ep(i)) < 1e-3) return false;
  return true;
}
#endif
VP_CONTRACT(matsubara_FDM) {
#ifndef VP_SYM
  Setup s; Peaks ls, gt; fdm(s, ls, gt);
  vp_assume(nonzero(s, true));
  RUN(Algo_FDMmats<Z>);
  bool ok = true;
  for (int n = 0; n < s.P.mats; n++) { const Z w(0, M_PI * s.T * (2 * n + (s.gt == gf_type::fermionic))); ok = ok && close(a.cm->m.v[n].second, green(ls, w) + green(gt, w), 100); }
  vp_assert(ok, "green-function-of-the-spectrum");
#endif
}
VP_CONTRACT(matsubara_FT) {
#ifndef VP_SYM
  Setup s(vp::rng() % 3 == 0);
  RUN(Algo_FTmats<Z>);
  bool ok = true;
  for (int n = 0; n < s.P.mats; n++) {
    const Z w(0, M_PI * s.T * (2 * n + (s.gt == gf_type::fermionic))); Z g = 0;
    for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) {
      const double e = s.Eq(j) - s.Ep(i);
      if (std::abs(w) > 1e-12 || std::abs(e) > 1e-6) g += s.factor * s.me(j, i) * (-s.sign * exp(-s.Eq(j) / s.T) + exp(-s.Ep(i) / s.T)) / s.st->Zft / (w - e);
      else g -= s.factor * s.me(j, i) * exp(-s.Eq(j) / s.T) / s.st->Zft / s.T; // limit of vanishing energy
    }
    ok = ok && close(a.cm->m.v[n].second, g, 100);
  }
  vp_assert(ok, "green-function-of-the-spectrum");
#endif
}
VP_CONTRACT(matsubara_DMNRG) {
#ifndef VP_SYM
  Setup s; vp_assume(nonzero(s, false)); Peaks e;
  for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) {
    Z a = 0; for (int k = 0; k < s.kp(); k++) a += s.B(j, k) * s.rho[s.Ip](i, k);
    e.add(s.Eq(j) - s.Ep(i), s.factor * (a * std::conj(s.A(j, i)) - double(s.sign) * s.rhoa(j, i) * s.B(j, i)));
  }
  RUN(Algo_DMNRGmats<Z>);
  bool ok = true;
  for (int n = 0; n < s.P.mats; n++) { const Z w(0, M_PI * s.T * (2 * n + (s.gt == gf_type::fermionic))); ok = ok && close(a.cm->m.v[n].second, green(e, w), 100); }
  if (s.kp() && s.kq()) vp_assert(ok, "green-function-of-the-spectrum");
#endif
}
#ifndef VP_SYM
template<int n> bool gt_ok(Setup &s) {
  const double t = s.P.gtp * s.step->scale(); Z g = 0; double mag = 1;
  for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) {
    const double f = 1 / t / (exp(s.Eq(j) / t) + exp(s.Ep(i) / t)) * std::pow(s.Eq(j) - s.Ep(i), n) / s.st->Zgt;
    g += s.factor * s.me(j, i) * f; mag += fabs(f);
  }
  s.gt = gf_type::fermionic;
  using A = Algo_GT<Z, n>; RUN(A);
  return a.ct->v.size() == 1 && fabs(a.ct->v[0].first - t) < 1e-12 * t && close(a.ct->v[0].second, g, mag);
}
#endif
VP_CONTRACT(transport_GT) {
#ifndef VP_SYM
  Setup s;
  vp_assert(gt_ok<0>(s) && gt_ok<1>(s) && gt_ok<2>(s), "moments-of-the-thermal-kernel");
#endif
}
VP_CONTRACT(susceptibility_CHIT) {
#ifndef VP_SYM
  Setup s(vp::rng() % 2); s.gt = gf_type::bosonic;
  const double t = s.P.chitp * s.step->scale(); Z g = 0; double mag = 1;
  for (int j = 0; j < s.kq(); j++) for (int i = 0; i < s.kp(); i++) {
    const double x = (s.Eq(j) - s.Ep(i)) / t;
    const double f = fabs(x) < 1e-6 ? exp(-s.Ep(i) / t) : (exp(-s.Ep(i) / t) - exp(-s.Eq(j) / t)) / x;
    g += s.factor * s.me(j, i) * f / s.st->Zchit; mag += fabs(f);
  }
  RUN(Algo_CHIT<Z>);
  vp_assert(a.ct->v.size() == 1 && close(a.ct->v[0].second, g, 100 * mag), "kubo-average");
#endif
}
