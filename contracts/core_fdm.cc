// full-density-matrix weights (c++/measurements.hpp, c++/eigen.hpp, c++/stats.hpp)
//@ libs: -lboost_serialization -lgmp
//@ flags: -fno-access-control
//@ opts: candlin=2
//@ fdm_rho_init: nativeonly=1
#include "vp.h"
#include "rbtree.h"
#include "core.h"
#include "td_stub.h"
#include "debug.hpp"
#include "step.hpp"
#include "eigen.hpp"
#include "symmetry.hpp"
#include "measurements.hpp"
#include "dmnrg.hpp"
using namespace NRG;
using namespace std;
struct Sym2 : Symmetry<double> {
  Sym2(const Params &P) : Symmetry<double>(P, std::vector<std::string>{}) {}
  void load() override {}
  size_t mult(const Invar &I) const override { return I.getqn(0); }
  void make_matrix(Matrix_traits<double> &, const Step &, const SubspaceDimensions &, const Invar &, const InvarVec &, const Opch<double> &, const Coef<double> &) const override {}
  void calculate_TD(const Step &, const DiagInfo<double> &, Stats<double> &, const double) const override {}
};
static void fill(NRG::Eigen<double> &e, const char *nm) {
  const int n = vp_int_in(nm, 1, 100000);
  e.values.v = vp_vec_n<double>("raw", n); e.values.c = vp_vec_n<double>("crit", n); e.values.corrected = vp_vec_n<double>("corr", n);
}

// two shells of the complete Fock space: partial sums, weights and averages
struct Shells {
  ThermoStore<double> store{0, 2};
  double T, gs; int m[2]; size_t combs;
  StoredEigen<double> &e(int N) { return store[N].begin()->second.eig; }
};
static void shell(StoredEigen<double> &e, const char *nm, bool last) {
  const int n = vp_int_in(nm, 1, 100000);
  e.values.v = vp_vec_n<double>("raw", n);
#ifndef VP_SYM
  for (auto &x : e.values.v) x = std::min(20.0, std::abs(x));
#endif
  e.nrkept_ = vp_int_in("kept", 0, n); e.dim_ = n; e.last_ = last;
  e.values.set_scale(vp_pos("scale")); e.values.set_shift(vp_real("shift")); e.values.set_T_shift(vp_real("T_shift"));
}
static void shells(Shells &s) {
  s.T = vp_pos("T"); s.combs = 4;
  for (int N = 0; N < 2; N++) {
    s.m[N] = vp_int_in("multiplicity", 1, 100);
    shell(s.store[N][Invar(s.m[N])].eig, N ? "nb" : "na", N == 1);
  }
  s.gs = vp_real("GS"); s.store.shift_abs_energies(s.gs);
#ifndef VP_SYM
  s.e(0).values.set_scale(s.T); s.e(1).values.set_scale(s.T / 2);
  for (int N = 0; N < 2; N++) { s.e(N).values.set_shift(vp::rng() % 2 * 0.25); s.e(N).values.set_T_shift(s.gs + s.T * (vp::rng() % 3)); }
  if (s.e(0).nrkept_ == s.e(0).dim_) s.e(0).nrkept_--;
#endif
}
static void init_stats(Stats<double> &st) {
  new (&st.ZnDG) std::vector<my_mpf>(2); new (&st.ZnDN) std::vector<my_mpf>(2);
  st.ZnDNd = std::vector<double>(2); st.wn = std::vector<double>(2); st.wnfactor = std::vector<double>(2);
}
VP_CONTRACT(fdm_weights) {
  Params &P = vp_params(); P.combs = 3; P.logall = false; P.logstr = "";
  Sym2 S(P); P.combs = 4;
  Shells s; shells(s); P.T = s.T;
  Stats<double> &st = vp_stats<double>(); init_stats(st);
  const auto G = [&](int N, int k) { auto &e = s.e(N); return vp_sum(e.min(), k, [&](int j) { return s.m[N] * exp(-(e.values.abs_G(j)) / s.T); }); };
  const auto D = [&](int N, int k) { auto &e = s.e(N); return vp_sum(e.min(), k, [&](int j) { return s.m[N] * exp(-(e.values.abs_zero(j)) / s.T); }); };
  vp_candidate([&](int k, double x) { return x == G(0, k); }, "G0"); vp_candidate([&](int k, double x) { return x == D(0, k); }, "D0");
  vp_candidate([&](int k, double x) { return x == G(1, k); }, "G1"); vp_candidate([&](int k, double x) { return x == D(1, k); }, "D1");
  vp_candidate([&](int k) { return k < 1 || G(1, k) > 0; }, "positive-last"); vp_candidate([&](int k) { return k < (int)s.e(0).min() || G(0, k) >= 0; }, "non-negative");
  calc_ZnD(s.store, st, &S, P);
  const double g0 = G(0, s.e(0).max()), g1 = G(1, s.e(1).max());
  const double z0 = mpf_get_d(st.ZnDG[0]), z1 = mpf_get_d(st.ZnDG[1]);
  vp_assert_eq(z0, g0, "discarded-states-of-a-shell"); vp_assert_eq(z1, g1, "all-states-of-the-last-shell");
  vp_assert_eq(mpf_get_d(st.ZnDN[0]), D(0, s.e(0).max()), "relative-to-the-shell-ground-state");
  vp_assert_eq(st.ZnDNd[1], D(1, s.e(1).max()), "relative-to-the-last-shell-ground-state");
  vp_assert_eq(st.ZZG, 4 * g0 + g1, "degeneracy-of-the-environment");
  vp_assert_eq(st.wn[0] * st.ZZG, 4 * g0, "weight-of-a-shell"); vp_assert_eq(st.wn[0] + st.wn[1], 1, "weights-sum-to-one");
  vp_assert_eq(st.wnfactor[0] * g0, st.wn[0], "weight-factor");
}
VP_CONTRACT(fdm_averages) {
  Params &P = vp_params(); P.combs = 3; P.logall = false; P.logstr = "";
  Sym2 S(P); P.combs = 4;
  Shells s; shells(s);
  Stats<double> &st = vp_stats<double>(); init_stats(st);
  st.ZZG = vp_pos("ZZG"); st.GS_energy = s.gs;
  st.wn[0] = vp_unit("w0"); st.wn[1] = vp_unit("w1");
  vp_assume(st.wn[0] > 1e-16 && st.wn[1] > 1e-16);
  double z[2]; for (int N = 0; N < 2; N++) { z[N] = vp_pos("ZN"); mpf_set_d(st.ZnDN[N], z[N]); }
  const auto w = [&](int N, int j) { return (st.wn[N] * s.m[N] * exp(-(s.e(N).values.abs_zero(j)) / s.T)) / z[N]; };
  const auto A = [&](int N, int k) { auto &e = s.e(N); return vp_sum(e.min(), k, [&](int j) { return e.values.abs_T(j) * w(N, j); }); };
  const auto B = [&](int N, int k) { auto &e = s.e(N); return vp_sum(e.min(), k, [&](int j) { return e.values.abs_T(j) * e.values.abs_T(j) * w(N, j); }); };
  const double a0 = A(0, s.e(0).max()), b0 = B(0, s.e(0).max());
  vp_candidate([&](int k, double x) { return x == A(0, k); }, "A0"); vp_candidate([&](int k, double x) { return x == B(0, k); }, "B0");
  vp_candidate([&](int k, double x) { return x == a0 + A(1, k); }, "A1"); vp_candidate([&](int k, double x) { return x == b0 + B(1, k); }, "B1");
  fdm_thermodynamics(s.store, st, &S, s.T);
  const double E = a0 + A(1, s.e(1).max()), E2 = b0 + B(1, s.e(1).max()), T = s.T;
  vp_assert_eq(st.E_fdm, E, "energy");
  vp_assert_near(st.C_fdm * T * T, E2 - E * E, fabs(E2) + E * E + 1, "heat-capacity");
  vp_assert_near(st.F_fdm, st.GS_energy - T * log(st.ZZG), fabs(st.GS_energy) + T * fabs(log(st.ZZG)), "free-energy");
  vp_assert_near(st.F_fdm, E - T * st.S_fdm, fabs(E) + fabs(st.F_fdm), "F=E-TS");
  vp_assert_eq(st.Z_fdm, st.ZZG * exp(-st.GS_energy / T), "partition-function");
  const double tE = st.td_fdm.get("E_fdm"), tS = st.td_fdm.get("S_fdm"), tF = st.td_fdm.get("F_fdm"), tC = st.td_fdm.get("C_fdm"), tT = st.td_fdm.get("T");
  vp_assert(tE == st.E_fdm && tS == st.S_fdm && tF == st.F_fdm && tC == st.C_fdm && tT == T, "table");
}
VP_CONTRACT(fdm_rho_init) {
  Shells s; shells(s);
  Stats<double> &st = vp_stats<double>(); init_stats(st);
  const double w = vp_unit("w"), z = vp_pos("Z"); st.wn[0] = w; st.ZnDNd[0] = z;
  auto &e = s.e(0);
  const int n = e.dim_, a = vp_int_in("a", 0, n - 1), b = vp_int_in("b", 0, n - 1);
  const auto val = [&](int j) { return exp(-(e.values.abs_zero(j)) / s.T) * w / z; };
  const auto rho = init_rho_FDM(0, s.store, st, [](const Invar &I) { return I.getqn(0); }, s.T, false);
  const auto &m = rho.begin()->second;
  vp_assert((int)m.rows() == n && (int)m.cols() == n, "dimension");
  vp_assert_eq(m(a, b), a == b && a >= (int)e.nrkept_ ? val(a) : 0.0, "weights-of-discarded-states-only");
}
