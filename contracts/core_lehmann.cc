// Lehmann sums of the spectral-function algorithms (c++/algo_FT.hpp, algo_DMNRG.hpp, algo_CFS.hpp, algo_FDM.hpp): the peaks
// handed to the binning, tested against an arbitrary function of the energy
//@ libs: -lboost_serialization -lgmp -llapack -lblas
//@ flags: -fno-access-control
//@ opts: candlin=2 timeout=60 deadline=400
//@ lehmann_FDM_greater: deadline=800 thorough=1
//@ lehmann_FDM_lesser: deadline=800 thorough=1
#include "vp.h"
#include "rbtree.h"
#include "core.h"
#include "td_stub.h"
#include "debug.hpp"
#include "step.hpp"
#include "eigen.hpp"
#include "symmetry.hpp"
#include "spectrum_stub.h"
#include "algo.hpp"
using namespace NRG;
using M = Matrix_traits<double>;
// products with the density matrix: callers see the contract (an arbitrary matrix of the right size, the arguments recorded)
static const M *op1_ = nullptr, *op2_ = nullptr;
struct Product { M l, r, m; int n = 0; };
static Product pr[2]; // 0: from the left, 1: from the right
static M multiply(const M &A, const M &B, int slot, int rows, int cols) { Product &p = pr[slot]; p.l = A; p.r = B; p.n++; vp_matrix(p.m, slot ? "OR" : "RO", rows, cols); return p.m; }
[[gnu::used]] static M vp_callee_prod_fit(const M &A, const M &B) { return multiply(A, B, &A == op2_, A.rows(), B.cols()); }
[[gnu::used]] static M vp_callee_prod_fit_left(const M &A, const M &B) { return multiply(A, B, 1, A.rows(), B.cols()); }
[[gnu::used]] static M vp_callee_prod_adj_fit_left(const M &A, const M &B) { return multiply(A, B, 0, A.cols(), B.cols()); }
static bool same(const M &a, const M &b) {
#ifdef VP_SYM
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  const int i = vp_int_in("i", 0, 100000), j = vp_int_in("j", 0, 100000);
  return i >= a.rows() || j >= a.cols() || a(i, j) == b(i, j);
#else
  return true;
#endif
}
// exponential with underflow cut-off: callers see an arbitrary function, its own contract is boltzmann_exponential
[[gnu::used]] static double vp_callee_myexp(double x) { return vp_uf1("boltzmann", x); }
[[gnu::used]] static double vp_callee_chit_weight(double x, double y, double beta) { return vp_uf2("chit-beta", vp_uf2("chit", x, y), beta); }
static double chit(double x, double y, double beta) {
#ifdef VP_SYM
  return vp_uf2("chit-beta", vp_uf2("chit", x, y), beta);
#else
  return fabs(beta * x - beta * y) > 1e-8 ? (exp(-beta * y) - exp(-beta * x)) / (beta * x - beta * y) : exp(-beta * y);
#endif
}
static double boltz(double x) {
#ifdef VP_SYM
  return vp_uf1("boltzmann", x);
#else
  return x < -700 ? 0 : exp(x);
#endif
}
struct Setup {
  NRG::Eigen<double> p, q; // Ip and I1
  M a, b;
  DensMatElements<double> rho;
  Invar Ip{0}, I1{1};
  int np, nq, kp, kq;
  gf_type gt; double sign, f;
  Params &P = vp_params();
  Stats<double> &st = vp_stats<double>();
  void values(NRG::Eigen<double> &e, const char *name, int n, int k) {
    e.values.v = vp_vec_n<double>(name, n); e.values.c = e.values.v; e.values.corrected = e.values.v;
    e.nrpost = k; e.nrstored = n;
  }
  Setup() {
    np = vp_int_in("np", 1, 1000); nq = vp_int_in("nq", 1, 1000); kp = vp_int_in("kp", 0, np); kq = vp_int_in("kq", 0, nq);
    values(p, "Ep", np, kp); values(q, "E1", nq, kq);
    p.values.set_scale(vp_pos("scale")); q.values.set_scale(p.values.scale);
    p.values.set_shift(vp_real("shift")); q.values.set_shift(p.values.shift);
    p.values.set_T_shift(vp_real("T_shift")); q.values.set_T_shift(p.values.T_shift);
    p.values.set_abs_GS_energy(vp_real("GS")); q.values.set_abs_GS_energy(p.values.abs_GS_energy);
    vp_matrix(a, "A", nq, np); vp_matrix(b, "B", nq, np);
    P.T = vp_pos("T"); st.Zft = vp_pos("Zft"); st.Zgt = vp_pos("Zgt"); st.Zchit = vp_pos("Zchit");
    vp_matrix(rho[Ip], "rho_p", kp, kp); vp_matrix(rho[I1], "rho_1", kq, kq); op1_ = &a; op2_ = &b; pr[0].n = 0; pr[1].n = 0;
    gt = gf_type::bosonic; sign = 1; f = vp_real("factor");
    if (vp_bool("fermionic")) { gt = gf_type::fermionic; sign = -1; }
    P.Lambda = vp_pos("Lambda"); P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = true; P.substeps = false; P.Nmax = vp_int_in("Nmax", 1, 100); P.Ninit = 0;
#ifndef VP_SYM
    for (auto *e : {&p, &q}) for (auto &x : e->values.v) x = std::fmod(x, 10.0);
    for (auto *e : {&p, &q}) { e->values.set_scale(P.T); e->values.set_shift(vp::rng() % 3); e->values.set_T_shift(P.T * (vp::rng() % 3)); e->values.set_abs_GS_energy(P.T * (vp::rng() % 3)); }
    for (auto *m : {&a, &b}) for (int i = 0; i < nq; i++) for (int j = 0; j < np; j++) (*m)(i, j) = std::fmod((*m)(i, j), 3.0);
    for (auto &[I, m] : rho) for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.rows(); j++) m(i, j) = i > j ? m(j, i) : std::fmod(m(i, j), 3.0);
#endif
  }
};
static double RO(Setup &s, int j, int i) { // (rho_1 B)(j, i)
#ifdef VP_SYM
  return pr[0].m(j, i);
#else
  double x = 0; for (int k = 0; k < s.kq; k++) x += s.rho[s.I1](j, k) * s.b(k, i); return x;
#endif
}
static double OR(Setup &s, int j, int i) { // (B rho_p)(j, i)
#ifdef VP_SYM
  return pr[1].m(j, i);
#else
  double x = 0; for (int k = 0; k < s.kp; k++) x += s.b(j, k) * s.rho[s.Ip](k, i); return x;
#endif
}
static double AR(Setup &s, int i, int j) { // (A^+ rho_1)(i, j)
#ifdef VP_SYM
  return pr[0].m(i, j);
#else
  double x = 0; for (int k = 0; k < s.kq; k++) x += s.a(k, i) * s.rho[s.I1](k, j); return x;
#endif
}
template<class F> double pairs(int nq, int np, const F &f) { return vp_sum(0, nq, [&](int j) { return vp_sum(0, np, [&](int i) { return f(j, i); }); }); }
#define LOOPS(ACC, NQ, NP, PEAK) \
  vp_candidate([&](int j) { return j <= (NQ); }, "q"); vp_candidate([&](int j) { return j <= (NP); }, "p"); \
  vp_candidate([&](int j) { return (ACC) == pairs(j, (NP), PEAK); }, "rows"); \
  vp_candidate([&](int i, long j) { return (ACC) == pairs(j, (NP), PEAK) + vp_sum(0, i, [&](int l) { return PEAK(j, l); }); }, "row")
// the same over a block of pairs, added to what was there before
template<class F> double block(int a, int b, int c, int d, const F &f) { return vp_sum(a, b, [&](int j) { return vp_sum(c, d, [&](int i) { return f(j, i); }); }); }
#define PHASE(NAME, ACC, BASE, Q0, Q1, P0, P1, PEAK) \
  vp_candidate([&](int j) { return (ACC) == (BASE) + block((Q0), j, (P0), (P1), PEAK); }, NAME "-rows"); \
  vp_candidate([&](int i, long j) { return (ACC) == (BASE) + block((Q0), j, (P0), (P1), PEAK) + vp_sum((P0), i, [&](int l) { return PEAK(j, l); }); }, NAME "-row")
#define DLOOPS(ACC, BASE, Q0, Q1, P0, P1, PEAK) \
  vp_candidate([&](int j) { return (Q0) <= j && j <= (Q1); }, "q"); vp_candidate([&](int j) { return (P0) <= j && j <= (P1); }, "p"); \
  PHASE("block", ACC, BASE, Q0, Q1, P0, P1, PEAK)
#define LIMITS(s) \
  vp_candidate([&](int j) { return j <= s.nq; }, "nq"); vp_candidate([&](int j) { return j <= s.np; }, "np"); \
  vp_candidate([&](int j) { return j <= s.dq; }, "dq"); vp_candidate([&](int j) { return j <= s.dp; }, "dp"); \
  vp_candidate([&](int j) { return j >= s.dq; }, "fromdq"); vp_candidate([&](int j) { return j >= s.dp; }, "fromdp")
#define VLOOPS(NQ, NP, PEAK) \
  vp_candidate([&](int j) { return j <= (NQ); }, "q"); vp_candidate([&](int j) { return j <= (NP); }, "p"); vp_candidate([&](double v) { return v == 0; }, "zero"); \
  vp_candidate([&](int j, double v) { return v == pairs(j, (NP), PEAK); }, "rows"); \
  vp_candidate([&](int i, long j, double v) { return v == pairs(j, (NP), PEAK) + vp_sum(0, i, [&](int l) { return PEAK(j, l); }); }, "row")
// finite-temperature conductance and related transport kernels
template<int N> static void transport() {
  Setup s; s.gt = gf_type::fermionic;
  Algo_GT<double, N> alg("A", "spec", s.gt, s.P);
  s.P.gtp = vp_pos("gtp");
#ifndef VP_SYM
  s.P.Lambda = 1.5 + vp::rng() % 3; s.P.gtp = 0.5 + vp::rng() % 3;
#endif
  Step step(s.P); step.set(vp_int_in("N", 0, 50));
  const double T = s.P.gtp * step.scale(), beta = 1.0 / T;
  const auto w = [&](int j, int i) {
    const double E1 = s.q.values.abs_zero(j), Ep = s.p.values.abs_zero(i);
    return s.a(j, i) * s.b(j, i) * (beta / (exp(beta * E1) + exp(beta * Ep)) * (N == 0 ? 1.0 : N == 1 ? E1 - Ep : (E1 - Ep) * (E1 - Ep)) / s.st.Zgt);
  };
#ifndef VP_SYM
  s.p.values.set_scale(T); s.q.values.set_scale(T);
#endif
  alg.begin(step);
  VLOOPS(s.kq, s.kp, w);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert(alg.td.n == 1, "one-point-per-call");
  vp_assert_eq(alg.td.T, T, "temperature-of-the-shell");
  vp_assert_eq(alg.td.re, s.f * pairs(s.kq, s.kp, w), "kernel-sum-over-kept-pairs");
  vp_assert_eq(alg.td.im, 0, "real");
}
// full-density-matrix algorithm: discarded-discarded, kept-discarded and discarded-kept pairs
struct Fdm : Setup {
  int dq, dp; double wn, T;
  Step step{P};
  explicit Fdm(bool last) {
    P.Nmax = 5; P.Ninit = 0; step.set(3);
    p.last = q.last = last; dq = kq; dp = kp;
    if (p.last) dq = dp = 0;
    st.wnfactor = std::vector<double>(5); st.wnfactor[3] = wn = vp_real("weight"); T = P.T;
#ifndef VP_SYM
    st.wnfactor[3] = wn = 0.5;
#endif
    vp_use_contract("prod_fit");
  }
  double e(int j, int i) { return q.values.abs_G(j) - p.values.abs_G(i); }
  double gexp(int j, int i) { return f * (a(j, i) * b(j, i) * wn * exp(-p.values.abs_G(i) / T) * vp_uf1("phi", e(j, i))); }
  double lexp(int j, int i) { return f * (a(j, i) * b(j, i) * (-sign) * wn * exp(-q.values.abs_G(j) / T) * vp_uf1("phi", e(j, i))); }
  double grho(int j, int i) { return f * (a(j, i) * OR(*this, j, i) * vp_uf1("phi", e(j, i))); }
  double lrho(int j, int i) { return f * (a(j, i) * RO(*this, j, i) * (-sign) * vp_uf1("phi", e(j, i))); }
  void check_products() {
    if (pr[0].n) vp_assert(same(pr[0].l, rho[I1]) && same(pr[0].r, b), "density-matrix-times-operator");
    if (pr[1].n) vp_assert(same(pr[1].l, b) && same(pr[1].r, rho[Ip]), "operator-times-density-matrix");
  }
};
static void fdm_greater(bool last) {
  Fdm s(last); Algo_FDMgt<double> alg("A", "spec", s.gt, s.P, false);
  const auto ge = [&](int j, int i) { return s.gexp(j, i); }; const auto gr = [&](int j, int i) { return s.grho(j, i); };
  alg.begin(s.step);
  LIMITS(s);
  PHASE("dd", alg.cb->total, 0.0, s.dq, s.nq, s.dp, s.np, ge);
  PHASE("kd", alg.cb->total, block(s.dq, s.nq, s.dp, s.np, ge), 0, s.dq, s.dp, s.np, ge);
  PHASE("dk", alg.cb->total, block(s.dq, s.nq, s.dp, s.np, ge) + block(0, s.dq, s.dp, s.np, ge), s.dq, s.nq, 0, s.dp, gr);
  alg.calc(s.step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(s.step);
  s.check_products();
  vp_assert_eq(alg.spec.cfs, block(s.dq, s.nq, s.dp, s.np, ge) + block(0, s.dq, s.dp, s.np, ge) + block(s.dq, s.nq, 0, s.dp, gr), "greater-sum");
}
static void fdm_lesser(bool last) {
  Fdm s(last); Algo_FDMls<double> alg("A", "spec", s.gt, s.P, false);
  const auto le = [&](int j, int i) { return s.lexp(j, i); }; const auto lr = [&](int j, int i) { return s.lrho(j, i); };
  alg.begin(s.step);
  LIMITS(s);
  PHASE("dd", alg.cb->total, 0.0, s.dq, s.nq, s.dp, s.np, le);
  PHASE("kd", alg.cb->total, block(s.dq, s.nq, s.dp, s.np, le), 0, s.dq, s.dp, s.np, lr);
  PHASE("dk", alg.cb->total, block(s.dq, s.nq, s.dp, s.np, le) + block(0, s.dq, s.dp, s.np, lr), s.dq, s.nq, 0, s.dp, le);
  alg.calc(s.step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(s.step);
  s.check_products();
  vp_assert_eq(alg.spec.cfs, block(s.dq, s.nq, s.dp, s.np, le) + block(0, s.dq, s.dp, s.np, lr) + block(s.dq, s.nq, 0, s.dp, le), "lesser-sum");
}
VP_CONTRACT(lehmann_FT) {
  Setup s;
  Algo_FT<double> alg("A", "spec", s.gt, s.P);
  Step step(s.P); step.set(vp_int_in("N", 0, 50));
  const double beta = 1.0 / s.P.T;
  const auto peak = [&](int j, int i) {
    const double E1 = s.q.values.abs_zero(j), Ep = s.p.values.abs_zero(i);
    return s.f * (s.a(j, i) * s.b(j, i) * ((-s.sign * exp(-beta * E1) + exp(-beta * Ep)) / s.st.Zft) * vp_uf1("phi", E1 - Ep));
  };
  vp_use_contract("myexp");
  alg.begin(step);
  LOOPS(alg.cb->total, s.kq, s.kp, peak);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert_eq(alg.spec.nn2, pairs(s.kq, s.kp, peak), "lehmann-sum-over-kept-pairs");
}
VP_CONTRACT(transport_G) { transport<0>(); }
VP_CONTRACT(transport_I1) { transport<1>(); }
VP_CONTRACT(transport_I2) { transport<2>(); }
VP_CONTRACT(susceptibility_chi) {
  Setup s; s.gt = gf_type::bosonic;
  Algo_CHIT<double> alg("A", "spec", s.gt, s.P);
  s.P.chitp = vp_pos("chitp");
#ifndef VP_SYM
  s.P.Lambda = 1.5 + vp::rng() % 3; s.P.chitp = 0.5 + vp::rng() % 3;
#endif
  Step step(s.P); step.set(vp_int_in("N", 0, 50));
  const double T = s.P.chitp * step.scale(), beta = 1.0 / T;
  const auto w = [&](int j, int i) {
    return s.a(j, i) * s.b(j, i) * (chit(s.q.values.abs_zero(j), s.p.values.abs_zero(i), beta) / s.st.Zchit);
  };
#ifndef VP_SYM
  s.p.values.set_scale(T); s.q.values.set_scale(T);
#endif
  vp_use_contract("chit_weight");
  alg.begin(step);
  VLOOPS(s.kq, s.kp, w);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert(alg.td.n == 1, "one-point-per-call");
  vp_assert_eq(alg.td.T, T, "temperature-of-the-shell");
  vp_assert_eq(alg.td.re, s.f * pairs(s.kq, s.kp, w), "kernel-sum-over-kept-pairs");
  vp_assert_eq(alg.td.im, 0, "real");
}
VP_CONTRACT(susceptibility_weight) {
  const double x = vp_real("En"), y = vp_real("Em"), beta = vp_pos("beta");
#ifndef VP_SYM
  vp_assume(fabs(beta * x) < 300 && fabs(beta * y) < 300);
#endif
  const double w = chit_weight(x, y, beta);
  if (fabs(beta * x - beta * y) > 1e-8) vp_assert_near(w * (beta * x - beta * y), exp(-beta * y) - exp(-beta * x), exp(-beta * y) + exp(-beta * x), "difference-quotient");
  else vp_assert_eq(w, exp(-beta * y), "limit-of-equal-energies");
}
VP_CONTRACT(boltzmann_exponential) {
  const double x = vp_real("x"); double y = 0;
  const bool thrown = vp_throws([&] { y = myexp(x); });
  vp_assert(thrown == (x > 700), "trap");
  if (!thrown) vp_assert_eq(y, x < -700 ? 0 : exp(x), "exponential");
}
// complete-Fock-space algorithm
template<class A> static auto &accumulator(A &a) { return *a.cb; }
VP_CONTRACT(lehmann_CFS_lesser_last) {
  Setup s; s.P.Nmax = 5;
  Algo_CFSls<double> alg("A", "spec", s.gt, s.P, false);
  Step step(s.P); step.set(4);
  const auto peak = [&](int j, int i) {
    const double E1 = s.q.values.abs_zero(j), Ep = s.p.values.abs_zero(i);
    return s.f * (s.a(j, i) * s.b(j, i) * boltz(-E1 / s.P.T) * (-s.sign) / s.st.Zft * vp_uf1("phi", E1 - Ep));
  };
  vp_use_contract("myexp");
  alg.begin(step);
  LOOPS(alg.cb->total, s.kq, s.kp, peak);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert_eq(alg.spec.cfs, pairs(s.kq, s.kp, peak), "lesser-sum-of-the-last-shell");
}
VP_CONTRACT(lehmann_CFS_greater_last) {
  Setup s; s.P.Nmax = 5;
  Algo_CFSgt<double> alg("A", "spec", s.gt, s.P, false);
  Step step(s.P); step.set(4);
  const auto peak = [&](int j, int i) {
    const double E1 = s.q.values.abs_zero(j), Ep = s.p.values.abs_zero(i);
    return s.f * (s.a(j, i) * s.b(j, i) * boltz(-Ep / s.P.T) / s.st.Zft * vp_uf1("phi", E1 - Ep));
  };
  vp_use_contract("myexp");
  alg.begin(step);
  LOOPS(alg.cb->total, s.kq, s.kp, peak);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert_eq(alg.spec.cfs, pairs(s.kq, s.kp, peak), "greater-sum-of-the-last-shell");
}
VP_CONTRACT(lehmann_CFS_lesser) {
  Setup s; s.P.Nmax = 5;
  Algo_CFSls<double> alg("A", "spec", s.gt, s.P, false);
  Step step(s.P); step.set(3);
  const auto peak = [&](int j, int i) { return s.f * (s.a(j, i) * OR(s, j, i) * (-s.sign) * vp_uf1("phi", s.q.values.abs_zero(j) - s.p.values.abs_zero(i))); };
  vp_use_contract("prod_fit_left");
  alg.begin(step);
  DLOOPS(alg.cb->total, 0.0, s.kq, s.nq, 0, s.kp, peak);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert(same(pr[1].l, s.b) && same(pr[1].r, s.rho[s.Ip]), "operator-times-density-matrix");
  vp_assert_eq(alg.spec.cfs, block(s.kq, s.nq, 0, s.kp, peak), "lesser-sum-over-discarded-and-kept");
}
VP_CONTRACT(lehmann_CFS_greater) {
  Setup s; s.P.Nmax = 5;
  Algo_CFSgt<double> alg("A", "spec", s.gt, s.P, false);
  Step step(s.P); step.set(3);
  const auto peak = [&](int j, int i) { return s.f * (AR(s, i, j) * s.b(j, i) * vp_uf1("phi", s.q.values.abs_zero(j) - s.p.values.abs_zero(i))); };
  vp_use_contract("prod_adj_fit_left");
  alg.begin(step);
  DLOOPS(alg.cb->total, 0.0, 0, s.kq, s.kp, s.np, peak);
  alg.calc(step, s.p, s.q, s.a, s.b, s.f, s.Ip, s.I1, s.rho, s.st);
  alg.end(step);
  vp_assert(same(pr[0].l, s.a) && same(pr[0].r, s.rho[s.I1]), "operator-times-density-matrix");
  vp_assert_eq(alg.spec.cfs, block(0, s.kq, s.kp, s.np, peak), "greater-sum-over-kept-and-discarded");
}
VP_CONTRACT(lehmann_FDM_greater) { fdm_greater(false); }
VP_CONTRACT(lehmann_FDM_greater_last) { fdm_greater(true); }
VP_CONTRACT(lehmann_FDM_lesser) { fdm_lesser(false); }
VP_CONTRACT(lehmann_FDM_lesser_last) { fdm_lesser(true); }
