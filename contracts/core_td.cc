// thermodynamic averages and full-density-matrix weights (c++/measurements.hpp, c++/eigen.hpp, c++/stats.hpp)
//@ libs: -lboost_serialization -lgmp
//@ flags: -fno-access-control
//@ opts: candlin=2
#include "vp.h"
#include "rbtree.h"
#include "core.h"
#include "td_stub.h"
#include "debug.hpp"
#include "step.hpp"
#include "eigen.hpp"
#include "symmetry.hpp"
#include "measurements.hpp"
using namespace NRG;
using namespace std;
struct Sym2 : Symmetry<double> {
  Sym2(const Params &P) : Symmetry<double>(P, std::vector<std::string>{}) {}
  void load() override {}
  size_t mult(const Invar &I) const override { return I.getqn(0); }
  void make_matrix(Matrix_traits<double> &, const Step &, const SubspaceDimensions &, const Invar &, const InvarVec &, const Opch<double> &, const Coef<double> &) const override {}
  void calculate_TD(const Step &, const DiagInfo<double> &, Stats<double> &, const double) const override {}
};
static void fill(NRG::Eigen<double> &e, const char *nm) {
  const int n = vp_int_in(nm, 1, 100000);
  e.values.v = vp_vec_n<double>("raw", n); e.values.c = vp_vec_n<double>("crit", n); e.values.corrected = vp_vec_n<double>("corr", n);
}
VP_CONTRACT(td_calculate) {
  Params &P = vp_params(); P.combs = 4;
  P.Lambda = 2.0; P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = true; P.betabar = vp_pos("betabar"); P.logstr = ""; P.logall = false; P.substeps = false;
  Sym2 S(P);
  Step step(P); step.set(vp_int_in("N", 0, 100));
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(vp_int_in("multiplicity", 1, 100))];
  fill(a, "na");
  const double g = vp_real("Egs");
#ifndef VP_SYM
  for (auto &x : a.values.v) x = g + std::min(20.0, std::abs(x)) / step.TD_factor(); a.values.v[0] = g;
#endif
  d.set_shift_Egs(g);
  const double f = step.TD_factor();
  Stats<double> &st = vp_stats<double>();
  auto s0 = [&](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return exp(-(f * (e.values.v[j] - g))); }); };
  auto s1 = [&](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return (f * (e.values.v[j] - g)) * exp(-(f * (e.values.v[j] - g))); }); };
  auto s2 = [&](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return pow(f * (e.values.v[j] - g), 2) * exp(-(f * (e.values.v[j] - g))); }); };
  vp_candidate([&](int k, double s) { return s == s0(a, k); }, "Za");
  vp_candidate([&](int k, double s) { return s == s1(a, k); }, "Ea");
  vp_candidate([&](int k, double s) { return s == s2(a, k); }, "Fa");
  calculate_TD(step, d, st, &S, P);
  const double gE = st.td.get("<E>"), gE2 = st.td.get("<E^2>"), gC = st.td.get("C"), gF = st.td.get("F"), gS = st.td.get("S");
  const int na = a.values.v.size();
  const double m = d.begin()->first.getqn(0), Z = m * s0(a, na), E = m * s1(a, na), E2 = m * s2(a, na);
  vp_assert_eq(st.Z, Z, "partition-function");
  vp_assert_eq(gE, E / Z, "energy");
  vp_assert_eq(gE2, E2 / Z, "energy-squared");
  vp_assert_near(gC, E2 / Z - (E / Z) * (E / Z), fabs(E2 / Z), "heat-capacity");
  vp_assert_eq(gF, -log(Z), "free-energy");
  vp_assert_eq(gS, E / Z + log(Z), "entropy");
}

// averages run over all subspaces with their multiplicity, energies measured from the common ground state
VP_CONTRACT(td_subspaces) {
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
  const double f = vp_pos("factor"), g = vp_real("Egs");
#ifndef VP_SYM
  for (auto *e : {&a, &b}) for (auto &x : e->values.v) x = g + std::min(20.0, std::abs(x)) / f;
#endif
  d.set_shift_Egs(g);
  auto s0 = [&](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return exp(-(f * (e.values.v[j] - g))); }); };
  vp_candidate([&](int k, double s) { return s == s0(a, k); }, "Za");
  vp_candidate([&](int k, double s) { return s == s0(b, k); }, "Zb");
  const double Z = d.trace([](double) { return 1; }, f, [](const Invar &I) { return I.getqn(0); });
  vp_assert_eq(Z, s0(a, a.values.v.size()) + 2 * s0(b, b.values.v.size()), "partition-function");
  vp_assert((int)d.count_states([](const Invar &I) { return I.getqn(0); }) == (int)a.values.v.size() + 2 * (int)b.values.v.size(), "state-count");
}
// the statistical sum of the kept states
VP_CONTRACT(td_kept) {
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
  a.truncate_prepare(vp_int_in("ka", 0, a.values.v.size())); b.truncate_prepare(vp_int_in("kb", 0, b.values.v.size()));
  const double f = vp_pos("factor");
#ifndef VP_SYM
  for (auto *e : {&a, &b}) for (auto &x : e->values.corrected) x = std::min(20.0, std::abs(x)) / f;
#endif
  auto s0 = [&](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return exp(-(f * e.values.corrected[j])); }); };
  vp_candidate([&](int k, double s) { return s == s0(a, k); }, "Za");
  vp_candidate([&](int k, double s) { return s == s0(b, k); }, "Zb");
  const double Z = grand_canonical_Z(f, d, [](const Invar &I) { return I.getqn(0); });
  vp_assert_eq(Z, s0(a, a.getnrkept()) + 2 * s0(b, b.getnrkept()), "kept-states-only");
}
VP_CONTRACT(td_ground) {
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
#ifndef VP_SYM
  for (auto *e : {&a, &b}) { std::sort(e->values.v.begin(), e->values.v.end()); std::sort(e->values.c.begin(), e->values.c.end()); }
#endif
  auto sorted = [](std::vector<double> &v) { return vp_forall(1, v.size(), [&](int j) { return v[0] <= v[j]; }); };
  vp_assume(sorted(a.values.v) && sorted(b.values.v) && sorted(a.values.c) && sorted(b.values.c));
  const double g = d.find_Egs(), c = d.find_Clw();
  vp_assert(g <= a.values.v[0] && g <= b.values.v[0] && (g == a.values.v[0] || g == b.values.v[0]), "ground-state");
  vp_assert(c <= a.values.c[0] && c <= b.values.c[0] && (c == a.values.c[0] || c == b.values.c[0]), "lowest-criterion");
}
// running total of the ground state energies
VP_CONTRACT(td_offsets) {
  Params &P = vp_params();
  P.Lambda = 1 + vp_pos("L"); P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = vp_bool("absolute"); P.substeps = false; P.silent = true;
  Step step(P); const int N = vp_int_in("N", 0, 99); step.set(N);
  Stats<double> &st = vp_stats<double>();
  st.rel_Egs = vp_vec_n<double>("rel", 100); st.abs_Egs = vp_vec_n<double>("abs", 100); st.energy_offsets = vp_vec_n<double>("off", 100);
  const double t0 = vp_real("total"), e = vp_real("Egs"); st.total_energy = t0; st.Egs = e;
  const auto r0 = st.rel_Egs, a0 = st.abs_Egs, o0 = st.energy_offsets; const int k = vp_int_in("k", 0, 99);
  st.update(step);
  const double mag = fabs(t0) + fabs(e * step.scale());
  vp_assert_near(st.total_energy, t0 + e * step.scale(), mag, "total-energy-accumulates");
  vp_assert_near(st.rel_Egs[k], k == N ? e : r0[k], mag + fabs(r0[k]) + fabs(e), "relative-shift-of-this-step");
  vp_assert_near(st.abs_Egs[k], k == N ? e * step.scale() : a0[k], mag + fabs(a0[k]), "absolute-shift-of-this-step");
  vp_assert_near(st.energy_offsets[k], k == N ? t0 + e * step.scale() : o0[k], mag + fabs(o0[k]), "offset-of-this-step");
}
