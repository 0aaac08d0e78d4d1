// energies of the states in the different units and references (c++/eigen.hpp)
//@ libs: -lboost_serialization
//@ flags: -fno-access-control
//@ opts: candlin=1
#include "vp.h"
#include "core.h"
#include "step.hpp"
#include "eigen.hpp"
using namespace NRG;
using namespace std;
static Values<double> values(int n) {
  Values<double> v;
  v.v = vp_vec_n<double>("raw", n); v.c = vp_vec_n<double>("crit", n); v.corrected = vp_vec_n<double>("corr", n);
  return v;
}
VP_CONTRACT(energy_units) {
  const int n = vp_int_in("n", 1, 100000), k = vp_int_in("k", 0, n - 1);
  Values<double> v = values(n);
  const double sc = vp_pos("scale"), sh = vp_real("shift"), ts = vp_real("T_shift"), gs = vp_real("GS");
  v.set_scale(sc); v.set_shift(sh); v.set_T_shift(ts); v.set_abs_GS_energy(gs);
  const double x = v.v[k];
  const double mag = fabs(x * sc) + fabs(sh * sc) + fabs(ts) + fabs(gs) + fabs(x) + fabs(sh);
  vp_assert_eq(v.raw(k), x, "raw"); vp_assert_eq(v.rel(k), x, "relative");
  vp_assert_near(v.abs(k), x * sc, mag, "absolute");
  vp_assert_near(v.rel_zero(k), x - sh, mag, "relative-to-ground-state");
  vp_assert_near(v.abs_zero(k), (x - sh) * sc, mag, "absolute-to-ground-state");
  vp_assert_near(v.abs_T(k), (x - sh) * sc + ts, mag, "total-energy");
  vp_assert_near(v.abs_G(k), (x - sh) * sc + ts - gs, mag, "to-many-body-ground-state");
  vp_assert_near(v.all_rel_zero()[k], v.rel_zero(k), mag, "list-relative-to-ground-state");
  vp_assert_near(v.all_abs_zero()[k], v.abs_zero(k), mag, "list-absolute-to-ground-state");
  vp_assert_near(v.all_abs_T()[k], v.abs_T(k), mag, "list-total-energy");
  vp_assert_near(v.all_abs_G()[k], v.abs_G(k), mag, "list-to-many-body-ground-state");
  vp_assert(v.corr(k) == v.corrected[k] && v.crit(k) == v.c[k] && (int)v.size() == n, "stored");
}
// shifting moves every level by the same amount and does not touch the other lists
VP_CONTRACT(energy_shifts) {
  const int n = vp_int_in("n", 1, 100000), k = vp_int_in("k", 0, n - 1);
  NRG::Eigen<double> e;
  e.values = values(n);
  const std::vector<double> v = e.values.v, c = e.values.c, r = e.values.corrected;
  const double g = vp_real("Egs"), l = vp_real("Clw");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return e.values.v[j] == v[j] - g; }) && vp_forall(i, n, [&](int j) { return e.values.v[j] == v[j]; }); }, "v");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return e.values.corrected[j] == r[j] - g; }) && vp_forall(i, n, [&](int j) { return e.values.corrected[j] == r[j]; }); }, "corr");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return e.values.c[j] == c[j] - l; }) && vp_forall(i, n, [&](int j) { return e.values.c[j] == c[j]; }); }, "crit");
  e.shift(g, l);
  const double mag = fabs(v[k]) + fabs(c[k]) + fabs(r[k]) + fabs(g) + fabs(l);
  vp_assert_near(e.values.v[k], v[k] - g, mag, "raw-shifted");
  vp_assert_near(e.values.corrected[k], r[k] - g, mag, "corrected-shifted");
  vp_assert_near(e.values.c[k], c[k] - l, mag, "criterion-shifted");
}
// bookkeeping of kept, discarded and stored states
VP_CONTRACT(state_ranges) {
  const int n = vp_int_in("n", 1, 100000), kept = vp_int_in("kept", 0, n), k = vp_int_in("k", 0, n - 1);
  NRG::Eigen<double> e;
  e.values = values(n);
  e.last = vp_bool("last");
  vp_assert((int)e.getnrkept() == n && (int)e.getnrdiscarded() == 0 && (int)e.getnrstored() == n, "before-truncation-all-are-kept");
  e.truncate_prepare(kept);
  vp_assert((int)e.getnrall() == n && (int)e.getnrcomputed() == n, "computed");
  vp_assert((int)e.getnrkept() == kept && (int)e.getnrdiscarded() == n - kept, "kept-plus-discarded");
  if (kept > 0) vp_assert((int)e.kept().front() == 0 && (int)e.kept().back() == kept - 1, "kept-range");
  vp_assert((int)e.kept().size() == kept && (int)e.discarded().size() == n - kept && (int)e.all().size() == n, "range-sizes");
  if (kept < n) vp_assert((int)e.discarded().front() == kept && (int)e.discarded().back() == n - 1, "discarded-range");
  const int b = e.last ? 0 : kept;
  vp_assert((int)e.Krange().size() == b && (int)e.Drange().size() == n - b, "last-step-discards-all");
  if (b < n) vp_assert((int)e.Drange().front() == b, "discarded-from-boundary");
  vp_assert((int)e.getnrstored() == n && (int)e.stored().size() == n, "stored-until-performed");
  e.truncate_perform();
  vp_assert((int)e.getnrstored() == kept && (int)e.stored().size() == kept, "stored-after-truncation");
  vp_assert((int)e.value_corr_msr().size() == kept && (int)e.value_corr_kept().size() == kept, "measured-states");
}
// statistical sums over one subspace
VP_CONTRACT(subspace_trace) {
  const int n = vp_int_in("n", 1, 100000);
  NRG::Eigen<double> e;
  e.values = values(n);
  const double sh = vp_real("shift"), f = vp_pos("factor");
#ifndef VP_SYM
  for (auto &x : e.values.v) x = sh + fabs(x) / f;
#endif
  vp_assume(vp_forall(0, n, [&](int j) { return e.values.v[j] >= sh; }));
  e.values.set_shift(sh);
  auto s0 = [&](int k) { return vp_sum(0, k, [&](int j) { return exp(-(f * (e.values.v[j] - sh))); }); };
  auto s1 = [&](int k) { return vp_sum(0, k, [&](int j) { return (f * (e.values.v[j] - sh)) * exp(-(f * (e.values.v[j] - sh))); }); };
  vp_candidate([&](int k, double s) { return s == s0(k); }, "Z");
  vp_candidate([&](int k, double s) { return s == s1(k); }, "E");
  const double Z = e.trace([](double) { return 1; }, f), E = e.trace([](double x) { return x; }, f);
  vp_assert_eq(Z, s0(n), "partition-function");
  vp_assert_eq(E, s1(n), "energy-sum");
}
