// truncation of the NRG spectrum (c++/truncation.hpp, c++/eigen.hpp)
//@ libs: -lboost_serialization -lgmp
//@ flags: -fno-access-control
//@ opts: candlin=2
//@ retained_threshold: nativeonly=1
#include "vp.h"
#include "rbtree.h"
#include "core.h"
#include "debug.hpp"
#include "step.hpp"
#include "eigen.hpp"
#include "symmetry.hpp"
#include "truncation.hpp"
using namespace NRG;
using namespace std;
static void fill(NRG::Eigen<double> &e, const char *nm) {
  const int n = vp_int_in(nm, 1, 100000);
  e.values.v = vp_vec_n<double>("raw", n); e.values.c = vp_vec_n<double>("crit", n); e.values.corrected = vp_vec_n<double>("corr", n);
  e.vectors._dim = n;
}
// contract of highest_retained: some value (its own contract pins it down; the counts below hold for any threshold)
static double cmax_;
[[gnu::used]] static double vp_callee_highest_retained(const Step &, const DiagInfo<double> &, const Params &) { return cmax_; }
static int count(NRG::Eigen<double> &e, double c) { int n = 0; for (auto x : e.values.c) n += x <= c; return n; }
VP_CONTRACT(truncate_counts) {
  Params &P = vp_params(); P.Lambda = 2.0; P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = true; P.substeps = false; P.floquet = false;
  P.lastall = vp_bool("lastall"); P.lastalloverride = false; P.cfs = false; P.cfsgt = false; P.cfsls = false; P.fdm = false; P.fdmgt = false; P.fdmls = false; P.fdmmats = false; P.fdmexpv = false;
  P.Nmax = vp_int_in("Nmax", 1, 100);
  Step step(P); step.set(vp_int_in("N", 0, 100));
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
#ifndef VP_SYM
  for (auto *e : {&a, &b}) { for (auto &x : e->values.c) x = fabs(x); std::sort(e->values.c.begin(), e->values.c.end()); }
  a.values.c[0] = 0; P.keepall = ""; P.keep = 1 + vp::rng() % 20; P.keepenergy = -1; P.safeguard = 0;
  cmax_ = highest_retained(step, d, P);
#else
  cmax_ = vp_real("Cmax");
#endif
  vp_use_contract("highest_retained");
  const auto cnt = [](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return e.values.c[j] <= cmax_ ? 1 : 0; }); };
  vp_candidate([&](int k, int n) { return n == cnt(a, k); }, "a");
  vp_candidate([&](int k, int n) { return n == cnt(b, k); }, "b");
  const bool lastall = P.lastall && (int)step.ndx() == P.Nmax - 1;
  truncate_prepare(step, d, [](const Invar &I) { return I.getqn(0); }, P);
  for (auto *e : {&a, &b}) {
    vp_assert((int)e->getnrkept() == (lastall ? (int)e->values.c.size() : (int)cnt(*e, e->values.c.size())), "states-up-to-the-threshold-are-kept");
    vp_assert(e->getnrkept() + e->getnrdiscarded() == e->values.c.size(), "kept-or-discarded");
  }
}
// too few states computed in some subspace: more are asked for, and only then
VP_CONTRACT(truncate_not_enough) {
  Params &P = vp_params(); P.Lambda = 2.0; P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = true; P.substeps = false; P.floquet = false;
  P.lastall = false; P.lastalloverride = false; P.cfs = false; P.cfsgt = false; P.cfsls = false; P.fdm = false; P.fdmgt = false; P.fdmls = false; P.fdmmats = false; P.fdmexpv = false;
  P.Nmax = 10;
  Step step(P); step.set(vp_int_in("N", 0, 8));
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
  const int na = a.values.c.size(), nb = b.values.c.size();
  a.vectors._dim = na + vp_int_in("missing", 0, 2); b.vectors._dim = nb + vp_int_in("missing", 0, 2);
#ifndef VP_SYM
  for (auto *e : {&a, &b}) { for (auto &x : e->values.c) x = fabs(x); std::sort(e->values.c.begin(), e->values.c.end()); }
  a.values.c[0] = 0; P.keepall = ""; P.keep = 1 + vp::rng() % 20; P.keepenergy = -1; P.safeguard = 0;
  cmax_ = highest_retained(step, d, P);
#else
  cmax_ = vp_real("Cmax");
#endif
  vp_use_contract("highest_retained");
  const auto cnt = [](NRG::Eigen<double> &e, int k) { return vp_sum(0, k, [&](int j) { return e.values.c[j] <= cmax_ ? 1 : 0; }); };
  vp_candidate([&](int k, int n) { return n == cnt(a, k); }, "a");
  vp_candidate([&](int k, int n) { return n == cnt(b, k); }, "b");
  const bool thrown = vp_throws([&] { truncate_prepare(step, d, [](const Invar &I) { return I.getqn(0); }, P); });
  const auto shortage = [&](NRG::Eigen<double> &e, int n) { return (int)cnt(e, n) == n && e.values.c[n - 1] != cmax_ && (int)e.vectors._dim > n; };
  vp_assert(thrown == (shortage(a, na) || shortage(b, nb)), "asks-for-more-states");
}
VP_CONTRACT(truncate_stats_counts) {
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
  const int na = a.values.c.size(), nb = b.values.c.size(), ka = vp_int_in("ka", 0, na), kb = vp_int_in("kb", 0, nb), m = vp_int_in("m", 1, 20);
  a.truncate_prepare(ka); b.truncate_prepare(kb);
  truncate_stats t(d, [m](const Invar &I) { return I.getqn(0) * m; });
  vp_assert((int)t.nrall == na + nb && (int)t.nrkept == ka + kb, "states");
  vp_assert((int)t.nrallmult == m * na + 2 * m * nb && (int)t.nrkeptmult == m * ka + 2 * m * kb, "states-with-multiplicity");
}
// the threshold keeps the requested number of levels (or all up to the requested energy, plus one), and continues through
// near-degenerate levels up to the allowed number of extra ones
VP_CONTRACT(retained_threshold) {
  Params &P = vp_params(); P.Lambda = 2.0; P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.absolute = vp_bool("absolute"); P.substeps = false; P.floquet = false;
  P.keepall = ""; P.keep = vp_int_in("keep", 1, 40); P.keepmin = vp_int_in("keepmin", 0, 20); P.keepenergy = -1.0; P.safeguard = vp_bool("guard") ? 0.3 : 0.0; P.safeguardmax = vp_int_in("guardmax", 0, 6);
  vp_assume(P.keepmin <= P.keep);
  Step step(P); step.set(vp_int_in("N", 0, 10));
  DiagInfo<double> d;
  NRG::Eigen<double> &a = d[Invar(1)], &b = d[Invar(2)];
  fill(a, "na"); fill(b, "nb");
  const bool byenergy = vp_bool("byenergy");
  if (byenergy) P.keepenergy = vp_pos("keepenergy");
#ifndef VP_SYM
  for (auto *e : {&a, &b}) { for (auto &x : e->values.c) x = fabs(x); if (vp::rng() % 2) for (auto &x : e->values.c) x = int(x * 4) / 4.0; std::sort(e->values.c.begin(), e->values.c.end()); }
  a.values.c[0] = 0;
#endif
  const double cut = P.keepenergy * step.unscale();
  std::vector<double> all = a.values.c; all.insert(all.end(), b.values.c.begin(), b.values.c.end()); std::sort(all.begin(), all.end());
  const int n = all.size();
  int want = P.keep;
  if (byenergy) { int c = 1; for (auto x : all) c += x <= cut; want = std::min<int>(std::max<int>(c, P.keepmin), P.keep); }
  want = std::min(want, n);
  if (want < 1) want = 1;
  int extra = 0;
  if (P.safeguard > 0) while (want < n && extra < P.safeguardmax && all[want] - all[want - 1] <= P.safeguard) want++, extra++;
  const double r = highest_retained(step, d, P);
  vp_assert(r == all[want - 1], "threshold");
  P.keepall = vp_bool("odd") ? "odd" : vp_bool("even") ? "even" : "3,7,10";
  const bool keeps = P.keepall == "odd"s ? step.N() % 2 == 1 : P.keepall == "even"s ? step.N() % 2 == 0 : step.N() == 3 || step.N() == 7 || step.N() == 10;
  vp_assert(keepall(step, P) == keeps, "steps-in-which-all-are-kept");
  if (keeps) vp_assert(highest_retained(step, d, P) == all[n - 1], "all-kept");
}
