// tools/nrgchain: star-Hamiltonian coefficients
#include "vp.h"
//@ opts: candlin=2 defstore=1 trials=2000 timeout=100
//@ chain_weights: nativeonly=1 trials=10000
//@ star_tool: nativeonly=1 trials=600
//@ flags: -fno-access-control -fno-strict-return
//@ libs: -lgmp
#include "nrgchain_inc.h"
#define main tool_main
#include "nrgchain/nrgchain.cc"
#undef main
#undef cout
#include "nrgchain_tool.h"
static double setup() {
  vp_out.n = 0;
#ifdef VP_SYM
  intrho_pos.id = 1; intrho_neg.id = 2; g_pos.id = 3; g_neg.id = 4; f_pos.id = 5; f_neg.id = 6;
  const double L = vp_real("Lambda"); vp_assume(L > 1);
  z = vp_real("z"); vp_assume(0 < z && z <= 1);
#else
  const double L = 1 + tio::pick(1, 32) / 8.0; z = tio::pick(1, 8) / 8.0;
  const auto tab = [](double a, double b) { Vec v; double x = a; const int n = tio::pick(2, 6); for (int k = 0; k < n; k++) { v.push_back({x, 0.25 + tio::pick(0, 16) / 8.0}); x += (b - a) / (n - 1); } return v; };
  vecrho_pos = tab(1e-99, 1); vecrho_neg = tab(1e-99, 1); init_rho();
  g_pos = LinInt(tab(2, 20)); g_neg = LinInt(tab(2, 20)); f_pos = LinInt(tab(1, 20)); f_neg = LinInt(tab(1, 20));
#endif
  Lambda = LAMBDA(L); adapt = vp_bool("adapt");
  return L;
}
static double mesh(bool neg, double L, double x) {
  if (x <= 2) return 1;
  const double p = std::pow(L, 2.0 - x);
  return adapt ? (neg ? g_neg(x) : g_pos(x)) * p : p;
}
#ifdef VP_SYM
static double ep_(double x) { return vp_uf1("eps-pos", x); }
static double em_(double x) { return vp_uf1("eps-neg", x); }
[[gnu::used]] static double vp_callee_eps_pos(double x) { return vp_uf1("eps-pos", x); }
[[gnu::used]] static double vp_callee_eps_neg(double x) { return vp_uf1("eps-neg", x); }
[[gnu::used]] static double vp_callee_Eps_pos(double x) { vp_assert(x >= 1, "positive-energies-in-the-domain"); return vp_uf1("Eps-pos", x); }
[[gnu::used]] static double vp_callee_Eps_neg(double x) { vp_assert(x >= 1, "negative-energies-in-the-domain"); return vp_uf1("Eps-neg", x); }
#endif
VP_CONTRACT(chain_mesh) {
  const double L = setup(); double x = vp_real("x");
#ifndef VP_SYM
  x = 1 + tio::pick(0, 100) / 16.0;
#endif
  band = "adapt";
  const double a = mesh(false, L, x), b = mesh(true, L, x), p = std::pow(L, 2.0 - x);
  vp_assert_near(eps_pos(x), a, fabs(a), "positive-mesh-points");
  vp_assert_near(eps_neg(x), b, fabs(b), "negative-mesh-points");
  if (x >= 1) {
    vp_assert_near(Eps_pos(x), f_pos(x) * p, fabs(f_pos(x) * p), "positive-representative-energies");
    vp_assert_near(Eps_neg(x), f_neg(x) * p, fabs(f_neg(x) * p), "negative-representative-energies");
  }
}
// flat band: closed forms, continuous at the border of the first interval
VP_CONTRACT(chain_flat) {
  const double L = setup(); band = "flat";
  double x = vp_real("x");
#ifndef VP_SYM
  x = 1 + tio::pick(0, 100) / 16.0;
#endif
  vp_assume(x >= 1); vp_split(x < 2);
  const double ln = std::log(L);
  if (x < 2) {
    vp_assert_near(ln * Eps_pos(x), 1 - std::pow(L, 1 - x) + ln * (2 - x), 2 + 2 * fabs(ln), "first-interval");
    vp_assert_near(ln * Eps_neg(x), 1 - std::pow(L, 1 - x) + ln * (2 - x), 2 + 2 * fabs(ln), "first-interval-negative");
  } else {
    const double w = std::pow(L, 2 - x);
    vp_assert_near(ln * Eps_pos(x), (1 - std::pow(L, -1.0)) * w, fabs(w), "geometric-intervals");
    vp_assert_near(ln * Eps_neg(x), (1 - std::pow(L, -1.0)) * w, fabs(w), "geometric-intervals-negative");
  }
}
// star coefficients: weight of each interval, normalised to one; representative energies. The mesh functions are used through
// the contracts above.
VP_CONTRACT(chain_tables) {
  const double L = setup(); band = "adapt";
  mMAX = vp_int_in("mMAX", 1, 1000000);
#ifdef VP_SYM
  vp_use_contract("eps_pos"); vp_use_contract("eps_neg"); vp_use_contract("Eps_pos"); vp_use_contract("Eps_neg");
  const auto mp = [](double x) { return ep_(x); }; const auto mm = [](double x) { return em_(x); };
  const auto rp = [](double x) { return vp_uf1("Eps-pos", x); }; const auto rm = [](double x) { return vp_uf1("Eps-neg", x); };
#else
  mMAX = tio::pick(1, 12);
  const auto mp = [L](double x) { return mesh(false, L, x); }; const auto mm = [L](double x) { return mesh(true, L, x); };
  const auto rp = [L](double x) { return f_pos(x) * std::pow(L, 2.0 - x); }; const auto rm = [L](double x) { return f_neg(x) * std::pow(L, 2.0 - x); };
#endif
  const int n = mMAX + 1;
  const auto wp = [&](int m) { return intrho_pos(mp(z + m + 1)) - intrho_pos(mp(z + m + 2)); };
  const auto wm = [&](int m) { return intrho_neg(mm(z + m + 1)) - intrho_neg(mm(z + m + 2)); };
  const double theta = vp_sum(0, n, [&](int m) { return wp(m) + wm(m); });
  const double lead = intrho_pos(mp(z + 1)) - intrho_pos(mp(z + mMAX + 2)) + intrho_neg(mm(z + 1)) - intrho_neg(mm(z + mMAX + 2));
  vp_assume(vp_forall(0, n, [&](int m) { return wp(m) >= 0 && wm(m) >= 0; }));
  vp_assume(lead > 0);
#ifdef VP_SYM
  // the weights of the intervals telescope
  vp_candidate([&](int i, double s) { return vp_eq(s, vp_sum(0, i, [&](int m) { return wp(m) + wm(m); })); }, "total");
  vp_candidate([&](int i, double s) { return vp_eq(s, intrho_pos(mp(z + 1)) - intrho_pos(mp(z + i + 1)) + intrho_neg(mm(z + 1)) - intrho_neg(mm(z + i + 1))); }, "telescope");
  double total = 0; for (int i = 0; i < n; i++) total += wp(i) + wm(i);
  vp_assert(vp_eq(total, theta), "lemma-total");
  vp_assert(vp_eq(theta, lead), "lemma-telescope");
  vp_clear_candidates();
  vp_candidate([&](int i, double s) { return vp_eq(lead * s, vp_sum(0, i, [&](int m) { return wp(m) + wm(m); })); }, "checksum");
#endif
  tables();
  vp_assert((int)de_pos.size() == n && (int)de_neg.size() == n && (int)du_pos.size() == n && (int)du_neg.size() == n, "all-coefficients");
  const int m = vp_int_in("m", 0, n - 1);
  vp_assert_near(de_pos[m], rp(z + m + 1), fabs(rp(z + m + 1)), "positive-energies");
  vp_assert_near(de_neg[m], rm(z + m + 1), fabs(rm(z + m + 1)), "negative-energies");
  vp_assert_near(result_theta, lead, fabs(lead), "total-weight");
}
// bounded: the couplings themselves
VP_CONTRACT(chain_weights) {
#ifndef VP_SYM
  const double L = setup(); band = "adapt"; mMAX = tio::pick(1, 12); const int n = mMAX + 1;
  const auto wp = [&](int m) { return intrho_pos(mesh(false, L, z + m + 1)) - intrho_pos(mesh(false, L, z + m + 2)); };
  const auto wm = [&](int m) { return intrho_neg(mesh(true, L, z + m + 1)) - intrho_neg(mesh(true, L, z + m + 2)); };
  double theta = 0; bool ok = true; for (int m = 0; m < n; m++) { theta += wp(m) + wm(m); ok = ok && wp(m) >= 0 && wm(m) >= 0; }
  if (!ok || !(theta > 0)) return;
  tables();
  for (int m = 0; m < n; m++) {
  vp_assert_near(du_pos[m] * du_pos[m] * theta, wp(m), fabs(theta), "positive-weights-normalised");
  vp_assert_near(du_neg[m] * du_neg[m] * theta, wm(m), fabs(theta), "negative-weights-normalised");
  }
#endif
}

VP_CONTRACT(star_tool) {
#ifndef VP_SYM
  const Chain c = run_tool(true);
  vp_assert(!c.failed, "tool-succeeds");
  vp_assert(std::fabs(c.total - c.theta) <= 1e-9 * c.theta, "reported-total-weight");
  bool t = true; for (int s = 0; s < 2; s++) { const auto E = tio::read_table(s ? "de_neg.dat" : "de_pos.dat"), U = tio::read_table(s ? "du_neg.dat" : "du_pos.dat"); t = t && E.size() == c.mm + 1u && U.size() == c.mm + 1u; for (int m = 0; t && m <= c.mm; m++) t = tio::close(E[m][0], c.ie[s][m], 0) && std::fabs(U[m][0] * U[m][0] - c.iw[s][m] / c.theta) < 1e-10; }
  vp_assert(t, "saved-tables");
  // the second run starts from the tables saved by the first
  vp_assert(c.xi.size() == c.N + 1u && c.zeta.size() == c.N + 1u && moments(c.e, c.w, c.xi, c.zeta), "tables-loaded-again");
#endif
}
