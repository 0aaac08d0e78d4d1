// tools/nrgchain: tridiagonalisation
#include "vp.h"
//@ opts: candlin=1 trials=2000
//@ chain_tridiag: nativeonly=1 trials=2000
//@ chain_norm: nativeonly=1 trials=5000
//@ chain_tool: nativeonly=1 trials=600
//@ flags: -fno-access-control -fno-strict-return
//@ libs: -lgmp
#include "nrgchain_inc.h"
#define main tool_main
#include "nrgchain/nrgchain.cc"
#undef main
#undef cout
#include "nrgchain_tool.h"
// energy scale of the n-th shell and the conversion of the coefficients
VP_CONTRACT(chain_scale) {
  double L = vp_real("Lambda"); const int N = vp_int_in("N", 0, 1000); z = vp_real("z");
#ifndef VP_SYM
  L = 1 + tio::pick(1, 64) / 8.0; z = tio::pick(1, 16) / 16.0;
#endif
  vp_assume(L > 1); vp_assume(0 < z && z <= 1); Lambda = LAMBDA(L);
  const double ln = std::log(L), e = (1 - 1 / L) / ln * std::pow(L, -(N - 1.0) / 2.0 + 1 - z);
  vp_assert_near(SCALE(N), e, fabs(e), "shell-scale");
}
// normalisation of the starting vector
VP_CONTRACT(chain_norm) {
#ifdef VP_SYM
  const int n = vp_int_in("n", 1, 1000000);
  vmpf up(n), um(n);
  vp_assume(vp_sum(0, n, [&](int i) { return up[i].val[0].v * up[i].val[0].v + um[i].val[0].v * um[i].val[0].v; }) > 0);
#else
  const int n = tio::pick(1, 8);
  vmpf up(n), um(n); std::vector<double> a(n), b(n); double s = 0;
  for (int i = 0; i < n; i++) { a[i] = tio::grid(); b[i] = tio::grid(); s += a[i] * a[i] + b[i] * b[i]; mpf_set_d(up[i], a[i]); mpf_set_d(um[i], b[i]); }
  if (s == 0) return;
  fix_norm(up, um, n - 1);
  double t = 0;
  for (int i = 0; i < n; i++) {
    vp_assert(tio::close(mpf_get_d(up[i]), a[i] / std::sqrt(s)) && tio::close(mpf_get_d(um[i]), b[i] / std::sqrt(s)), "direction-kept");
    t += std::pow(mpf_get_d(up[i]), 2) + std::pow(mpf_get_d(um[i]), 2);
  }
  vp_assert(tio::close(t, 1), "unit-norm");
#endif
}
VP_CONTRACT(chain_tridiag) {
#ifndef VP_SYM
  reset_calculation_state();
  const double L = 1.5 + tio::pick(0, 20) / 8.0; Lambda = LAMBDA(L); z = tio::pick(1, 8) / 8.0;
  Nmax = tio::pick(0, 4); mMAX = tio::pick(Nmax + 1, Nmax + 8); preccpp = 600; bandrescale = tio::pick(1, 8) / 4.0; rescalexi = tio::coin();
  const bool sym = tio::coin(); std::vector<double> e, w;
  for (unsigned m = 0; m <= mMAX; m++) {
    de_pos.push_back(std::pow(L, -(double)m) * (1 + tio::pick(0, 7) / 16.0)); du_pos.push_back(std::sqrt(std::pow(L, -(double)m)) * (0.25 + tio::pick(0, 8) / 8.0));
    de_neg.push_back(sym ? de_pos[m] : std::pow(L, -(double)m) * (1 + tio::pick(0, 7) / 16.0)); du_neg.push_back(sym ? du_pos[m] : std::sqrt(std::pow(L, -(double)m)) * (0.25 + tio::pick(0, 8) / 8.0));
    e.push_back(de_pos[m] * bandrescale); w.push_back(du_pos[m] * du_pos[m]); e.push_back(-de_neg[m] * bandrescale); w.push_back(du_neg[m] * du_neg[m]);
  }
  { Quiet q; tridiag(); }
  vp_assert(result_xi.size() == Nmax + 1 && result_zeta.size() == Nmax + 1, "all-sites");
  auto xi = result_xi; if (rescalexi) for (unsigned n = 0; n < xi.size(); n++) xi[n] *= scale_of(n + 1, L);
  vp_assert(moments(e, w, xi, result_zeta), "moments-of-the-star-hamiltonian");
  if (sym) { bool ok = true; for (double x : result_zeta) ok = ok && std::fabs(x) < 1e-12; vp_assert(ok, "symmetric-band-no-onsite-energies"); }
#endif
}
VP_CONTRACT(chain_tool) {
#ifndef VP_SYM
  const Chain c = run_tool(false);
  vp_assert(!c.failed, "tool-succeeds");
  vp_assert(c.xi.size() == c.N + 1u && c.zeta.size() == c.N + 1u, "one-pair-per-site");
  vp_assert(moments(c.e, c.w, c.xi, c.zeta), "chain-reproduces-the-hybridisation");
#endif
}
