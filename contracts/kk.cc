// tools/kk: Kramers-Kronig transform
#include "vp.h"
//@ opts: candlin=1
//@ kk_transform: nativeonly=1 trials=3000
//@ kk_grid: nativeonly=1 trials=5000
//@ kk_tool: nativeonly=1 trials=1500
//@ flags: -fno-access-control
//@ libs: -lgsl -lgslcblas
#include <iostream>
#include <iomanip>
#include <functional>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_math.h>
#include <gsl/gsl_sf.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_integration.h>
#include "toolio.h"
// the interpolated function is arbitrary: an uninterpreted function in the proof, a polynomial in the native runs
#ifdef VP_SYM
static double fn(double x) { return vp_uf1("spline", x); }
static double dfn(double x) { return vp_uf1("derivative", x); }
#else
static bool real_spline = false; static double co[5];
static double fn(double x) { return co[0] + x * (co[1] + x * (co[2] + x * (co[3] + x * co[4]))); }
static double dfn(double x) { return co[1] + x * (2 * co[2] + x * (3 * co[3] + x * 4 * co[4])); }
#endif
static double test_eval(const gsl_spline *s, double x, gsl_interp_accel *a) {
#ifndef VP_SYM
  if (real_spline) return gsl_spline_eval(s, x, a);
#endif
  return fn(x);
}
static double test_deriv(const gsl_spline *s, double x, gsl_interp_accel *a) {
#ifndef VP_SYM
  if (real_spline) return gsl_spline_eval_deriv(s, x, a);
#endif
  return dfn(x);
}
static bool stand_in; static int qag_n; static double probe, qag_z, qag_a, qag_b, qag_v;
static int test_qag(const gsl_function *F, double a, double b, double ea, double er, size_t lim, int key, gsl_integration_workspace *w, double *r, double *e) {
#ifndef VP_SYM
  if (!stand_in) return gsl_integration_qag(F, a, b, ea, er, lim, key, w, r, e);
#endif
  qag_n++; qag_a = a; qag_b = b; qag_v = F->function(probe, F->params); // the integrand at an arbitrary point
  *r = vp_uf1("integral", qag_z); *e = 0; return 0;
}
#define gsl_integration_qag test_qag
#define gsl_spline_eval test_eval
#define gsl_spline_eval_deriv test_deriv
#include "kk/kk.hpp"
#undef gsl_spline_eval
#undef gsl_integration_qag
#undef gsl_spline_eval_deriv
using namespace NRG::KK;
union Store { KK k; Store() {} ~Store() {} };
static Store st;
VP_CONTRACT(kk_integrand) {
  KK &k = st.k;
  const double X = vp_real("X"), Z = vp_real("Z");
#ifndef VP_SYM
  real_spline = false; for (auto &c : co) c = tio::grid(16);
#endif
  const double a = X == Z ? dfn(X) : (fn(X) - fn(Z)) / (X - Z), b = -X == Z ? dfn(-X) : (fn(-X) - fn(Z)) / (-X - Z);
  vp_assert_near(k.f(X, Z), a + b, fabs(a) + fabs(b), "both-half-axes-with-the-singularity-removed");
}
VP_CONTRACT(kk_calc) {
  KK &k = st.k;
#ifndef VP_SYM
  real_spline = false; for (auto &c : co) c = tio::grid(16);
#endif
  const double Z = vp_real("Z"); probe = vp_real("X"); qag_z = Z; k.Xmax = vp_pos("Xmax"); qag_n = 0;
  vp_assume(fabs(Z) < k.Xmax && fabs(probe) != fabs(Z));
  stand_in = true;
  const double g = k.calc(Z);
  stand_in = false;
  vp_assert(qag_n == 1 && qag_a == 0 && qag_b == k.Xmax, "quadrature-over-the-half-axis");
  vp_assert_near(qag_v, (fn(probe) - fn(Z)) / (probe - Z) + (fn(-probe) - fn(Z)) / (-probe - Z), fabs(qag_v), "integrand");
  vp_assert_near(M_PI * g, vp_uf1("integral", qag_z) - 2 * fn(Z) * gsl_atanh(Z / k.Xmax), fabs(vp_uf1("integral", qag_z)) + fabs(2 * fn(Z) * gsl_atanh(Z / k.Xmax)), "transform");
}
VP_CONTRACT(kk_transform) {
#ifndef VP_SYM
  real_spline = false; const double B = tio::pick(4, 40) / 8.0;
  for (int k = 0; k < 5; k++) co[k] = tio::grid(16) / std::pow(B, k);
  XYFUNC im; const int n = tio::pick(3, 6); for (int k = 1; k <= n; k++) { im.push_back({B * k / n, 0.}); im.push_back({-B * k / n, 0.}); }
  KK t(im);
  double Z = tio::coin() ? B * (tio::grid(30) / 4.0) : (tio::coin() ? 1 : -1) * B * tio::pick(1, n - 1) / n;
  if (std::fabs(Z) >= B) Z = B / 3;
  double K = std::log((B - Z) / (B + Z)), s = co[0] * K;
  for (int k = 1; k < 5; k++) { K = Z * K + (std::pow(B, k) - std::pow(-B, k)) / k; s += co[k] * K; }
  vp_assert(std::fabs(t.calc(Z) - s / M_PI) <= 1e-6 * (100 + std::fabs(s)), "principal-value-integral-over-pi");
#endif
}
VP_CONTRACT(kk_grid) {
#ifndef VP_SYM
  real_spline = true;
  const int n = tio::pick(0, 5); XYFUNC im; double x = 0;
  for (int k = 0; k < n; k++) { x += tio::pick(1, 9) / 8.0; im.push_back({x, tio::grid()}); im.push_back({-x, tio::grid()}); }
  for (size_t k = 0; k + 1 < im.size(); k++) std::swap(im[k], im[k + vp::rng() % (im.size() - k)]);
  const int kind = n ? tio::pick(0, 3) : 0; bool good = n > 0 && im.size() >= 5;
  if (kind == 1) { im.push_back({im[0].first + 0.01, 1.0}); good = false; }            // odd number of points
  if (kind == 2) { im.push_back({x + 1, 0.}); im.push_back({-x - 1.5, 0.}); good = false; } // interval not symmetric
  if (kind == 3 && n >= 2) { for (auto &p : im) if (std::fabs(p.first) < x) { p.first += 0.03; good = false; break; } } // grid not symmetric
  bool thrown = false; std::vector<double> Xpts, Xpos; double lo = 0, hi = 0;
  try { KK t(im); Xpts = t.Xpts; Xpos = t.Xpos; lo = t.Xmin; hi = t.Xmax; } catch (const std::runtime_error &) { thrown = true; }
  vp_assert(thrown == !good, "only-even-symmetric-grids-accepted");
  if (!thrown) {
    vp_assert(Xpts.size() == im.size() && std::is_sorted(Xpts.begin(), Xpts.end()) && lo == Xpts.front() && hi == Xpts.back(), "grid-of-all-points");
    bool pos = Xpos.size() * 2 == Xpts.size(); for (size_t k = 0; k < Xpos.size() && pos; k++) pos = Xpos[k] > 0 && Xpos[k] == Xpts[Xpos.size() + k];
    vp_assert(pos, "positive-half");
  }
#endif
}
VP_CONTRACT(kk_tool) {
#ifndef VP_SYM
  real_spline = true;
  const int n = tio::pick(3, 6); XYFUNC im; double x = 0;
  for (int k = 0; k < n; k++) { x += tio::pick(1, 9) / 8.0; im.push_back({x, tio::grid()}); im.push_back({-x, tio::grid()}); }
  std::vector<std::vector<double>> t; for (auto &p : im) t.push_back({p.first, p.second});
  tio::table("in", t);
  tio::Args a({"kk", "in", "out"});
  { std::ostringstream sink; auto *b = std::cout.rdbuf(sink.rdbuf()); { KK k(a.argc(), a.argv()); } std::cout.rdbuf(b); }
  std::sort(im.begin(), im.end());
  const auto r = tio::read_table("out"); bool ok = r.size() == im.size();
  KK lib(im); auto *s = lib.spline.get(); auto *acc = lib.acc.get();
  gsl_integration_workspace *w = gsl_integration_workspace_alloc(1000);
  for (size_t k = 0; k < im.size() && ok; k++) {
    const double Z = im[k].first, fz = im[k].second;
    ok = tio::close(r[k][0], Z, 0);
    if (std::fabs(Z) == x) continue;
    struct D { gsl_spline *s; gsl_interp_accel *a; double Z, fz; } d{s, acc, Z, fz};
    gsl_function F; F.params = &d; F.function = [](double X, void *p) { D &q = *(D *)p; return X == q.Z ? gsl_spline_eval_deriv(q.s, X, q.a) : (gsl_spline_eval(q.s, X, q.a) - q.fz) / (X - q.Z); };
    double sum = fz * std::log((x - Z) / (x + Z)), v, e;
    for (size_t q = 0; q + 1 < im.size(); q++) { gsl_integration_qag(&F, im[q].first, im[q + 1].first, 1e-10, 1e-8, 1000, GSL_INTEG_GAUSS21, w, &v, &e); sum += v; }
    ok = ok && std::fabs(r[k][1] - sum / M_PI) <= 1e-4 * (10 + std::fabs(sum));
  }
  gsl_integration_workspace_free(w);
  vp_assert(r.size() == im.size(), "one-line-per-grid-point");
  vp_assert(ok, "transform-on-the-input-grid");
#endif
}
