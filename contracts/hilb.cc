// tools/hilb: Hilbert transform of tabulated and model densities of states
#include "vp.h"
//@ opts: candlin=1 trials=2000
//@ hilb_transform: nativeonly=1
//@ hilb_table: nativeonly=1
//@ hilb_tool: nativeonly=1 trials=1500
//@ hilb_edge: nativeonly=1 trials=200
//@ flags: -fno-access-control
//@ libs: -lgsl -lgslcblas
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <complex>
#include <algorithm>
#include <stdexcept>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_integration.h>
// in the proofs the quadrature is a stand-in that evaluates the integrand at one arbitrary point of the interval
static bool stand_in; static int qag_n; static double qag_a[4], qag_b[4], qag_x[4], qag_v[4], qag_r[4];
static double zero_at = 1e300; // native runs: where the density is made to vanish
static double rre(double w) { return w == zero_at ? 0 : vp_uf1("rho-re", w); }
static double rim(double w) { return w == zero_at ? 0 : vp_uf1("rho-im", w); }
static double point(int k) {
#ifndef VP_SYM
  return -30 + 38 * (vp::rng() % 1001) / 1000.0;
#endif
  return k == 0 ? vp_real("point0") : k == 1 ? vp_real("point1") : k == 2 ? vp_real("point2") : vp_real("point3"); }
static double value(int k) { return k == 0 ? vp_real("integral0") : k == 1 ? vp_real("integral1") : k == 2 ? vp_real("integral2") : vp_real("integral3"); }
static int test_qag(const gsl_function *F, double a, double b, double ea, double er, size_t lim, int key, gsl_integration_workspace *w, double *r, double *e) {
#ifndef VP_SYM
  if (!stand_in) return gsl_integration_qag(F, a, b, ea, er, lim, key, w, r, e);
#endif
  const int k = qag_n++; qag_a[k] = a; qag_b[k] = b; qag_x[k] = point(k); qag_v[k] = F->function(qag_x[k], F->params);
  *r = qag_r[k] = value(k); *e = 0; return 0;
}
#ifdef VP_SYM
static char some[4];
#define gsl_integration_workspace_alloc(n) ((gsl_integration_workspace *)some)
#define gsl_integration_workspace_free(x) ((void)(x))
#define gsl_set_error_handler_off() ((void)0)
#endif
#define gsl_integration_qag test_qag
#include "hilb/hilb.hpp"
#undef gsl_integration_qag
#include "toolio.h"
using namespace NRG::Hilb;
#ifndef VP_SYM
typedef std::complex<double> C;
static double ypart() { const double s = tio::coin() ? 1 : -1; return s * (tio::coin() ? std::pow(10.0, -tio::pick(0, 8)) : tio::pick(1, 30) / 10.0); }
// Integrate[(c0 + c1 w + c2 w^2 + c3 w^3)/(z - w), {w, -B, B}] exactly
static C exact(const std::vector<C> &c, double B, C z) {
  C I = std::log((z + B) / (z - B)), s = c[0] * I; // the cut of the logarithm is the band itself
  for (int k = 1; k < 4; k++) { const double m = (std::pow(B, k) - std::pow(-B, k)) / k; I = z * I - m; s += c[k] * I; }
  return s;
}
// the transform of the semicircular density of states of half-bandwidth B
static C semicircle(C z, double B) { const C u = z / B, r = std::sqrt(u - 1.0) * std::sqrt(u + 1.0); return 2.0 * (u - r) / B; }
#endif
// real and imaginary part of (a + i b)/(z - w), and the magnitude that rounding is measured against
static double qre(double a, double b, double x, double y, double w) { return (a * (x - w) + b * y) / (y * y + (x - w) * (x - w)); }
static double qim(double a, double b, double x, double y, double w) { return (b * (x - w) - a * y) / (y * y + (x - w) * (x - w)); }
static double mg(double a, double b, double x, double y, double w) { return (fabs(a) + fabs(b)) * (fabs(y) + fabs(x - w)) / (y * y + (x - w) * (x - w)); }
VP_CONTRACT(hilb_direct) {
  const double x = vp_real("x"), y = vp_real("y"), B = vp_pos("B");
  vp_assume(fabs(y) >= 1e-3); vp_split(y > 0);
  qag_n = 0; stand_in = true;
  const auto g = hilbert_transform(rre, rim, B, std::complex<double>(x, y));
  stand_in = false; 
  vp_assert(qag_n == 2 && qag_a[0] == -B && qag_b[0] == B && qag_a[1] == -B && qag_b[1] == B, "integrated-over-the-band");
  const double w = qag_x[0], v = qag_x[1];
  vp_assert_near(qag_v[0], qre(rre(w), rim(w), x, y, w), mg(rre(w), rim(w), x, y, w), "real-integrand");
  vp_assert_near(qag_v[1], qim(rre(v), rim(v), x, y, v), mg(rre(v), rim(v), x, y, v), "imaginary-integrand");
  vp_assert(g.real() == qag_r[0] && g.imag() == qag_r[1], "real-and-imaginary-part");
}
// near the axis, inside the band: both half-bands, logarithmic variable, density at x subtracted and added back analytically
VP_CONTRACT(hilb_inside) {
  double x = vp_real("x"), y = vp_real("y"), B = vp_pos("B");
#ifndef VP_SYM
  y = (y < 0 ? -1 : 1) * std::pow(10.0, -3.5 - vp::rng() % 5);
  vp_assume(fabs(x) < 1e4 && B > 1e-2 && B < 1e4);
#endif
  vp_assume(fabs(y) < 1e-3 && y != 0 && -B < x && x < B); vp_split(y > 0);
#ifndef VP_SYM
  vp_assume(fabs(x) < B * 0.999);
#endif
  const double h = fabs(y), up = log(-((x - B) / h)), dn = log((B + x) / h);
  vp_assume(up > -36 && dn > -36); // not within rounding of the band edge
  qag_n = 0; stand_in = true;
  const auto g = hilbert_transform(rre, rim, B, std::complex<double>(x, y));
  stand_in = false; 
  vp_assert(qag_n == 4, "both-half-bands");
  vp_assert(qag_a[0] < -36 && qag_a[1] < -36 && qag_a[2] < -36 && qag_a[3] < -36, "down-to-the-singularity");
  vp_assert(vp_eq(qag_b[0], up) && vp_eq(qag_b[2], up), "up-to-the-upper-band-edge");
  vp_assert(vp_eq(qag_b[1], dn) && vp_eq(qag_b[3], dn), "down-to-the-lower-band-edge");
  const double R = rre(x), I = rim(x);
  { const double t = h * exp(qag_x[0]), w = h * exp(qag_x[0]) + x; vp_assert_near(qag_v[0], t * qre(rre(w) - R, rim(w) - I, x, y, w), t * mg(fabs(rre(w)) + fabs(R), fabs(rim(w)) + fabs(I), x, y, w), "real-integrand-upper"); }
  { const double t = h * exp(qag_x[1]), w = h * -exp(qag_x[1]) + x; vp_assert_near(qag_v[1], t * qre(rre(w) - R, rim(w) - I, x, y, w), t * mg(fabs(rre(w)) + fabs(R), fabs(rim(w)) + fabs(I), x, y, w), "real-integrand-lower"); }
  { const double t = h * exp(qag_x[2]), w = h * exp(qag_x[2]) + x; vp_assert_near(qag_v[2], t * qim(rre(w) - R, rim(w) - I, x, y, w), t * mg(fabs(rre(w)) + fabs(R), fabs(rim(w)) + fabs(I), x, y, w), "imaginary-integrand-upper"); }
  { const double t = h * exp(qag_x[3]), w = h * -exp(qag_x[3]) + x; vp_assert_near(qag_v[3], t * qim(rre(w) - R, rim(w) - I, x, y, w), t * mg(fabs(rre(w)) + fabs(R), fabs(rim(w)) + fabs(I), x, y, w), "imaginary-integrand-lower"); }
  // Integrate[1/(z - w), {w, -B, B}]
  const double lr = (log((B + x) * (B + x) + y * y) - log((B - x) * (B - x) + y * y)) / 2, li = atan((x - B) / y) - atan((x + B) / y);
  vp_assert_near(g.real(), qag_r[0] + qag_r[1] + R * lr - I * li, fabs(qag_r[0]) + fabs(qag_r[1]) + fabs(R * lr) + fabs(I * li) + fabs(R) + fabs(I), "real-part");
  vp_assert_near(g.imag(), qag_r[2] + qag_r[3] + R * li + I * lr, fabs(qag_r[2]) + fabs(qag_r[3]) + fabs(R * li) + fabs(I * lr) + fabs(R) + fabs(I), "imaginary-part");
}
// near the axis, outside the band: the density vanishes at x
VP_CONTRACT(hilb_outside) {
  double x = vp_real("x"), y = vp_real("y"), B = vp_pos("B");
#ifndef VP_SYM
  y = (y < 0 ? -1 : 1) * std::pow(10.0, -3.5 - vp::rng() % 5);
  vp_assume(fabs(x) < 1e4 && B > 1e-2 && B < 1e4);
#endif
  vp_assume(fabs(y) < 1e-3 && y != 0 && (x > B || x < -B)); vp_split(y > 0); vp_split(x > 0);
#ifndef VP_SYM
  zero_at = x;
#endif
  vp_assume(rre(x) == 0 && rim(x) == 0);
  const double h = fabs(y), s = x > 0 ? 1 : -1, near = x > 0 ? (x - B) / h : -((B + x) / h), far = x > 0 ? (B + x) / h : -((x - B) / h);
  vp_assume(log(near) < log(far)); // monotonicity of the logarithm
  qag_n = 0; stand_in = true;
  const auto g = hilbert_transform(rre, rim, B, std::complex<double>(x, y));
  stand_in = false; 
  vp_assert(qag_n == 2, "one-interval");
  vp_assert(vp_eq(qag_a[0], log(near)) && vp_eq(qag_b[0], log(far)) && vp_eq(qag_a[1], log(near)) && vp_eq(qag_b[1], log(far)), "over-the-band");
  { const double t = h * exp(qag_x[0]), w = h * (-s * exp(qag_x[0])) + x; vp_assert_near(qag_v[0], t * qre(rre(w), rim(w), x, y, w), t * mg(rre(w), rim(w), x, y, w), "real-integrand"); }
  { const double t = h * exp(qag_x[1]), w = h * (-s * exp(qag_x[1])) + x; vp_assert_near(qag_v[1], t * qim(rre(w), rim(w), x, y, w), t * mg(rre(w), rim(w), x, y, w), "imaginary-integrand"); }
  vp_assert(g.real() == qag_r[0] && g.imag() == qag_r[1], "real-and-imaginary-part");
}
VP_CONTRACT(hilb_transform) {
#ifndef VP_SYM
  const double B = tio::pick(1, 24) / 8.0;
  std::vector<C> c; for (int k = 0; k < 4; k++) c.push_back({tio::grid(16) / std::pow(B, k), tio::coin() ? tio::grid(16) / std::pow(B, k) : 0});
  double x = tio::coin() ? B * tio::grid(30) / 4.0 : B * (tio::coin() ? 1 : -1) * (1 + (tio::coin() ? 1 : -1) * 0.01 * tio::pick(1, 9)); const double y = ypart();
  if (std::fabs(std::fabs(x) - B) < 1e-3) x += 0.013 * B;
  const auto p = [&](double w) { C s = 0; for (int k = 3; k >= 0; k--) s = s * w + c[k]; return s; };
  const auto re = [&](double w) { return std::fabs(w) <= B ? p(w).real() : 0.0; }; const auto im = [&](double w) { return std::fabs(w) <= B ? p(w).imag() : 0.0; };
  const C got = hilbert_transform(re, im, B, C(x, y)), want = exact(c, B, C(x, y));
  double mag = 0; for (int k = 0; k < 4; k++) mag += std::abs(c[k]) * std::pow(std::max(B, std::fabs(x)), k) * 10;
  vp_assert(std::abs(got - want) <= 1e-6 * (mag + std::abs(want)), "transform-of-a-polynomial-density");
  const C up = hilbert_transform(re, im, B, C(x, y)), dn = hilbert_transform(re, [&](double w) { return -im(w); }, B, C(x, -y));
  vp_assert(std::abs(std::conj(dn) - up) <= 1e-6 * (mag + std::abs(want)), "conjugation-symmetry");
#endif
}
VP_CONTRACT(hilb_edge) {
#ifndef VP_SYM
  const double B = tio::pick(1, 24) / 8.0, x = tio::coin() ? B : -B, y = std::pow(10.0, -tio::pick(4, 8));
  const auto re = [&](double w) { return std::fabs(w) < B ? 2 / (M_PI * B) * std::sqrt(1 - w * w / (B * B)) : 0.0; };
  const C got = hilbert_transform(re, [](double) { return 0.0; }, B, C(x, y)), want = semicircle(C(x, y), B);
  vp_assert(std::abs(got - want) <= 1e-2 * std::abs(want), "transform-at-the-band-edge");
#endif
}
VP_CONTRACT(hilb_table) {
#ifndef VP_SYM
  auto X = tio::increasing(9); while (X.size() < 4) X.push_back(X.back() + 1);
  std::vector<double> R, I; for (size_t k = 0; k < X.size(); k++) { R.push_back(tio::grid(16)); I.push_back(tio::coin() ? tio::grid(16) : 0); }
  const double B = std::max(std::fabs(X.front()), std::fabs(X.back()));
  gsl_interp_accel *a = gsl_interp_accel_alloc(); gsl_spline *r = gsl_spline_alloc(gsl_interp_cspline, X.size()), *i = gsl_spline_alloc(gsl_interp_cspline, X.size());
  gsl_spline_init(r, X.data(), R.data(), X.size()); gsl_spline_init(i, X.data(), I.data(), X.size());
  double x = tio::grid(300) + 0.0625 / 4; const double y = ypart();
  const auto in = [&](double w) { return w >= X.front() && w <= X.back(); };
  interpolator f(X, R, 0.25), g(X, I);
  interpolator h(f); interpolator k(X, I); k = f;
  vp_assert(f(x) == (in(x) ? gsl_spline_eval(r, x, a) : 0.25) && g(x) == (in(x) ? gsl_spline_eval(i, x, a) : 0), "density-inside-the-table-only");
  vp_assert(h(x) == f(x) && k(x) == f(x), "copies-agree");
  vp_assert(bandwidth(X) == B, "band-encloses-the-table");
  const C got = hilbert_transform(X, R, I, C(x, y));
  const C want = hilbert_transform([&](double w) { return in(w) ? gsl_spline_eval(r, w, a) : 0.0; }, [&](double w) { return in(w) ? gsl_spline_eval(i, w, a) : 0.0; }, B, C(x, y));
  vp_assert(std::abs(got - want) <= 1e-9 * (1 + std::abs(want)), "transform-of-the-tabulated-density");
  // integration rule: exact for polynomials
  integrator q; const double u = tio::grid(20), v = tio::grid(20);
  vp_assert(tio::close(q([](double w) { return 3 * w * w - 2 * w + 1; }, u, v), v * v * v - v * v + v - (u * u * u - u * u + u), 100), "integral");
  integrator q2(std::move(q));
  vp_assert(tio::close(q2([](double w) { return 2 * w; }, u, v), v * v - u * u, 100), "integral-after-move");
  gsl_spline_free(r); gsl_spline_free(i); gsl_interp_accel_free(a);
#endif
}
VP_CONTRACT(hilb_tool) {
#ifndef VP_SYM
  const bool G = tio::coin(); double B = 1, sx = 0, sy = 0;
  std::vector<std::string> av = {"hilb"};
  const auto opt = [&](const char *o, double v) { av.push_back(o); av.push_back(std::to_string(v)); return v; };
  if (G) av.push_back("-G");
  if (tio::coin()) B = opt("-B", tio::pick(2, 20) / 4.0); else if (tio::coin()) B = 1 / opt("-s", tio::pick(1, 4) / 2.0);
  if (tio::coin()) sx = opt("-x", tio::pick(-4, 4) / 8.0);
  if (tio::coin()) sy = opt("-y", tio::pick(0, 4) / 8.0);
  const auto edge = [&](double x) { return std::fabs(std::fabs(x) - B) < 1e-3 * B; };
  const int use = tio::pick(1, 3); std::vector<double> xs, ys; bool ok = true;
  const int n = use == 2 ? 1 : tio::pick(1, 4);
  for (int k = 0; k < n; k++) { double x = tio::grid(24); while (edge(x + sx) || edge(k * 0.5 - x + sx)) x += 0.0371; xs.push_back(x); ys.push_back(use == 3 ? (tio::coin() ? -1 : 1) * tio::pick(0, 20) / 10.0 : tio::pick(1, 40) / 20.0); }
  const auto run = [&] {
    tio::Args a(av); std::ostringstream sink; auto *b = std::cout.rdbuf(sink.rdbuf());
    try { Hilb h(a.argc(), a.argv()); } catch (...) { std::cout.rdbuf(b); throw; }
    std::cout.rdbuf(b); return sink.str();
  };
  const auto val = [&](double x, double y) { return semicircle(C(x + sx, y + sy), B); };
  const auto near = [](double a, double b) { return std::fabs(a - b) <= 2e-5 * (1 + std::fabs(b)); };
  if (use == 1) {
    { std::ofstream o("points"); o << std::setprecision(17); for (int k = 0; k < n; k++) o << k + 1 << " " << xs[k] << " " << ys[k] << "\n"; }
    av.push_back("-o"); av.push_back("result"); av.push_back("points"); run();
    const auto t = tio::read_table("result"); ok = (int)t.size() == n;
    for (int k = 0; k < n && ok; k++) { const C w = val(xs[k], ys[k]); ok = t[k][0] == k + 1 && t[k].size() == (G ? 3 : 2) && near(t[k].back(), w.imag()) && (!G || near(t[k][1], w.real())); }
    vp_assert(ok, "every-point-of-the-file");
  } else if (use == 2) {
    av.push_back("--"); std::ostringstream a, b; a << std::setprecision(17) << xs[0]; b << std::setprecision(17) << ys[0]; av.push_back(a.str()); av.push_back(b.str());
    std::istringstream s(run()); const C w = val(xs[0], ys[0]);
    if (G) { C g; s >> g; ok = near(g.real(), w.real()) && near(g.imag(), w.imag()); } else { double g; s >> g; ok = near(g, w.imag()); }
    vp_assert(ok, "single-point");
  } else {
    const bool bad = n > 1 && vp::rng() % 8 == 0;
    { std::ofstream r("resigma"), i("imsigma"); r << std::setprecision(17); i << std::setprecision(17); for (int k = 0; k < n; k++) { r << k * 0.5 << " " << xs[k] << "\n"; i << k * 0.5 + (bad && k == n - 1 ? 1e-3 : 0) << " " << ys[k] << "\n"; } }
    for (auto s : {"resigma", "imsigma", "reaw", "imaw"}) av.push_back(s);
    bool thrown = false; try { run(); } catch (const std::runtime_error &) { thrown = true; }
    vp_assert(thrown == bad, "frequency-mismatch-reported");
    if (!bad) {
      const auto tr = tio::read_table("reaw"), ti = tio::read_table("imaw"); ok = (int)tr.size() == n && (int)ti.size() == n;
      for (int k = 0; k < n && ok; k++) {
        C w = val(k * 0.5 - xs[k], -std::min(ys[k], -1e-8)); if (!G) w /= -M_PI;
        ok = near(tr[k][1], w.real()) && near(ti[k][1], w.imag()) && tr[k][0] == k * 0.5 && ti[k][0] == k * 0.5;
      }
      vp_assert(ok, "local-green-function-of-the-self-energy");
    }
  }
#endif
}
