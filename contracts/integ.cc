// tools/integ: weights and integrals of tabulated functions
#include "vp.h"
//@ opts: candlin=1
//@ integ_tool: nativeonly=1 trials=3000
//@ flags: -fno-strict-return
//@ libs: -lgsl -lgslcblas
#include <gsl/gsl_errno.h>
#include <gsl/gsl_spline.h>
#include <gsl/gsl_integration.h>
#include "outrec.h"
#include "toolio.h"
// the quadrature and the interpolation of the GSL are replaced by uninterpreted stand-ins that record how they are used
static double spline_value(double x) { return vp_uf1("spline", x); }
struct Call { double (*f)(double, void *); double a, b; int n = 0; };
static Call qag_call;
#ifndef VP_SYM
static std::vector<double (*)(double, void *)> seen_calls; static bool tool_run;
#endif

static int test_qag(const gsl_function *F, double a, double b, double, double, size_t, int, gsl_integration_workspace *, double *r, double *e) {
#ifndef VP_SYM
  seen_calls.push_back(F->function);
#endif
  qag_call.f = F->function; qag_call.a = a; qag_call.b = b; qag_call.n++;
  *r = vp_uf2("integral", a, b);
#ifndef VP_SYM
  if (tool_run) *r = 100 + seen_calls.size();
#endif
   *e = 0; return 0;
}
static Call init_call; static const double *init_x, *init_y; static size_t init_n;
static int test_init(gsl_spline *, const double *x, const double *y, size_t n) { init_x = x; init_y = y; init_n = n; init_call.n++; return 0; }
static double test_integ(const gsl_spline *, double a, double b, gsl_interp_accel *) { return vp_uf2("integral", a, b); }
static char some[4];
static gsl_interp_accel *test_accel() { return (gsl_interp_accel *)some; }
static gsl_spline *test_alloc(const gsl_interp_type *, size_t) { return (gsl_spline *)(some + 1); }
static gsl_integration_workspace *test_work(size_t) { return (gsl_integration_workspace *)(some + 2); }
static void test_off() {}
static double test_eval(const gsl_spline *, double x, gsl_interp_accel *) { return spline_value(x); }
#define gsl_integration_qag test_qag
#define gsl_spline_eval test_eval
#define gsl_spline_init test_init
#define gsl_spline_eval_integ test_integ
#define gsl_interp_accel_alloc test_accel
#define gsl_spline_alloc test_alloc
#define gsl_integration_workspace_alloc test_work
#define gsl_set_error_handler_off test_off
#define gsl_spline_free(x) ((void)(x))
#define gsl_interp_accel_free(x) ((void)(x))
#define gsl_integration_workspace_free(x) ((void)(x))
#include <unistd.h>
#include <getopt.h>
#define main tool_main
#include "integ/integ.cc"
#undef main
#undef cout
#undef gsl_integration_qag
#undef gsl_spline_eval
static double x0() { return vp_real("x"); }
VP_CONTRACT(integ_parts) {
  const double x = x0();
  const double f = f_total(x, nullptr), p = f_pos(x, nullptr), m = f_neg(x, nullptr);
  vp_assert_eq(f, spline_value(x), "total-is-the-interpolated-function");
  vp_assert_eq(p, x > 0 ? f : 0, "positive-part");
  vp_assert_eq(m, x < 0 ? f : 0, "negative-part");
  if (x != 0) vp_assert_eq(p + m, f, "parts-add-up");
  vp_assert_eq(f_abs(x, nullptr), fabs(f), "absolute-value");
}
VP_CONTRACT(integ_fermi) {
  T = vp_pos("T");
  const double x = x0();
#ifndef VP_SYM
  vp_assume(fabs(x / T) < 500);
#endif
  const double w = f_fermi(x, nullptr), v = f_fermi(-x, nullptr);
  const double n = 1 / (1 + exp(x / T));
  vp_assert_near(w, spline_value(x) * n, fabs(spline_value(x)), "fermi-weighted");
  vp_assert(n >= 0 && n <= 1, "occupation");
}
VP_CONTRACT(integ_range) {
  Xmin = vp_real("Xmin"); Xmax = vp_real("Xmax"); veryverbose = false; qag_call.n = 0;
  const double r = calc(f_total);
  vp_assert(qag_call.n == 1, "one-quadrature");
  vp_assert(qag_call.a == Xmin && qag_call.b == Xmax, "whole-tabulated-interval");
  vp_assert_eq(r, vp_uf2("integral", Xmin, Xmax), "integral-returned");
  vp_assert(qag_call.f == f_total, "integrand-passed");
}
VP_CONTRACT(integ_load) {
  XYFUNC im = vp_vec<pair<double, double>>("im", 1);
  verbose = false; init_call.n = 0;
  const int n = im.size();
  auto total = [&](int k) { return vp_sum(0, k, [&](int i) { return vp_uf2("g", im[i].first, im[i].second); }); };
  const double before = total(n);
  const double mag = vp_sum(0, n, [&](int i) { return fabs(vp_uf2("g", im[i].first, im[i].second)); });
  vp_candidate([&](int i) { return 0 <= i && i <= n && vp_forall(0, i, [&](int k) { return Xpts[k] == im[k].first && Ypts[k] == im[k].second; }); }, "copied");
  init(im);
  vp_assert(len == n && (int)Xpts.size() == n && (int)Ypts.size() == n, "every-point-used");
  vp_assert(init_call.n == 1 && (int)init_n == n && init_x == &Xpts[0] && init_y == &Ypts[0], "interpolation-over-all-points");
  const int k = vp_int_in("k", 0, n - 1);
  if (k + 1 < n) vp_assert(Xpts[k] <= Xpts[k + 1], "abscissas-ordered");
  vp_assert(Xmin <= Xpts[k] && Xpts[k] <= Xmax, "interval-covers-all-points");
  vp_assert(Xmin == Xpts[0] && Xmax == Xpts[n - 1], "interval-is-the-data-range");
  vp_assert(Xpts[k] == im[k].first && Ypts[k] == im[k].second, "table-copied");
  vp_assert_near(total(n), before, mag, "same-points");
}
// the whole tool: the printed number is the integral selected on the command line
VP_CONTRACT(integ_tool) {
#ifndef VP_SYM
  verbose = veryverbose = false; out = "total"; vp_out.n = 0; seen_calls.clear(); tool_run = true;
  auto x = tio::increasing(8); while (x.size() < 5) x.push_back(x.back() + 1);
  vector<vector<double>> t; for (double v : x) t.push_back({v, tio::grid()});
  vector<vector<double>> sh = t; if (tio::coin()) std::reverse(sh.begin(), sh.end());
  tio::table("f.dat", sh);
  const int o = tio::pick(0, 4);
  vector<string> av = {"integ"}; if (o) av.push_back(string("-") + "xpnaf"[o]);
  if (tio::coin()) { av.push_back("-T"); av.push_back("0.25"); }
  av.push_back("f.dat");
  tio::Args a(av);
  tool_main(a.argc(), a.argv());
  double (*const want[])(double, void *) = {f_total, f_pos, f_neg, f_abs, f_fermi};
  bool ok = vp_out.n >= 1, found = false;
  for (size_t k = 0; k < seen_calls.size(); k++) if (seen_calls[k] == want[o]) { found = true; ok = ok && vp_out.v[vp_out.n - 1] == 101 + k; }
  bool pts = Xpts.size() == t.size();
  for (size_t k = 0; k < t.size() && pts; k++) pts = Xpts[k] == t[k][0] && Ypts[k] == t[k][1];
  tool_run = false;
  vp_assert(vp_out.n == 1, "one-number-printed");
  vp_assert(ok && found, "selected-integral");
  vp_assert(pts, "every-line-of-the-table-used");
  vp_assert(qag_call.a == x.front() && qag_call.b == x.back(), "over-the-data-range");
#endif
}
