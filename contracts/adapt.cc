// tools/adapt: discretization ODE solver
#include "vp.h"
//@ opts: candlin=1 trials=2000
//@ adapt_run: nativeonly=1 trials=600
//@ adapt_front: nativeonly=1 trials=3000
//@ flags: -fno-access-control -fno-strict-return
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <cmath>
#include <stdexcept>
#include "toolio.h"
#ifdef VP_SYM
// the interpolation objects are under contract elsewhere (P01); here they are arbitrary functions
#define _tools_common_linint_hpp_
static inline double table_value(int id, double x) { return id == 0 ? vp_uf1("rho", x) : id == 1 ? vp_uf1("intrho", x) : vp_uf1("g", x); }
namespace NRG::Tools {
template <typename Vec, typename E> class LinIntBase {
  public:
  Vec vec; int id{}; bool newintegral_flag{};
  LinIntBase() = default;
  explicit LinIntBase(const Vec &v) : vec(v) {}
  double operator()(const double x) { if (vp_uf2("crossed", id, x) > 0) newintegral_flag = true; return table_value(id, x); }
  bool flag() const { return newintegral_flag; }
  void clear_flag() { newintegral_flag = false; }
};
template <typename Vec, typename E> class IntLinIntBase : public LinIntBase<Vec, E> {
  public:
  IntLinIntBase() = default;
  IntLinIntBase(const Vec &v, const Vec &) : LinIntBase<Vec, E>(v) {}
};
}
#endif
#define main tool_main
#include "adapt/adapt.cc"
#undef main
using A = NRG::Adapt::Adapt;
union Store { A a; Store() {} ~Store() {} };
static Store st;
static A &setup() {
#ifdef VP_SYM
  A &a = st.a;
  a.rho.id = 0; a.intrho1.id = a.intrho2.id = 1; a.g.id = 2;
#else
  static std::optional<A> keep;
  { std::ofstream o("param"); o << "[param]\n"; }
  std::ostringstream sink; auto *b = std::cout.rdbuf(sink.rdbuf());
  keep.emplace(Params("param"), Sign::POS); A &a = *keep;
  Vec v{{1e-99, 0}}; double y = 0.5 + tio::pick(0, 16) / 8.0; v[0].second = y; const int n = tio::pick(1, 6);
  for (int k = 1; k <= n; k++) v.push_back({double(k) / n, 0.25 + tio::pick(0, 16) / 8.0});
  a.rho = LinInt(v); Vec w(v); integrate(w); a.intrho1 = IntLinInt(v, w); a.intrho2 = a.intrho1; a.g = LinInt(v);
  std::cout.rdbuf(b);
#endif
  return a;
}
static double lambda() {
#ifdef VP_SYM
  const double L = vp_real("Lambda"); vp_assume(L > 1);
  return L;
#else
  return 1 + tio::pick(1, 32) / 8.0;
#endif
}
static double rhs(double x, double y) { return vp_uf2("rhs", x, y); }
VP_CONTRACT(adapt_rhs) {
  A &a = setup(); const double L = lambda(); a.Lambda = LAMBDA(L);
  double x = vp_real("x"), y = vp_real("y"); a.A = vp_pos("A"); a.adapt = vp_bool("adapt"); a.hardgap = vp_bool("hardgap"); a.boundary = vp_real("boundary");
#ifndef VP_SYM
  x = 1 + tio::pick(0, 100) / 20.0; y = 0.125 + tio::pick(0, 30) / 8.0; a.boundary = tio::pick(0, 7) / 8.0;
#endif
  const double lnL = std::log(L), scale = std::pow(L, 2.0 - x);
  const double r = a.rho(y * scale);
  vp_assume(r != 0 && scale != 0);
  vp_assert_near(a.rhs_G(x, y), lnL * (y - a.A / r), lnL * (fabs(y) + fabs(a.A / r)), "mesh-equation");
  const auto eps = [&](double t) {
    double e = 1; if (t > 2) { e = std::pow(L, 2.0 - t); if (a.adapt) e *= a.g(t); }
    return a.hardgap ? a.boundary + (1 - a.boundary) * e : e;
  };
  const double e0 = eps(x), e1 = eps(x + 1);
  vp_assert_near(a.eps(x), e0, 1 + fabs(a.boundary) + fabs(e0), "mesh-points");
  const double i0 = a.intrho2(e0), i1 = a.intrho1(e1);
  vp_assert_near(a.rhs_F(x, y), lnL * y - (i0 - i1) / (scale * r), fabs(lnL * y) + (fabs(i0) + fabs(i1)) / fabs(scale * r), "representative-energy-equation");
  if (x >= 1 && y > 0) vp_assert_near(a.Eps(x, y), y * scale, fabs(y * scale), "representative-energy");
}
VP_CONTRACT(adapt_steps) {
  A &a = setup(); a.x = vp_real("x"); a.y = vp_real("y"); const double dx = vp_real("dx"), x = a.x, y = a.y;
  const double k1 = dx * rhs(x, y), k2 = dx * rhs(x + dx / 2.0, y + k1 / 2.0), k3 = dx * rhs(x + dx / 2.0, y + k2 / 2.0), k4 = dx * rhs(x + dx, y + k3);
  vp_assert_near(6 * a.rk_step(dx, rhs), k1 + 2 * k2 + 2 * k3 + k4, fabs(k1) + fabs(k2) + fabs(k3) + fabs(k4), "fourth-order-runge-kutta");
  vp_assert_near(2 * a.heun_step(dx, rhs), k1 + dx * rhs(x + dx, y + k1), fabs(k1) + fabs(dx * rhs(x + dx, y + k1)), "second-order-heun");
  vp_assert(a.x == x && a.y == y, "state-not-changed-by-a-trial-step");
}
// one accepted step: never longer than requested, halved otherwise, and the state moves by exactly the step that was accepted
VP_CONTRACT(adapt_timestep) {
  A &a = setup(); a.x = vp_real("x"); a.y = vp_real("y"); const double dx = vp_pos("dx"), x = a.x, y = a.y;
  a.max_subdiv = vp_int_in("max_subdiv", 1, 12); a.allowed_error = vp_pos("allowed_error"); a.max_error = 0;
  const auto f = [&](double u, double v) { a.rho.newintegral_flag = bool(a.rho.newintegral_flag | (vp_uf2("boundary", u, v) > 0)); return rhs(u, v); };
  vp_candidate([&](double d) { return 0 < d && d <= dx; }, "step-positive");
  const double used = a.timestep(dx, f, false);
  vp_assert(0 < used && used <= dx, "not-longer-than-requested");
  const double k1 = used * rhs(x, y), k2 = used * rhs(x + used / 2.0, y + k1 / 2.0), k3 = used * rhs(x + used / 2.0, y + k2 / 2.0), k4 = used * rhs(x + used, y + k3);
  vp_assert(vp_eq(a.x, x + used), "position-moves-by-the-step");
  vp_assert_near(a.y, y + (k1 + 2 * k2 + 2 * k3 + k4) / 6, fabs(y) + fabs(k1) + fabs(k2) + fabs(k3) + fabs(k4), "solution-moves-by-the-runge-kutta-increment");
}
#ifndef VP_SYM
// R(w) = Integrate[rho, {0, w}] of the piecewise-linear density with constant continuation towards 0
struct Dos {
  std::vector<double> x, y, c;
  void finish() { c.assign(1, x[0] * y[0]); for (size_t k = 1; k < x.size(); k++) c.push_back(c.back() + (x[k] - x[k - 1]) * (y[k] + y[k - 1]) / 2); }
  double R(double w) const {
    if (w <= x[0]) return w * y[0];
    for (size_t k = 1; k < x.size(); k++) if (w <= x[k]) { const double t = w - x[k - 1]; return c[k - 1] + t * (y[k - 1] + t * (y[k] - y[k - 1]) / (x[k] - x[k - 1]) / 2); }
    return c.back() + (w - x.back()) * y.back();
  }
};
#endif
VP_CONTRACT(adapt_run) {
#ifndef VP_SYM
  const double L = 1.5 + tio::pick(0, 20) / 8.0, D = tio::coin() ? 1 : tio::pick(1, 6) / 2.0;
  const bool neg = tio::coin(), adapt = tio::pick(0, 3) == 0, flat = tio::pick(0, 4) == 0, gap = !adapt && tio::pick(0, 4) == 0;
  const double b = gap ? tio::pick(1, 4) / 16.0 : 0, xmax = tio::pick(3, 6), step = tio::coin() ? 1 / 16.0 : 1 / 8.0;
  Dos d; const double gamma = tio::pick(1, 8) / 8.0;
  if (flat) { d.x = {1e-10 / D, 1 / D}; d.y = {gamma * D, gamma * D}; }
  else {
    const int n = tio::pick(3, 7); std::vector<std::vector<double>> rows;
    double w = 0.5; for (int k = 1; k <= n; k++) { w += tio::pick(0, 2) / 16.0; d.x.push_back(double(k) / n); d.y.push_back(adapt ? w : 0.5 + tio::pick(0, 16) / 16.0); }
    for (int k = 0; k < n; k++) { rows.push_back({(neg ? -1 : 1) * d.x[k] * D, d.y[k] / D}); rows.push_back({(neg ? 1 : -1) * (k + 1) / 8.0, 7}); }
    for (size_t k = 0; k + 1 < rows.size(); k++) std::swap(rows[k], rows[k + vp::rng() % (rows.size() - k)]);
    tio::table("Delta.dat", rows);
  }
  d.finish();
  { std::ofstream o("param"); o << std::setprecision(17) << "[extra]\nLambda=9\n[param]\nLambda=" << L << "\nbandrescale=" << D << "\nadapt=" << (adapt ? "true" : "false") << "\nxmax=" << xmax << "\nxfine=1.01\noutputstep=" << step
    << "\ndx_fine=1e-5\ndx_fast=1e-3\n" << (gap ? "hardgap=true\nboundary=" : "# boundary=") << b << "\n[other]\nLambda=7\n"; }
  std::vector<std::string> av = {"adapt"}; if (neg) av.push_back(tio::coin() ? "N" : "neg"); else if (tio::coin()) av.push_back("P");
  if (flat) { std::ostringstream g; g << gamma; if (tio::coin()) { av.push_back("--flat"); av.push_back(g.str()); } else av.push_back("--flat=" + g.str()); }
  unlink("FSOL.dat"); unlink("FSOLNEG.dat"); unlink("GSOL.dat"); unlink("GSOLNEG.dat");
  tio::Args a(av); std::ostringstream out, err; auto *ob = std::cout.rdbuf(out.rdbuf()), *eb = std::cerr.rdbuf(err.rdbuf());
  tool_main(a.argc(), a.argv());
  std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
  const bool rc = err.str().find("error") != std::string::npos;
  if (getenv("DBG") && rc) std::cerr << err.str();
  if (adapt && rc) return; // the secant search may fail to converge for a given density; it then says so
  vp_assert(!rc, "solver-succeeds");
  const auto F = tio::read_table(neg ? "FSOLNEG.dat" : "FSOL.dat"), G = tio::read_table(neg ? "GSOLNEG.dat" : "GSOL.dat");
  const double R1 = d.R(1), h = 1.0 / 512;
  std::vector<double> gx, gy; double Af = R1; bool mesh = true;
  if (adapt) {
    std::istringstream s(out.str()); std::string l; while (std::getline(s, l)) if (l.rfind("#  A=", 0) == 0) Af = std::stod(l.substr(5));
    for (auto &r : G) { gx.push_back(r[0]); gy.push_back(r[1]); mesh = mesh && std::fabs(d.R(r[1] * std::pow(L, 2 - r[0])) - (R1 - Af * (1 - std::pow(L, 2 - r[0])))) <= 1e-6 * R1; }
    mesh = mesh && G.size() > 2 && std::fabs(gx.front() - 2) < 1e-9 && gy.front() == 1 && gx.back() >= xmax - 1e-9 && std::fabs(gy.back() * d.y[0] / Af - 1) < 1.01e-4;
  }
  vp_assert(mesh, "mesh-intervals-of-equal-logarithmic-weight");
  const auto eps = [&](double x) { double e = x <= 2 ? 1 : std::pow(L, 2 - x) * (adapt ? tio::linear(gx, gy, x) : 1); return gap ? b + (1 - b) * e : e; };
  const auto q = [&](double x) { return d.R(eps(x)) - d.R(eps(x + 1)); };
  bool ok = F.size() > 2 && F.front()[0] == 1 && F.back()[0] >= xmax - 1e-9 && F.back()[0] < xmax + 2 * step, dec = true; double x = 1, I = 0, last = 2;
  for (auto &r : F) {
    while (x < r[0] - h / 2) { I += h / 6 * (q(x) + 4 * q(x + h / 2) + q(x + h)); x += h; }
    const double E = r[1] * std::pow(L, 2 - r[0]);
    ok = ok && std::fabs(r[0] - x) < 1e-6 && std::fabs(d.R(E) - (R1 - I)) <= (adapt ? 1e-4 : 2e-5) * R1;
    dec = dec && E < last; last = E;
  }
  vp_assert(ok, "spectral-weight-of-the-representative-energies");
  vp_assert(dec, "energies-decrease");
#endif
}
VP_CONTRACT(adapt_front) {
#ifndef VP_SYM
  // command line
  struct Word { const char *w; int kind; }; static const Word words[] = {{"P", 1}, {"pos", 1}, {"POSITIVE", 1}, {"N", 2}, {"Neg", 2}, {"negative", 2}, {"par1", 3}, {"par2", 3}, {"-x", 4}, {"--flat=0.5", 5}, {"--flat=-1", 4}, {"--flat=a", 4}, {"--flat=0.5x", 4}, {"--flat=inf", 4}};
  std::vector<std::string> av = {"adapt"}; int sign = 0, par = 0, flat = 0; bool bad = false; Sign want = Sign::POS; std::string fn = "param";
  const int n = tio::pick(0, 3);
  for (int k = 0; k < n; k++) { const auto &w = words[vp::rng() % 14]; av.push_back(w.w); if (w.kind <= 2) { if (sign++) bad = true; want = w.kind == 1 ? Sign::POS : Sign::NEG; } if (w.kind == 3) { if (par++) bad = true; fn = w.w; } if (w.kind == 4) bad = true; if (w.kind == 5 && flat++) bad = true; }
  tio::Args a(av); bool thrown = false; CommandLineOptions o; std::ostringstream sink; auto *ob = std::cout.rdbuf(sink.rdbuf());
  try { o = cmd_line(a.argc(), a.argv()); } catch (const std::invalid_argument &) { thrown = true; }
  std::cout.rdbuf(ob);
  vp_assert(thrown == bad, "bad-arguments-rejected");
  if (!bad) vp_assert(o.sign == want && o.param_fn == fn && bool(o.flat_gamma) == bool(flat) && (!flat || *o.flat_gamma == 0.5), "arguments");
  // tabulated input: one half-axis, sorted, no negative values, comments and empty lines skipped
  std::vector<std::pair<double, double>> keep; bool negy = false; const Sign s = tio::coin() ? Sign::POS : Sign::NEG;
  { std::ofstream f("rho.dat"); f << std::setprecision(17); const int m = tio::pick(0, 6); for (int k = 0; k < m; k++) {
      if (!tio::pick(0, 3)) f << "# 1 2 3\n"; if (!tio::pick(0, 3)) f << "\n";
      const double x = tio::grid(), y = tio::pick(0, 20) ? tio::pick(0, 30) / 8.0 : -0.5; f << (tio::coin() ? "  " : "") << x << (tio::coin() ? "\t" : "  ") << y << (tio::coin() ? " 3 # more" : "") << (k + 1 < m || tio::coin() ? "\n" : "");
      if (s == Sign::POS ? x > 0 : x < 0) { if (y < 0) negy = true; keep.push_back({std::fabs(x), y}); } } }
  std::sort(keep.begin(), keep.end()); bool failed = false; Vec got;
  ob = std::cout.rdbuf(sink.rdbuf());
  try { got = load_rho("rho.dat", s); } catch (const std::runtime_error &) { failed = true; }
  vp_assert(failed == (keep.empty() || negy), "invalid-tables-rejected");
  if (!failed) {
    vp_assert(got == keep, "one-half-axis-in-order");
    const double f = tio::pick(1, 8) / 4.0; Vec z = got; add_zero_point(z); const bool add = keep[0].first > 1e-99;
    vp_assert(z.size() == keep.size() + add && z[0] == (add ? std::make_pair(1e-99, keep[0].second) : keep[0]) && std::equal(keep.begin(), keep.end(), z.begin() + add), "continued-to-zero");
    rescalevecxy(z, 1 / f, f); bool ok = true; for (size_t k = 0; k < keep.size(); k++) ok = ok && z[k + add].first == keep[k].first * (1 / f) && z[k + add].second == keep[k].second * f;
    vp_assert(ok, "rescaled-with-constant-weight");
  }
  std::cout.rdbuf(ob);
#endif
}
