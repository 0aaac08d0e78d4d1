// Piecewise-linear interpolation tables (tools/common/linint.hpp)
#include "vp.h"
#include "common/linint.hpp"
#include "common/calc.hpp"
#include <stdexcept>
using namespace std;
using Vec = vector<pair<double, double>>;
struct Policy { void operator()(const string &) const { throw runtime_error("interpolation error"); } };
using Lin = NRG::Tools::LinIntBase<Vec, Policy>;

static bool in_interval(const Vec &v, int i, double x) { return v[i].first <= x && x <= v[i + 1].first; }
static double chord(const Vec &v, int i, double x) { return v[i].second + (v[i + 1].second - v[i].second) / (v[i + 1].first - v[i].first) * (x - v[i].first); }

// candidate invariants over the loop-carried values of any client/search loop (q: the abscissa being looked up)
#define CANDS(v, q) const int n = (int)v.size(); CANDS2(v, q)
#define CANDS2(v, q) \
  vp_candidate([&](int i) { return i == -1 || (0 <= i && i <= n - 2); }, "idx-range"); \
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i].first; }, "a=v[i].x"); \
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i + 1].first; }, "a=v[i+1].x"); \
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i].second; }, "a=v[i].y"); \
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i + 1].second; }, "a=v[i+1].y"); \
  vp_candidate([&](int i, double d) { return i == -1 || d == (v[i + 1].second - v[i].second) / (v[i + 1].first - v[i].first); }, "slope"); \
  vp_candidate([&](int i) { return v[i].first <= q; }, "v[i]<=q"); \
  vp_candidate([&](int i) { return q <= v[i + 1].first; }, "q<=v[i+1]");

// any history of queries, then one more query: value is the linear interpolant
VP_CONTRACT(P01_value) {
  Vec v = vp_vec<pair<double, double>>("tab", 2);
  vp_sorted(v);
  Lin f(v);
  double q = 0;
  CANDS(v, q)
  while (vp_bool("more")) { q = vp_real("xq"); f(q); }
  const double x = vp_real("x");
  q = x;
  const double y = f(x);
  if (x <= v[0].first) vp_assert_eq(y, v[0].second, "left-constant");
  else if (x >= v[n - 1].first) vp_assert_eq(y, v[n - 1].second, "right-constant");
  else {
    int i = vp_int("i");
    vp_assume(0 <= i && i < n - 1);
    vp_assume(in_interval(v, i, x));
    vp_assert_eq(y, chord(v, i, x), "interpolant");
  }
}

// too short tables are rejected
VP_CONTRACT(P01_short) {
  Vec v = vp_vec<pair<double, double>>("tab", 0);
  const int n = (int)v.size();
  vp_assume(n < 2);
  vp_assert(vp_throws([&] { Lin f(v); }), "short-table-rejected");
}

// table + its running trapezoid integral (as built by the discretization codes): the antiderivative of the interpolant
VP_CONTRACT(P01_table) {
  Vec v = vp_vec<pair<double, double>>("tab", 2);
  vp_sorted(v);
  Vec w(v);
  double q = 0;
  CANDS(v, q)
  auto trap = [&](int k) { return (v[k + 1].first - v[k].first) * (v[k].second + v[k + 1].second) / 2; };
  vp_candidate([&](int i, double s) { return i >= 1 && s == vp_sum(0, i - 1, trap); }, "partial integral");
  vp_candidate([&](int i) { return vp_forall(1, i, [&](int k) { return w[k].second == vp_sum(0, k, trap); }); }, "stored partial integrals");
  vp_candidate([&](int i) { return vp_forall(i, n, [&](int k) { return w[k].second == v[k].second; }); }, "rest untouched");
  vp_candidate([&](int i) { return vp_forall(0, n, [&](int k) { return w[k].first == v[k].first; }); }, "abscissae untouched");
  const double total = NRG::Tools::integrate_trapezoidal(w);
  vp_assert_eq(total, vp_sum(0, n - 1, trap), "total");
  vp_assert(vp_forall(0, n, [&](int k) { return w[k].first == v[k].first; }), "abscissae kept");
  const int j = vp_int("j");
  vp_assume(0 <= j && j < n);
  vp_assert_eq(w[j].second, vp_sum(0, j, trap), "running integral");
  vp_assert(w[0].second == 0, "starts at zero");
  vp_assume(j < n - 1);
  vp_assert_eq(w[j + 1].second, w[j].second + trap(j), "running integral step");
}

// any history of queries of the antiderivative object, then one more
VP_CONTRACT(P01_antiderivative) {
  Vec v = vp_vec<pair<double, double>>("tab", 2);
  vp_sorted(v);
  auto trap = [&](int k) { return (v[k + 1].first - v[k].first) * (v[k].second + v[k + 1].second) / 2; };
  double q = 0;
  CANDS(v, q)
#ifdef VP_SYM
  Vec w = vp_vec<pair<double, double>>("itab", 2);
  vp_assume((int)w.size() == n);
  vp_assume(vp_forall(0, n, [&](int k) { return w[k].first == v[k].first; }) && w[0].second == 0);
  vp_assume(vp_forall(0, n - 1, [&](int k) { return w[k + 1].second == w[k].second + trap(k); })); // proved in P01_table
#else
  Vec w(v);
  NRG::Tools::integrate_trapezoidal(w);
#endif
  const double total = w[n - 1].second;
  vp_assert(vp_forall(0, n - 1, [&](int k) { double dx = v[k + 1].first - v[k].first, dy = v[k + 1].second - v[k].second; return vp_eq(dx * dx * (dy / dx), dx * dy); }), "lemma");
  NRG::Tools::IntLinIntBase<Vec, Policy> f(v, w);
  while (vp_bool("more")) { q = vp_real("xq"); f(q); }
  const double x = vp_real("x");
  q = x;
  const double y = f(x);
  if (x <= v[0].first) vp_assert_eq(y, v[0].second * (x - v[0].first), "left-linear");
  else if (x >= v[n - 1].first) vp_assert_eq(y, total + v[n - 1].second * (x - v[n - 1].first), "right-linear");
  else {
    const int i = vp_int("i");
    vp_assume(0 <= i && i < n - 1);
    vp_assume(in_interval(v, i, x));
    if (x == v[i].first) vp_assert_eq(y, w[i].second, "running integral at a table point");
    else if (x == v[i + 1].first) vp_assert_eq(y, w[i + 1].second, "running integral at a table point (right)");
    else vp_assert_eq(y, w[i].second + (x - v[i].first) * v[i].second + (x - v[i].first) * (x - v[i].first) * ((v[i + 1].second - v[i].second) / (v[i + 1].first - v[i].first)) / 2, "area under the interpolant");
  }
}
