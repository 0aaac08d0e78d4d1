// the interpolation object of tools/intavg
#include "vp.h"
#define main tool_main
#include "intavg/intavg.cc"
#undef main
using namespace std;

// any history of queries, then one more query: value is the linear interpolant
VP_CONTRACT(P01_intavg_value) {
  Vec v = vp_vec<pair<double, double>>("tab", 2);
  vp_sorted(v);
  LinInt f(v);
  double q = 0;
  const int n = (int)v.size();
  vp_candidate([&](int i) { return i == -1 || (0 <= i && i <= n - 2); }, "idx-range");
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i].first; }, "a=v[i].x");
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i + 1].first; }, "a=v[i+1].x");
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i].second; }, "a=v[i].y");
  vp_candidate([&](int i, double a) { return i == -1 || a == v[i + 1].second; }, "a=v[i+1].y");
  vp_candidate([&](int i, double d) { return i == -1 || d == (v[i + 1].second - v[i].second) / (v[i + 1].first - v[i].first); }, "slope");
  vp_candidate([&](int i) { return v[i].first <= q; }, "v[i]<=q");
  vp_candidate([&](int i) { return q <= v[i + 1].first; }, "q<=v[i+1]");
  while (vp_bool("more")) { q = vp_real("xq"); f(q); }
  const double x = vp_real("x");
  q = x;
  const double y = f(x);
  if (x <= v[0].first) vp_assert_eq(y, v[0].second, "left-constant");
  else if (x >= v[n - 1].first) vp_assert_eq(y, v[n - 1].second, "right-constant");
  else {
    int i = vp_int("i");
    vp_assume(0 <= i && i < n - 1);
    vp_assume(v[i].first <= x && x <= v[i + 1].first);
    vp_assert_eq(y, v[i].second + (v[i + 1].second - v[i].second) / (v[i + 1].first - v[i].first) * (x - v[i].first), "interpolant");
  }
}
