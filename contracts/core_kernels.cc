// broadening kernels of the NRG core (c++/spectral.hpp)
//@ opts: candlin=1
//@ kernel_symmetric: nativeonly=1
//@ kernel_normalised: nativeonly=1 trials=3000
#include "vp.h"
#include "core.h"
#include "spectral.hpp"
using namespace NRG;
using namespace std;
using W = complex<double>;
static double sgn_real(const char *n) { return (vp_bool("negative") ? -1 : 1) * vp_pos(n); }

VP_CONTRACT(kernel_log) {
  const double e = sgn_real("e"), p = sgn_real("peak"), a = vp_pos("alpha");
  const double v = BR_L(e, p, a);
  vp_assert(v >= 0, "nonnegative");
  if (e * p < 0) vp_assert_eq(v, 0, "no-leak-across-zero");
  else {
    const double u = log(e / p) / a - a / 4;
    vp_assert_eq(v, exp(-(u * u)) / (a * fabs(e) * 1.7724538509055160273), "log-gaussian");
  }
  vp_assert_eq(BR_L(e, 0, a), 0, "zero-energy-peak");
}
VP_CONTRACT(kernel_gauss) {
  const double e = vp_real("e"), p = vp_real("peak"), o = vp_pos("omega0");
  const double v = BR_G(e, p, o), u = (e - p) / o;
  vp_assert_eq(v, exp(-(u * u)) / (o * 1.7724538509055160273), "gaussian");
  vp_assert_eq(v, BR_G(p, e, o), "symmetric");
}
VP_CONTRACT(kernel_mixed) {
  const double e = sgn_real("e"), p = sgn_real("peak"), a = vp_pos("alpha"), o = vp_pos("omega0");
  const double l = BR_L(e, p, a), g = BR_G(e, p, o), v = BR_NEW(e, p, a, o);
  if (fabs(e) > o) vp_assert_eq(v, l, "log-gaussian-above-crossover");
  else {
    const double u = log(fabs(e) / o) / a, h = exp(-(u * u));
    vp_assert_eq(v, l * h + g * (1 - h), "mixture");
    vp_assert(vp_le(v, fmax(l, g)) && vp_le(fmin(l, g), v), "between-both");
  }
  vp_assert(v >= 0, "nonnegative");
}
VP_CONTRACT(kernel_symmetric) {
  const double s = vp_bool("negative") ? -1 : 1, e = s * vp_pos("e"), p = s * vp_pos("peak"), a = vp_unit("alpha");
  vp_assert_near(BR_L(e, p, a), BR_L(p, e, a), BR_L(p, e, a), "symmetric");
}
VP_CONTRACT(kernel_normalised) {
  const double s = vp_bool("negative") ? -1 : 1, p = s * vp_pos("peak"), a = vp_unit("alpha"), o = vp_pos("omega0");
  double l = 0, g = 0, m = 0;
  const int n = 4000; const double h = 24 * a / n, hg = 24 * o / n;
  for (int i = 0; i <= n; i++) {
    const double e = p * exp(a * (-12 + 24.0 * i / n));
    l += BR_L(e, p, a) * fabs(e) * h;
    g += BR_G(p - 12 * o + hg * i, p, o) * hg;
  }
  vp_assert(fabs(l - 1) < 1e-7, "log-gaussian-normalised");
  vp_assert(fabs(g - 1) < 1e-7, "gaussian-normalised");
}
