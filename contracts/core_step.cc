// energy scales, site numbering and array indices of the NRG steps (c++/step.hpp, c++/params.hpp)
//@ flags: -fno-access-control
//@ opts: candlin=1
#include "vp.h"
#include "core.h"
#include "step.hpp"
using namespace NRG;
using namespace std;
static Params &params() {
  Params &P = vp_params();
  P.emin = 1e-4; P.emax = 10.; P.bins = 2; P.accumulation = 0.0; P.discard_immediately = 0.0;
  P.Ninit = 0; P.Nmax = 10; P.channels = 1; P.absolute = false; P.NN1 = false; P.NN2even = true; P.NN2avg = false; P.NNtanh = 0.0; P.substeps = false;
  P.Lambda = 2.0; P.z = 1.0; P.bandrescale = 1.0; P.discretization = "Z"; P.goodE = 2.0; P.betabar = 1.0; P.T = 1e-3;
  return P;
}
static void scale_params(Params &P) {
  P.Lambda = 1 + vp_pos("L"); P.z = vp_unit("z"); P.bandrescale = vp_pos("bandrescale"); P.goodE = vp_pos("goodE");
  P.discretization = vp_bool("Y") ? "Y" : vp_bool("C") ? "C" : "Z";
  P.NN1 = vp_bool("NN1"); P.absolute = vp_bool("absolute");
}
VP_CONTRACT(step_scales) {
  Params &P = params(); scale_params(P);
  Step s(P); const int N = vp_int_in("N", -20, 20000); s.set(N);
  P.betabar = vp_pos("betabar"); P.T = vp_pos("T");
  vp_assert_eq(s.scale() * s.unscale(), s.energyscale(), "scale-times-unscale");
  vp_assert_eq(s.TD_factor() * s.Teff(), s.scale(), "thermodynamic-temperature");
  vp_assert_eq(s.scT() * P.T, s.scale(), "scaled-temperature");
  vp_assert(s.energyscale() > 0, "positive");
  const double pre = (P.discretization == "Y"s ? 0.5 * (1 + 1 / P.Lambda) : (1 - 1 / P.Lambda) / log(P.Lambda));
  vp_assert_eq(P.SCALE(N), pre * pow(P.Lambda, -(N - 1) / 2. + 1 - P.z) * P.bandrescale, "scale-formula");
  vp_assert(s.get_trueN() == N && (int)s.ndx() == (N > 0 ? N : 0), "array-index");
}
VP_CONTRACT(step_site) {
  Params &P = params(); Step s(P);
  P.channels = vp_int_in("channels", 1, 6); P.substeps = true;
  const int N = vp_int_in("N", 0, 100000); s.set(N);
  const auto [n, m] = s.NM();
  vp_assert((int)n * P.channels + (int)m == N && (int)m >= 0 && (int)m < P.channels, "site-and-channel");
}
