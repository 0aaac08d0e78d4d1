// tools/binavg: z-averaging of raw binned spectra
#include "vp.h"
//@ opts: candlin=2 deadline=500 timeout=200
//@ binavg_tool: nativeonly=1 trials=3000
//@ flags: -fno-access-control
#include "outrec.h"
#include <utility>
#include <vector>
#include <map>
#include <algorithm>
#include <stdexcept>
#include <cfloat>
#include <cassert>
#include <unistd.h>
namespace std { using ::vp_out; }
static int nz_arg;
#ifndef VP_SYM
static std::string opts;
#endif

static int test_getopt(int, char **, const char *) {
#ifndef VP_SYM
  if (!opts.empty()) { const char o = opts.back(); opts.pop_back(); return o; }
#endif
  optind = 1; return -1;
}
#define getopt test_getopt
#define atoi(x) nz_arg
#include "binavg/binavg.hpp"
#undef cout
#undef getopt
#undef atoi
using namespace std;
using NRG::BinAvg::BinAvg;
#include "rawspec.h"
static char *args[] = {(char *)"binavg", (char *)"spec.dat", (char *)"1"};
VP_CONTRACT(binavg_merge) {
  nz_arg = vp_int_in("Nz", 1, 1000); vp_out.n = 0;
  BinAvg t(3, args);
  const int Nz = t.Nz; auto &spec = t.spec; auto &vfreq = t.vfreq; auto &vspec = t.vspec; auto &buffers = t.buffers; auto &sizes = t.sizes; auto &nrcol = t.nrcol; auto &col = t.col;
  vp_assert(Nz == nz_arg, "number-of-spectra");
  nrcol = vp_int_in("nrcol", 1, 2); col = vp_int_in("col", 1, nrcol);
  buffers = vp_vec_n<vector<double>>("buf", Nz + 1);
  sizes = vp_vec_n<int>("sizes", Nz + 1);
  const int rows = 1 + nrcol;
#ifndef VP_SYM
  for (int i = 0; i <= Nz; i++) { sizes[i] = abs(sizes[i]); vp_setlen(buffers[i], rows * sizes[i]); }
#endif
  vp_assume(vp_forall(1, Nz + 1, [&](int i) { return 0 <= sizes[i] && sizes[i] <= 100000000 && (int)buffers[i].size() == rows * sizes[i]; }));
  auto g = [](double w) { return vp_uf1("g", w); };
  auto part = [&](int i, int l) { return vp_sum(0, l, [&](int j) { return buffers[i][rows * j + col] * g(buffers[i][rows * j]); }); };
  auto msum = [&]() { return vp_sum(0, (int)spec.size(), [&](int j) { return vp_mapval(spec, j) * g(vp_mapkey(spec, j)); }); };
  auto tot = [&](int i) { return vp_sum(1, i, [&](int a) { return part(a, sizes[a]); }); };
  vp_candidate([&](int i) { return msum() == tot(i); }, "outer");
  vp_candidate([&](long i, int l) { return 0 <= l && msum() == tot(i) + part(i, l); }, "inner");
  vp_candidate([&](long i, int l) { return l <= sizes[i]; }, "inner-bound");
  vp_candidate([&](int k) { return 0 <= k && k == (int)vspec.size() && k <= (int)spec.size() && vp_forall(0, k, [&](int j) { return vspec[j] == vp_mapval(spec, j); }); }, "vspec");
  vp_candidate([&](int k) { return 0 <= k && k == (int)vfreq.size() && vp_forall(0, k, [&](int j) { return vfreq[j] == vp_mapkey(spec, j); }); }, "vfreq");
  auto out = [&](int k) { return vp_sum(0, k, [&](int j) { return Nz * vspec[j] * g(vfreq[j]); }); };
  auto mpre = [&](int k) { return vp_sum(0, k, [&](int j) { return vp_mapval(spec, j) * g(vp_mapkey(spec, j)); }); };
  vp_candidate([&](int k) { return 0 <= k && k == (int)vspec.size() && out(k) + mpre((int)spec.size()) - mpre(k) == tot(Nz + 1); }, "scaled");
  t.merge();
  vp_assert(vfreq.size() == vspec.size(), "equal-lengths");
  const int n = vfreq.size();
  const int k = vp_int("k");
  if (0 <= k && k + 1 < n) vp_assert(vfreq[k] < vfreq[k + 1], "distinct-increasing-frequencies");
  vp_assert_near(out(n), tot(Nz + 1), vp_sum(1, Nz + 1, [&](int i) { return vp_sum(0, sizes[i], [&](int j) { return fabs(buffers[i][rows * j + col] * g(buffers[i][rows * j])); }); }), "weight-conserved");
}
VP_CONTRACT(binavg_tool) {
#ifndef VP_SYM
  const int nz = tio::pick(1, 3), opt = tio::pick(1, 3); const bool flat = nz == 1 && tio::coin();
  const auto r = raw_spectra("spec.dat", nz, opt == 1 ? 1 : 2, opt == 3 ? 2 : 1, flat);
  nz_arg = nz; vp_out.n = 0; opts = flat ? "o" : ""; if (opt > 1) opts += opt == 2 ? "2" : "3";
  BinAvg t(3, args);
  t.calc();
  const auto o = tio::read_binary(flat ? "spec.bin" : "spec.dat");
  bool ok = o.size() == 2 * r.avg.size(); size_t j = 0;
  for (auto &[e, v] : r.avg) { ok = ok && o[j] == e && tio::close(o[j + 1], v, r.mag); j += 2; if (!ok) break; }
  vp_assert(o.size() == 2 * r.avg.size(), "every-frequency-once");
  vp_assert(ok, "average-written");
#endif
}
