// tools/intavg: average of tabulated functions over the z values
#include "vp.h"
//@ opts: nativeonly=1 trials=3000
//@ flags: -fno-strict-return
#define main tool_main
#include "intavg/intavg.cc"
#undef main
#include "toolio.h"
VP_CONTRACT(intavg_tool) {
#ifndef VP_SYM
  input.clear(); mesh.clear(); f.clear(); verbose = veryverbose = false;
  const int nz = tio::pick(1, 4);
  vector<dvec> X, Y;
  for (int i = 1; i <= nz; i++) {
    auto x = tio::increasing(tio::pick(2, 7)); if (x.size() < 2) x = {-1, 2};
    if (i > 1 && tio::coin()) x = X[0];
    for (auto &a : x) if (a == 0) a = 1.0 / 1024;
    dvec y; for (size_t k = 0; k < x.size(); k++) y.push_back(tio::grid());
    if (i > 1 && tio::coin()) for (auto &a : x) a *= 1 + 2e-7;
    X.push_back(x); Y.push_back(y);
    vector<dvec> t; for (size_t k = 0; k < x.size(); k++) t.push_back({x[k], y[k]});
    tio::dir(to_string(i)); tio::table(to_string(i) + "/intavg_tool.dat", t);
  }
  tio::Args a({"intavg", "intavg_tool.dat", to_string(nz)});
  { std::ostringstream sink; auto *b = cout.rdbuf(sink.rdbuf()); tool_main(a.argc(), a.argv()); cout.rdbuf(b); }
  const auto r = tio::read_table("intavg_tool.dat");
  bool sorted = true, two = true, avg = true, from = true, all = true;
  for (size_t j = 0; j < r.size(); j++) {
    two = two && r[j].size() == 2; if (!two) break;
    if (j) sorted = sorted && r[j - 1][0] < r[j][0] && (r[j][0] - r[j - 1][0]) >= 0.99e-6 * fabs(r[j - 1][0]);
    double s = 0; bool in = false;
    for (int i = 0; i < nz; i++) { s += tio::linear(X[i], Y[i], r[j][0]); for (double x : X[i]) in = in || tio::close(x, r[j][0], 0); }
    avg = avg && fabs(r[j][1] - s / nz) < 1e-6; from = from && in;
  }
  for (auto &x : X) for (double v : x) { bool ok = false; for (auto &l : r) ok = ok || fabs(l[0] - v) <= 1e-6 * fabs(v) * 1.01; all = all && ok; }
  vp_assert(two, "two-columns");
  vp_assert(sorted, "mesh-increasing-and-distinct");
  vp_assert(from, "mesh-from-the-inputs");
  vp_assert(all, "no-input-point-missing");
  vp_assert(avg, "average-of-the-interpolants");
#endif
}
