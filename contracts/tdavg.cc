// tools/tdavg: average of thermodynamic tables over the z values, with subtraction of a reference
#include "vp.h"
//@ opts: nativeonly=1 trials=3000
#define main tool_main
#include "tdavg/tdavg.cc"
#undef main
#include "toolio.h"
#ifndef VP_SYM
struct Blocks { vector<dvec> X; vector<vector<dvec>> Y; };
static Blocks blocks(const string &fn, int nz, int nc) {
  Blocks b; ofstream o(fn); o << setprecision(17);
  for (int i = 0; i < nz; i++) {
    auto x = tio::increasing(tio::pick(2, 6)); if (x.size() < 2) x = {1, 2};
    for (auto &a : x) { a = fabs(a); if (a == 0) a = 1.0 / 1024; }
    std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); if (x.size() < 2) x = {1, 2};
    if (i && tio::coin()) x = b.X[0];
    vector<dvec> y(nc); for (auto &c : y) for (size_t k = 0; k < x.size(); k++) c.push_back(tio::grid());
    vector<size_t> ord(x.size()); for (size_t k = 0; k < ord.size(); k++) ord[k] = k;
    if (tio::coin()) std::reverse(ord.begin(), ord.end());
    if (i || tio::coin()) o << "# T values " << i << "\n";
    for (size_t k : ord) { o << (tio::coin() ? " " : "") << x[k]; for (auto &c : y) o << (tio::coin() ? "\t" : "  ") << c[k]; o << "\n"; }
    b.X.push_back(x); b.Y.push_back(y);
  }
  return b;
}
#endif
VP_CONTRACT(tdavg_tool) {
#ifndef VP_SYM
  input.clear(); reference.clear(); mesh.clear(); f.clear(); reff.clear(); columns = 0; name = ref_name = lastcommentline = ""; verbose = veryverbose = copycomments = false;
  const int nz = tio::pick(1, 4), nc = tio::pick(1, 3);
  const bool ref = tio::coin();
  const auto b = blocks("tdavg_in.dat", nz, nc), rb = blocks("tdavg_ref.dat", nz, nc);
  vector<string> av = {"tdavg", "tdavg_in.dat"}; if (ref) av.push_back("tdavg_ref.dat");
  tio::Args a(av);
  { std::ostringstream sink; auto *c = cout.rdbuf(sink.rdbuf()); tool_main(a.argc(), a.argv()); cout.rdbuf(c); }
  const auto r = tio::read_table("tdavg_in.dat.avg.dat");
  bool cols = true, sorted = true, val = true, all = true, from = true;
  for (size_t j = 0; j < r.size(); j++) {
    cols = cols && (int)r[j].size() == nc + 1; if (!cols) break;
    if (j) sorted = sorted && r[j - 1][0] < r[j][0];
    bool in = false;
    for (auto &x : b.X) for (double v : x) in = in || tio::close(v, r[j][0], 0);
    from = from && in;
    for (int k = 0; k < nc; k++) {
      double s = 0; for (int i = 0; i < nz; i++) s += tio::linear(b.X[i], b.Y[i][k], r[j][0]) - (ref ? tio::linear(rb.X[i], rb.Y[i][k], r[j][0]) : 0);
      val = val && tio::close(r[j][k + 1], s / nz);
    }
  }
  for (auto &x : b.X) for (double v : x) { bool ok = false; for (auto &l : r) ok = ok || fabs(l[0] - v) <= 1e-6 * fabs(v) * 1.01; all = all && ok; }
  vp_assert(cols, "every-column-averaged");
  vp_assert(sorted, "temperatures-increasing-and-distinct");
  vp_assert(from, "temperatures-from-the-inputs");
  vp_assert(all, "no-temperature-missing");
  vp_assert(val, "average-minus-reference");
#endif
}
