// binning of spectral weight in the NRG core (c++/bins.hpp, c++/spectrum.hpp)
//@ flags: -fno-access-control
//@ opts: candlin=1
#include "vp.h"
#include "core.h"
#include "bins.hpp"
using namespace NRG;
using namespace std;
using W = complex<double>;
using Peak = pair<double, W>;
using B = Bins<double>;

static void arbitrary_grid(B &b, int n) {
  static_cast<std::vector<Peak> &>(b.bins) = vp_vec_n<Peak>("bins", n);
}
static Params &params() {
  Params &P = vp_params();
  P.emin = 1e-4; P.emax = 10.; P.bins = 2; P.accumulation = 0.0; P.discard_immediately = 0.0;
  return P;
}
// the standard logarithmic grid: the weight goes to the two neighbouring points in proportion, or to an edge point
VP_CONTRACT(bins_add_std) {
  Params &P = params();
  B b(P);
  P.bins = (size_t)vp_int_in("pbins", 1, 1000);
  const int n = vp_int_in("n", 2, 100000);
  arbitrary_grid(b, n);
  b.emin = vp_pos("emin"); b.log10emin = vp_real("log10emin");
  P.discard_immediately = fabs(vp_real("discard"));
  const std::vector<Peak> old = b.bins;
  const double e = vp_real("e"); vp_assume(e >= 0);
  const W w(vp_real("wr"), vp_real("wi"));
  b.add(e, w);
  vp_assert((int)b.bins.size() == n, "same-grid-length");
  const int k = vp_int_in("k", 0, n - 1);
  vp_assert_eq(b.bins[k].first, old[k].first, "grid-points-untouched");
  if (abs(w) < P.discard_immediately * e) {
    vp_assert_eq(b.bins[k].second.real(), old[k].second.real(), "discarded-re");
    vp_assert_eq(b.bins[k].second.imag(), old[k].second.imag(), "discarded-im");
    return;
  }
  const double tr = vp_sum(0, n, [&](int j) { return b.bins[j].second.real(); }), tr0 = vp_sum(0, n, [&](int j) { return old[j].second.real(); });
  const double ti = vp_sum(0, n, [&](int j) { return b.bins[j].second.imag(); }), ti0 = vp_sum(0, n, [&](int j) { return old[j].second.imag(); });
  vp_assert_eq(tr, tr0 + w.real(), "weight-conserved-re");
  vp_assert_eq(ti, ti0 + w.imag(), "weight-conserved-im");
  const double x = e < b.emin ? -1 : (log10(e) - b.log10emin) * P.bins.value();
  double share = 0; // share of the weight that belongs to point k
  if (x < 0) share = k == 0;
  else if (x >= n - 1) share = k == n - 1;
  else share = k <= x ? (x < k + 1 ? 1 - (x - k) : 0) : (x > k - 1 ? x - (k - 1) : 0);
  vp_assert_eq(b.bins[k].second.real() - old[k].second.real(), share * w.real(), "share-re");
  vp_assert_eq(b.bins[k].second.imag() - old[k].second.imag(), share * w.imag(), "share-im");
}
// the grid with a shifted accumulation point: the weight goes to the two ends of the first interval holding the energy, if any
VP_CONTRACT(bins_add_acc) {
  Params &P = params();
  B b(P);
  P.accumulation = vp_pos("accumulation");
  const int n = vp_int_in("n", 2, 100000);
  arbitrary_grid(b, n);
#ifndef VP_SYM
  std::sort(b.bins.begin(), b.bins.end(), [](auto &x, auto &y) { return x.first < y.first; });
#endif
  vp_assume(vp_forall2(0, n, [&](int i, int j) { return !(i < j) || b.bins[i].first <= b.bins[j].first; }));
  P.discard_immediately = fabs(vp_real("discard"));
  const std::vector<Peak> old = b.bins;
  const double e = vp_real("e"); vp_assume(e >= 0);
  const W w(vp_real("wr"), vp_real("wi"));
  vp_candidate([&](int i) { return !(old[0].first <= e) || (i == 0 ? old[i].first <= e : old[i].first < e); }, "searched");
  b.add(e, w);
  const int k = vp_int_in("k", 0, n - 1);
  vp_assert((int)b.bins.size() == n, "same-grid-length");
  vp_assert_eq(b.bins[k].first, old[k].first, "grid-points-untouched");
  const bool in = !(abs(w) < P.discard_immediately * e) && old[0].first <= e && e <= old[n - 1].first;
  if (!in) {
    vp_assert_eq(b.bins[k].second.real(), old[k].second.real(), "discarded-re");
    vp_assert_eq(b.bins[k].second.imag(), old[k].second.imag(), "discarded-im");
    return;
  }
  const double tr = vp_sum(0, n, [&](int j) { return b.bins[j].second.real(); }), tr0 = vp_sum(0, n, [&](int j) { return old[j].second.real(); });
  const double ti = vp_sum(0, n, [&](int j) { return b.bins[j].second.imag(); }), ti0 = vp_sum(0, n, [&](int j) { return old[j].second.imag(); });
  vp_assert_eq(tr, tr0 + w.real(), "weight-conserved-re");
  vp_assert_eq(ti, ti0 + w.imag(), "weight-conserved-im");
}
// merging: point-by-point sum, and a mismatch of the grids is refused
VP_CONTRACT(bins_merge) {
  Params &P = params();
  B a(P), b(P);
  const int n = vp_int_in("n", 1, 100000), m = vp_int_in("m", 1, 100000);
  arbitrary_grid(a, n); static_cast<std::vector<Peak> &>(b.bins) = vp_vec_n<Peak>("bins2", m);
#ifndef VP_SYM
  if (vp::rng() % 4) { vp_setlen(static_cast<std::vector<Peak> &>(b.bins), n); for (int i = 0; i < n; i++) b.bins[i].first = a.bins[i].first; if (vp::rng() % 4 == 0) b.bins[vp::rng() % n].first += 1; }
#endif
  const int mm = (int)b.bins.size();
  const std::vector<Peak> olda = a.bins, oldb = b.bins;
  const int k = vp_int_in("k", 0, n - 1);
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return olda[j].first == oldb[j].first; }); }, "same");
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return a.bins[j].second.real() == olda[j].second.real() + oldb[j].second.real() && a.bins[j].second.imag() == olda[j].second.imag() + oldb[j].second.imag(); }); }, "summed");
  vp_candidate([&](int i) { return vp_forall(i, n, [&](int j) { return a.bins[j].second.real() == olda[j].second.real() && a.bins[j].second.imag() == olda[j].second.imag(); }); }, "rest");
  if (vp_throws([&] { a.merge(b); })) {
    vp_assert(n != mm || vp_exists(0, n, [&](int j) { return olda[j].first != oldb[j].first; }), "refused-only-on-mismatch");
    return;
  }
  vp_assert(n == mm && olda[k].first == oldb[k].first, "accepted-only-on-equal-grids");
  vp_assert((int)a.bins.size() == n, "same-grid-length");
  vp_assert_eq(a.bins[k].first, olda[k].first, "grid-points-untouched");
  vp_assert_eq(a.bins[k].second.real(), olda[k].second.real() + oldb[k].second.real(), "sum-re");
  vp_assert_eq(a.bins[k].second.imag(), olda[k].second.imag() + oldb[k].second.imag(), "sum-im");
  vp_assert_eq(b.bins[k].second.real(), oldb[k].second.real(), "source-untouched");
}
// trimming: a bin is dropped only if its weight is below discard_trim times the interval width; the last is always kept
VP_CONTRACT(bins_trim) {
  Params &P = params();
  B b(P);
  const int n = vp_int_in("n", 1, 100000);
  arbitrary_grid(b, n);
#ifndef VP_SYM
  std::sort(b.bins.begin(), b.bins.end(), [](auto &x, auto &y) { return x.first < y.first; });
#endif
  vp_assume(vp_forall2(0, n, [&](int i, int j) { return !(i < j) || b.bins[i].first <= b.bins[j].first; }));
  P.discard_trim = fabs(vp_real("discard_trim"));
  const std::vector<Peak> old = b.bins;
  const auto heavy = [&](int j) { return abs(old[j].second) >= P.discard_trim * (old[j + 1].first - old[j].first); };
  // number of bins kept among the first m, and their accumulated weight
  const auto kept = [&](int m) { return vp_sum(0, m, [&](int j) { return heavy(j) ? 1.0 : 0.0; }); };
  const auto wre = [&](int m) { return vp_sum(0, m, [&](int j) { return heavy(j) ? old[j].second.real() : 0.0; }); };
  const auto wim = [&](int m) { return vp_sum(0, m, [&](int j) { return heavy(j) ? old[j].second.imag() : 0.0; }); };
  const auto wfr = [&](int m) { return vp_sum(0, m, [&](int j) { return heavy(j) ? old[j].first * old[j].second.real() : 0.0; }); };
  const auto now = [&](int m) { return vp_sum(0, m, [&](int j) { return b.bins[j].second.real(); }); };
  const auto nowi = [&](int m) { return vp_sum(0, m, [&](int j) { return b.bins[j].second.imag(); }); };
  const auto nowf = [&](int m) { return vp_sum(0, m, [&](int j) { return b.bins[j].first * b.bins[j].second.real(); }); };
  vp_candidate([&](int i) { return vp_eq((double)b.bins.size(), kept(i)); }, "number");
  vp_candidate([&](int i) { return vp_eq(now((int)b.bins.size()), wre(i)); }, "weight-re");
  vp_candidate([&](int i) { return vp_eq(nowi((int)b.bins.size()), wim(i)); }, "weight-im");
  vp_candidate([&](int i) { return vp_eq(nowf((int)b.bins.size()), wfr(i)); }, "first-moment");
  b.trim();
  const int nn = (int)b.bins.size();
  vp_assert_eq((double)nn, kept(n - 1) + 1, "kept-number");
  vp_assert_eq(now(nn), wre(n - 1) + old[n - 1].second.real(), "kept-weight-re");
  vp_assert_eq(nowi(nn), wim(n - 1) + old[n - 1].second.imag(), "kept-weight-im");
  vp_assert_eq(nowf(nn), wfr(n - 1) + old[n - 1].first * old[n - 1].second.real(), "kept-first-moment");
  vp_assert(b.bins[nn - 1].first == old[n - 1].first, "last-bin-kept");
}
