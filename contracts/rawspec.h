// raw binned spectra of Nz runs on disk and their average (bounded native stand-ins)
#pragma once
#include "toolio.h"
#ifndef VP_SYM
#include <map>
using namespace std;
struct Raw { vector<map<double, double>> all; map<double, double> avg; double mag = 0; };
static Raw raw_spectra(const string &fn, int nz, int nc, int c, bool flat) {
  Raw r;
  vector<double> pool;
  for (int i = 1; i <= nz; i++) {
    vector<double> b; const int n = tio::pick(0, 5);
    for (int k = 0; k < n; k++) {
      double w = !pool.empty() && tio::coin() ? pool[vp::rng() % pool.size()] : tio::grid();
      pool.push_back(w); b.push_back(w);
      for (int q = 1; q <= nc; q++) { const double v = tio::grid(); b.push_back(v); if (q == c) { r.avg[w] += v / nz; r.mag += fabs(v); } }
    }
    if (flat) tio::binary(fn, b); else { tio::dir(to_string(i)); tio::binary(to_string(i) + "/" + fn, b); }
  }
  return r;
}
#endif
