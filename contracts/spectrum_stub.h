// The accumulators behind the spectral-function algorithms replaced by recorders: every peak handed over is tested with an
// arbitrary function of its energy, every Matsubara contribution with an arbitrary function of its index (binning, Matsubara
// accumulation and merging have contracts of their own on the real classes).
#ifndef VP_SPECTRUM_STUB_H
#define VP_SPECTRUM_STUB_H
#define _spectrum_hpp_
#include <algorithm>
#include <cmath>
#include <string>
#include "traits.hpp"
#include "params.hpp"
#include "basicio.hpp"
#include "matsubara.hpp"
#include "io.hpp"
namespace NRG {
class Step;
inline int vp_n0 = 0; // the Matsubara index looked at
template<scalar S> struct ChainBinning {
  double total = 0;
  explicit ChainBinning(const Params &) {}
  void add(const double e, const double w) { total += w * vp_uf1("phi", e); }
  void add(const std::pair<double, double> &p, const double f) { total += f * (p.second * vp_uf1("phi", p.first)); }
};
template<scalar S> struct ChainMatsubara {
  double re = 0, im = 0;
  gf_type kind;
  ChainMatsubara(const Params &, const gf_type gt) : kind(gt) {}
  void add(const size_t n, const std::complex<double> w) { if ((int)n == vp_n0) { re += w.real(); im += w.imag(); } }
};
template<scalar S> struct ChainTempDependence {
  double T = 0, re = 0, im = 0; int n = 0;
  explicit ChainTempDependence(const Params &) {}
  void add(const double T_, const std::complex<double> w) { T = T_; re += w.real(); im += w.imag(); n++; }
};
template<scalar S> struct SpectrumRealFreq {
  double cfs = 0, nn2 = 0;
  SpectrumRealFreq(const std::string &, const std::string &, const std::string &, const Params &) {}
  void mergeCFS(const ChainBinning<S> &c) { cfs += c.total; }
  void mergeNN2(const ChainBinning<S> &c, const Step &) { nn2 += c.total; }
  void save() {}
};
template<scalar S> struct GFMatsubara {
  gf_type kind; double re = 0, im = 0;
  GFMatsubara(const std::string &, const std::string &, const std::string &, gf_type gt, const Params &) : kind(gt) {}
  void merge(const ChainMatsubara<S> &c) { re += c.re; im += c.im; }
  void save() {}
};
template<scalar S> struct TempDependence {
  double re = 0, im = 0, T = 0; int n = 0;
  TempDependence(const std::string &, const std::string &, const std::string &, const Params &) {}
  void merge(const ChainTempDependence<S> &c) { re += c.re; im += c.im; T = c.T; n += c.n; }
  void save() {}
};
}
#endif
