// Outfields with the formatting removed: a table column set under its name can be read back (the formatting itself is
// checked separately on the real class).
#ifndef VP_TD_STUB_H
#define VP_TD_STUB_H
#define _outfield_hpp_
#include <string>
#include <vector>
#include <fstream>
#include <optional>
#include <cstring>
#include "params.hpp"
namespace NRG {
struct Allfields { void add(const std::vector<std::string> &, int = -1) {} };
class TD_generic {
 public:
  static constexpr int M = 32;
  static bool same(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
  const char *names[M]; double vals[M]; int n = 0, saved = 0;
  Allfields allfields;
  TD_generic(const Params &, const std::string &) {}
  void set(const char *desc, const double x) { for (int i = 0; i < n; i++) if (same(names[i], desc)) { vals[i] = x; return; } names[n] = desc; vals[n] = x; n++; }
  double get(const char *desc) const { for (int i = 0; i < n; i++) if (same(names[i], desc)) return vals[i]; return 0.0 / 0.0; }
  void save_values() { saved = n; }
};
class TD : public TD_generic { using TD_generic::TD_generic; };
class TD_FDM : public TD_generic { using TD_generic::TD_generic; };
}
#include "stats.hpp"
template<class S> NRG::Stats<S> &vp_stats() {
#ifdef VP_SYM
  alignas(NRG::Stats<S>) static unsigned char buf[sizeof(NRG::Stats<S>)];
  NRG::Stats<S> &s = *reinterpret_cast<NRG::Stats<S> *>(buf);
  s.td.n = 0; s.td_fdm.n = 0;
  return s;
#else
  static NRG::Stats<S> *p = new NRG::Stats<S>(vp_params(), {}, 0.0);
  p->td.n = 0; p->td_fdm.n = 0;
  return *p;
#endif
}
#endif
