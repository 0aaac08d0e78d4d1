// tools/nrgchain with its interpolation objects and multiple-precision numbers abstracted in the proofs
#define VP_NO_RECORD
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cmath>
#include <limits>
#include <vector>
#include <string>
#include <map>
#include <stdexcept>
#include <algorithm>
#include <cfloat>
#include <iterator>
#include "common/tabulated.hpp"
#include "outrec.h"
#include "toolio.h"
#ifdef VP_SYM
// output files: the last number written is kept
struct vp_file {
  double last; int n;
  vp_file() : last(0), n(0) {}
  vp_file(const char *) : last(0), n(0) {}
  vp_file &operator<<(double x) { last = x; n++; return *this; }
  vp_file &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
  bool operator!() const { return false; }
  void close() {}
  operator std::ostream &() const { return std::cerr; }
};
#include "common/io.hpp"
namespace NRG::Tools { inline void open_output(vp_file &, const std::string &, const int = 16) {} }
namespace std { using ::vp_file; }
#define ofstream vp_file
// the interpolation objects are under contract elsewhere (P01); here they are arbitrary functions
#define _tools_common_linint_hpp_
static inline double table_value(int id, double x) { return id == 1 ? vp_uf1("intrho-pos", x) : id == 2 ? vp_uf1("intrho-neg", x) : id == 3 ? vp_uf1("g-pos", x) : id == 4 ? vp_uf1("g-neg", x) : id == 5 ? vp_uf1("f-pos", x) : vp_uf1("f-neg", x); }
namespace NRG::Tools {
template <typename Vec, typename E> class LinIntBase {
  public:
  int id{};
  LinIntBase() = default;
  explicit LinIntBase(const Vec &) {}
  double operator()(const double x) { return table_value(id, x); }
};
template <typename Vec, typename E> class IntLinIntBase : public LinIntBase<Vec, E> {
  public:
  IntLinIntBase() = default;
  IntLinIntBase(const Vec &, const Vec &) {}
};
}
// GMP floating-point numbers of high precision are taken as exact reals
#define __GMP_H__
struct mpf_struct { double v; };
typedef mpf_struct mpf_t[1];
static inline void mpf_init(mpf_struct *a) { a->v = 0; }
static inline void mpf_clear(mpf_struct *) {}
static inline void mpf_set(mpf_struct *a, const mpf_struct *b) { a->v = b->v; }
static inline void mpf_set_d(mpf_struct *a, double b) { a->v = b; }
static inline void mpf_set_str(mpf_struct *a, const char *, int) { a->v = 1; }
static inline void mpf_add(mpf_struct *a, const mpf_struct *b, const mpf_struct *c) { a->v = b->v + c->v; }
static inline void mpf_sub(mpf_struct *a, const mpf_struct *b, const mpf_struct *c) { a->v = b->v - c->v; }
static inline void mpf_mul(mpf_struct *a, const mpf_struct *b, const mpf_struct *c) { a->v = b->v * c->v; }
static inline void mpf_div(mpf_struct *a, const mpf_struct *b, const mpf_struct *c) { a->v = b->v / c->v; }
static inline void mpf_neg(mpf_struct *a, const mpf_struct *b) { a->v = -b->v; }
static inline void mpf_sqrt(mpf_struct *a, const mpf_struct *b) { a->v = std::sqrt(b->v); }
static inline double mpf_get_d(const mpf_struct *a) { return a->v; }
static inline int mpf_cmp_d(const mpf_struct *a, double b) { return a->v < b ? -1 : a->v > b; }
static inline void mpf_set_default_prec(unsigned long) {}
#else
#include <gmp.h>
#endif
