// Contract language used by the proof drivers in this directory.
// With VP_SYM the intrinsics are external functions interpreted by the VC generator (vc/engine.py, vc/lib.py): every value
// drawn is arbitrary, every assertion is a proof obligation. Without VP_SYM the same drivers run natively (replay of
// counterexamples and the labelled bounded stand-in): values come from the verifier's model or a random source.
#ifndef VP_H
#define VP_H
#include <vector>
#include <utility>
#include <cmath>
#include <string>
#include <complex>

#ifdef VP_SYM
extern "C" {
double vp_real(const char *name);
int vp_int(const char *name);
bool vp_bool(const char *name);
void vp_assume(bool);
void vp_assert(bool, const char *name);
void vp_assert_eq(double, double, const char *name);
bool vp_le(double, double);
bool vp_eq(double, double);
void vp_reached(const char *name);
void vp_use_contract(const char *callee); // calls of this function are replaced by vp_callee_<name>
bool vp_split(bool);
double vp_uf1(const char *name, double);
double vp_uf2(const char *name, double, double);
void vp_hint(int);
void vp_clear_candidates();
}
#define vp_assert_near(a, b, mag, n) vp_assert_eq(a, b, n)
#define VP_CONTRACT(n) extern "C" void contract_##n()
#define VP_NOINLINE __attribute__((noinline))
template<class F> bool vp_forall(int lo, int hi, const F &f) { bool r = true; for (int k = lo; k < hi; k++) r = r && f(k); return r; }
template<class F> bool vp_exists(int lo, int hi, const F &f) { for (int k = lo; k < hi; k++) if (f(k)) return true; return false; }
template<class F> bool vp_forall2(int lo, int hi, const F &f) { bool r = true; for (int k = lo; k < hi; k++) r = r && f(k, k); return r; }
template<class F> double vp_sum(int lo, int hi, const F &f) { double s = 0; for (int k = lo; k < hi; k++) s += f(k); return s; }
template<class F> double vp_prod(int lo, int hi, const F &f) { double s = 1; for (int k = lo; k < hi; k++) s *= f(k); return s; }
template<class F> double vp_fold(int lo, int hi, double init, const F &f) { for (int k = lo; k < hi; k++) init = f(k, init); return init; }
namespace vp { template<class... A> struct any { template<class T> operator T() const; };
template<class F, class R, class C, class... A> void call_it(const F &f, R (C::*)(A...) const) { f(A()...); } }
template<class F> void vp_candidate(const F &f, const char *name) { vp::call_it(f, &F::operator()); }
template<class T> std::vector<T> vp_vec(const char *name, int minlen) { (void)name; return std::vector<T>(minlen); }
template<class M> VP_NOINLINE void vp_matrix(M &m, const char *, int r, int c) { m.resize(r, c); }
template<class M> VP_NOINLINE double vp_mapkey(const M &m, int i) { return i < (int)m.size() ? 1 : 0; }
template<class M> VP_NOINLINE double vp_mapval(const M &m, int i) { return i < (int)m.size() ? 1 : 0; }
#else
#include <random>
#include <algorithm>
#include <map>
#include <deque>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sstream>
#include <iostream>
namespace vp {
struct Skip {};
struct Fail { std::string name; };
inline std::mt19937_64 rng;
inline std::map<std::string, std::deque<double>> model;
inline std::vector<std::pair<std::string, double>> vlog;
inline std::vector<double> seen;
inline double ufseed = 0;
inline FILE *out = nullptr;
inline jmp_buf exit_env;
inline int exit_armed = 0;
inline std::map<std::string, void (*)()> &reg() { static std::map<std::string, void (*)()> r; return r; }
struct Reg { Reg(const char *n, void (*f)()) { reg()[n] = f; } };
inline bool from_model(const std::string &n, double &v) {
  auto it = model.find(n);
  if (it == model.end() || it->second.empty()) return false;
  v = it->second.front(); it->second.pop_front(); return true;
}
inline double mode = 1; // magnitude of the reals of this trial
inline double rnd_real0();
inline double rnd_real() {
  const auto k = rng() % 40;
  if (k == 0) return rnd_real0() * std::pow(10., -double(rng() % 18));
  if (k < 8 && !seen.empty()) return seen[rng() % seen.size()];
  return mode * rnd_real0();
}
inline double rnd_real0() {
  const auto k = rng() % 10;
  if (k < 3) return 0.0;
  if (k < 7) return (double(rng() % 65) - 32) / 8.0;
  if (k < 8) return double(rng() % 9) - 4;
  return std::uniform_real_distribution<double>(-3, 3)(rng);
}
inline double num(const std::string &n, double r) { double v; if (!from_model(n, v)) v = r; vlog.emplace_back(n, v); return v; }
template<class T> struct Draw;
template<> struct Draw<double> { static double get(const std::string &n) { double v = num(n, rnd_real()); seen.push_back(v); return v; } };
template<> struct Draw<int> { static int get(const std::string &n) { return (int)num(n, double(rng() % 12) - 3); } };
template<class A, class B> struct Draw<std::pair<A, B>> { static std::pair<A, B> get(const std::string &n) { A a = Draw<A>::get(n + ".first"); return {a, Draw<B>::get(n + ".second")}; } };
template<> struct Draw<std::complex<double>> { static std::complex<double> get(const std::string &n) { double a = Draw<double>::get(n + ".first"); return {a, Draw<double>::get(n + ".second")}; } };
template<class T> struct Draw<std::vector<T>> { static std::vector<T> get(const std::string &n) { int l = (int)num(n + "_len", double(rng() % 5)); std::vector<T> v; for (int i = 0; i < l; i++) v.push_back(Draw<T>::get(n + "[" + std::to_string(i) + "]")); return v; } };
inline const double TOL = 1e-8;
}
inline double vp_real(const char *n) { return vp::Draw<double>::get(n); }
inline int vp_int(const char *n) { return vp::Draw<int>::get(n); }
inline bool vp_bool(const char *n) { return vp::num(n, double(vp::rng() % 2)) != 0; }
inline void vp_assume(bool b) { if (!b) throw vp::Skip(); }
inline void vp_assert(bool b, const char *n) { if (!b) throw vp::Fail{n}; }
inline bool vp_eq(double a, double b) { return a == b || std::fabs(a - b) <= vp::TOL * (1 + std::fabs(a) + std::fabs(b)); }
inline bool vp_le(double a, double b) { return a <= b + vp::TOL * (1 + std::fabs(a) + std::fabs(b)); }
inline void vp_assert_eq(double a, double b, const char *n) { if (!vp_eq(a, b)) { char buf[200]; snprintf(buf, sizeof buf, " (%.17g vs %.17g)", a, b); throw vp::Fail{std::string(n) + buf}; } }
// equality up to rounding of terms of the given magnitude
inline void vp_assert_near(double a, double b, double mag, const char *n) { if (!(a == b || std::fabs(a - b) <= 1e-9 * std::fabs(mag) + 1e-300)) { char buf[200]; snprintf(buf, sizeof buf, " (%.17g vs %.17g, terms %.3g)", a, b, mag); throw vp::Fail{std::string(n) + buf}; } }
inline void vp_reached(const char *) {}
inline void vp_use_contract(const char *) {}
inline bool vp_split(bool b) { return b; }
inline double vp_uf1(const char *n, double x) { double h = std::hash<std::string>()(n) % 1000 / 100.0 + vp::ufseed; return std::sin(1.3 * x + h) * 2 + std::cos(0.7 * h) + 0.25 * x; }
inline double vp_uf2(const char *n, double x, double y) { double h = std::hash<std::string>()(n) % 1000 / 100.0 + vp::ufseed; return std::sin(1.3 * x + h) * 2 + std::cos(0.7 * y + h) + 0.25 * x * y; }
inline void vp_hint(int) {}
inline void vp_clear_candidates() {}
#define VP_CONTRACT(n) extern "C" void contract_##n(); static vp::Reg vp_reg_##n(#n, contract_##n); extern "C" void contract_##n()
#define VP_NOINLINE
template<class F> bool vp_forall(int lo, int hi, const F &f) { for (int k = lo; k < hi; k++) if (!f(k)) return false; return true; }
template<class F> bool vp_exists(int lo, int hi, const F &f) { for (int k = lo; k < hi; k++) if (f(k)) return true; return false; }
template<class F> bool vp_forall2(int lo, int hi, const F &f) { for (int k = lo; k < hi; k++) for (int l = lo; l < hi; l++) if (!f(k, l)) return false; return true; }
template<class F> double vp_sum(int lo, int hi, const F &f) { double s = 0; for (int k = lo; k < hi; k++) s += f(k); return s; }
template<class F> double vp_prod(int lo, int hi, const F &f) { double s = 1; for (int k = lo; k < hi; k++) s *= f(k); return s; }
template<class F> double vp_fold(int lo, int hi, double init, const F &f) { for (int k = lo; k < hi; k++) init = f(k, init); return init; }
template<class F> void vp_candidate(const F &, const char *) {}
template<class M> void vp_matrix(M &m, const char *name, int r, int c) {
  m.resize(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = vp::Draw<typename M::value_type>::get(std::string(name) + "[" + std::to_string(i) + "," + std::to_string(j) + "]");
}
template<class M> double vp_mapkey(const M &m, int i) { return std::next(m.begin(), i)->first; }
template<class M> double vp_mapval(const M &m, int i) { return std::next(m.begin(), i)->second; }
template<class T> std::vector<T> vp_vec(const char *name, int minlen) {
  const std::string n(name);
  int l = (int)vp::num(n + "_len", double(minlen + vp::rng() % 6));
  if (l < minlen) throw vp::Skip();
  if (l > 200) l = 200 > minlen ? 200 : minlen;
  std::vector<T> v;
  for (int i = 0; i < l; i++) v.push_back(vp::Draw<T>::get(n + "[" + std::to_string(i) + "]"));
  return v;
}
#endif

// ---- derived ghost helpers, same text in both modes
// strictly increasing abscissae (a table as the tools read them)
inline void vp_sorted(std::vector<std::pair<double, double>> &v) {
#ifdef VP_SYM
  vp_assume(vp_forall2(0, (int)v.size(), [&](int i, int j) { return !(i < j) || v[i].first < v[j].first; }));
#else
  const size_t n = v.size();
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end(), [](auto &a, auto &b) { return a.first == b.first; }), v.end());
  while (v.size() < n) v.emplace_back((v.empty() ? 0.0 : v.back().first) + 1.0 / 8 * (1 + vp::rng() % 8), vp::rnd_real());
#endif
}
inline void vp_sorted(std::vector<double> &v) {
#ifdef VP_SYM
  vp_assume(vp_forall2(0, (int)v.size(), [&](int i, int j) { return !(i < j) || v[i] < v[j]; }));
#else
  const size_t n = v.size();
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  while (v.size() < n) v.push_back((v.empty() ? 0.0 : v.back()) + 1.0 / 8 * (1 + vp::rng() % 8));
#endif
}
// an integer of [lo,hi]; a vector of the given length
#ifdef VP_SYM
inline int vp_int_in(const char *name, int lo, int hi) { const int i = vp_int(name); vp_assume(lo <= i && i <= hi); return i; }
inline double vp_pos(const char *name) { const double x = vp_real(name); vp_assume(x > 0); return x; }
inline double vp_unit(const char *name) { const double x = vp_real(name); vp_assume(0 < x && x <= 1); return x; }
template<class T> void vp_setlen(std::vector<T> &v, int n) { vp_assume((int)v.size() == n); }
template<class T> std::vector<T> vp_vec_n(const char *name, int n) { auto v = vp_vec<T>(name, 0); vp_assume((int)v.size() == n); return v; }
#else
inline int vp_int_in(const char *name, int lo, int hi) { return (int)vp::num(name, double(lo + (long)(vp::rng() % (unsigned long)(std::min((long)hi - lo, 8l) + 1)))); }
inline double vp_pos(const char *name) { double x = vp::num(name, std::fabs(vp::rng() % 8 ? vp::rnd_real0() : std::pow(10., std::uniform_real_distribution<double>(-3, 3)(vp::rng)))); x = std::fabs(x); if (x < 1e-6) x = 1; vp::seen.push_back(x); return x; }
inline double vp_unit(const char *name) { double x = vp::num(name, vp::rng() % 3 ? double(1 + vp::rng() % 16) / 16 : std::uniform_real_distribution<double>(0.01, 1)(vp::rng)); return x > 0 && x <= 1 ? x : 1; }
template<class T> void vp_setlen(std::vector<T> &v, int n) { v.resize(std::min((int)v.size(), n)); while ((int)v.size() < n) v.push_back(vp::Draw<T>::get("+")); }
template<class T> std::vector<T> vp_vec_n(const char *name, int n) { auto v = vp_vec<T>(name, 0); vp_setlen(v, n); return v; }
#endif
// does f end in an exception or a process exit?
#ifdef VP_SYM
template<class F> bool vp_throws(const F &f) { try { f(); return false; } catch (...) { return true; } }
#else
extern "C" [[noreturn]] void __real_exit(int);
template<class F> bool vp_throws(const F &f) {
  jmp_buf save; std::memcpy(&save, &vp::exit_env, sizeof(jmp_buf)); const int armed = vp::exit_armed;
  bool r = false;
  if (setjmp(vp::exit_env) == 0) {
    vp::exit_armed = 2;
    try { f(); } catch (vp::Skip &) { std::memcpy(&vp::exit_env, &save, sizeof(jmp_buf)); vp::exit_armed = armed; throw; } catch (vp::Fail &) { std::memcpy(&vp::exit_env, &save, sizeof(jmp_buf)); vp::exit_armed = armed; throw; } catch (...) { r = true; }
  } else r = true;
  std::memcpy(&vp::exit_env, &save, sizeof(jmp_buf)); vp::exit_armed = armed;
  return r;
}
#endif

#if !defined(VP_SYM) && defined(VP_MAIN)
namespace vp {
inline const char *cur_contract = "?";
inline long cur_trial = 0;
inline void dump(const char *what) {
  fprintf(out, "FAIL contract=%s trial=%ld what=%s\n", cur_contract, cur_trial, what);
  for (auto &[n, v] : vlog) fprintf(out, "  %s = %.17g\n", n.c_str(), v);
  fflush(out);
}
inline void on_signal(int s) { char b[64]; snprintf(b, sizeof b, "crash-signal-%d", s); dump(b); _exit(3); }
}
extern "C" void __wrap_exit(int c) { if (vp::exit_armed) longjmp(vp::exit_env, 1); __real_exit(c); }
// usage: prog OUT CONTRACT TRIALS SEED [MODEL]
int main(int argc, char **argv) {
  using namespace vp;
  out = fopen(argv[1], "w");
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, on_signal);
  signal(SIGALRM, [](int) { fprintf(out, "TIMEOUT\n"); fflush(out); _exit(4); });
  std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
  const long trials = atol(argv[3]); const unsigned long seed = strtoul(argv[4], nullptr, 10);
  std::map<std::string, std::deque<double>> model0;
  if (argc > 5) { FILE *f = fopen(argv[5], "r"); char nm[256]; double v; if (f) { while (fscanf(f, "%255s %lf", nm, &v) == 2) model0[nm].push_back(v); fclose(f); } }
  auto it = reg().find(argv[2]);
  if (it == reg().end()) { fprintf(out, "NOCONTRACT\n"); return 2; }
  cur_contract = argv[2];
  long ran = 0, skipped = 0;
  for (long t = 0; t < trials; t++) {
    cur_trial = t; vlog.clear(); seen.clear(); rng.seed(seed * 1000003 + t); ufseed = double(rng() % 628) / 100; mode = rng() % 16 == 0 ? 1e-13 : rng() % 32 == 0 ? 1e5 : 1;
    if (argc > 5 && t == 0) model = model0; else model.clear();
    alarm(20);
    exit_armed = 1;
    if (setjmp(exit_env) == 0) {
      try { it->second(); ran++; }
      catch (Skip &) { skipped++; }
      catch (Fail &f) { exit_armed = 0; dump(f.name.c_str()); return 1; }
      catch (std::exception &e) { exit_armed = 0; dump((std::string("uncaught-exception ") + e.what()).c_str()); return 1; }
      catch (...) { exit_armed = 0; dump("uncaught-exception"); return 1; }
    } else { exit_armed = 0; dump("process-exit"); return 1; }
    exit_armed = 0;
  }
  fprintf(out, "OK ran=%ld skipped=%ld\n", ran, skipped);
  fclose(out);
  _exit(0);
}
#endif
#endif
