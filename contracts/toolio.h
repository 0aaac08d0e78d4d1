// Whole-tool runs in the bounded native stand-ins: input files are written to (and results read from) the scratch directory of the run.
#pragma once
#ifndef VP_SYM
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
#include <cstring>
#include <cmath>
#include <iomanip>
#include <algorithm>
namespace tio {
inline double grid(int n = 64) { return ((int)(vp::rng() % (2 * n + 1)) - n) / 8.0; }
inline int pick(int a, int b) { return a + (int)(vp::rng() % (unsigned long)(b - a + 1)); }
inline bool coin() { return vp::rng() % 2; }
inline void dir(const std::string &d) { mkdir(d.c_str(), 0777); }
inline void binary(const std::string &f, const std::vector<double> &v) { std::ofstream o(f, std::ios::binary); o.write((const char *)v.data(), v.size() * sizeof(double)); }
inline std::vector<double> read_binary(const std::string &f) {
  std::ifstream i(f, std::ios::binary); std::vector<double> v; double x; while (i.read((char *)&x, sizeof x)) v.push_back(x); return v;
}
// rows of numbers; comment lines in between
inline void table(const std::string &f, const std::vector<std::vector<double>> &rows, bool comments = true) {
  std::ofstream o(f); o << std::setprecision(17);
  if (comments && coin()) o << "# comment\n";
  for (auto &r : rows) {
    for (size_t i = 0; i < r.size(); i++) o << (i ? " " : "") << r[i];
    o << "\n";
  }
}
inline std::vector<std::vector<double>> read_table(const std::string &f) {
  std::ifstream i(f); std::vector<std::vector<double>> t; std::string l;
  while (std::getline(i, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream s(l); std::vector<double> r; double x; while (s >> x) r.push_back(x); t.push_back(r); }
  return t;
}
struct Args {
  std::vector<std::string> s; std::vector<char *> p;
  Args(std::vector<std::string> v) : s(std::move(v)) { for (auto &x : s) p.push_back(x.data()); p.push_back(nullptr); optind = 0; }
  int argc() const { return (int)s.size(); } char **argv() { return p.data(); }
};
inline std::vector<double> increasing(int n) { std::vector<double> x(n); for (auto &v : x) v = grid(200); std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); return x; }
// the piecewise-linear interpolant with constant continuation, by definition
inline double linear(const std::vector<double> &x, const std::vector<double> &y, double q) {
  if (q <= x.front()) return y.front();
  if (q >= x.back()) return y.back();
  for (size_t i = 0; i + 1 < x.size(); i++) if (x[i] <= q && q <= x[i + 1]) return y[i] + (y[i + 1] - y[i]) / (x[i + 1] - x[i]) * (q - x[i]);
  return NAN;
}
inline bool close(double a, double b, double mag = 1) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b) + mag); }
}
#endif
