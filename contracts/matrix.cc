// tools/matrix: evaluation of the Hamiltonian templates
#include "vp.h"
//@ opts: trials=3000
//@ matrix_template: nativeonly=1 trials=3000
//@ matrix_brackets: nativeonly=1 trials=50
//@ flags: -fno-access-control -fno-strict-return -fno-strict-aliasing
#define VP_NO_RECORD
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cassert>
#include <unistd.h>
#include <vector>
#include <string>
#include <functional>
#include "toolio.h"
#define printf(...) (void)0
#define main tool_main
#include "matrix/parser.cc"
#ifndef VP_SYM
// (the two translation units share a header without an include guard: the second copy of its types gets other names)
struct symtab_second;
union LexerValue { double dval; int ival; struct symtab_second *symp; };
#define yylval (*(LexerValue *)&::yylval)
#define symtab symtab_second
#define vec vec_second
#define mat mat_second
#define symlook symlook_second
#include "matrix/matrix.cc"
#undef yylval
#undef symtab
#undef vec
#undef mat
#undef symlook
struct symtab_second *symlook_second(char *s) { return (struct symtab_second *)symlook(s); }
#endif
#undef main
#undef printf
#ifndef VP_SYM
// a random template and, independently, what it stands for
struct Gen {
  int nch = 1, n = 4; bool sc = false; std::vector<double> th; std::vector<std::vector<double>> x, z, de, ka; double v[2][2]; std::vector<std::pair<std::string, double>> vars;
  std::string sp() const { return tio::coin() ? " " : ""; }
  std::string num(double &val) {
    std::ostringstream s;
    switch (tio::pick(0, 3)) {
      case 0: { const int k = tio::pick(0, 20); val = k; s << k; break; }
      case 1: { val = tio::pick(0, 160) / 8.0; s << std::fixed << std::setprecision(3) << val; break; }
      case 2: { const int k = tio::pick(1, 9), e = tio::pick(-3, 3); s << k << "e" << e; val = std::atof(s.str().c_str()); break; }
      default: { s << tio::pick(0, 9) << "." << tio::pick(0, 99) << "E" << (tio::coin() ? "+" : "-") << tio::pick(0, 3); val = std::atof(s.str().c_str()); }
    }
    return s.str();
  }
  std::string atom(double &val, int d) {
    const int c = tio::pick(0, 9); std::ostringstream s;
    const int ch = tio::pick(1, nch), i = tio::pick(0, n - 1);
    if (c == 0 && !vars.empty()) { auto &w = vars[vp::rng() % vars.size()]; val = w.second; return w.first; }
    if (c == 1 && !sc) { val = std::sqrt(th[ch - 1] / M_PI); s << "gammaPolCh[" << ch << "]"; return s.str(); }
    if (c == 2) { val = x[ch - 1][i]; s << "coefxi[" << ch << "," << sp() << i << "]"; return s.str(); }
    if (c == 3) { val = z[ch - 1][i]; s << "coefzeta[" << ch << "," << i << "]"; return s.str(); }
    if (c == 4 && sc) { val = de[ch - 1][i]; s << "coefdelta[" << ch << "," << i << "]"; return s.str(); }
    if (c == 5 && sc) { val = ka[ch - 1][i]; s << "coefkappa[" << ch << "," << i << "]"; return s.str(); }
    if (c == 6 && sc) { const int a = tio::pick(1, 2), b = tio::pick(1, 2); val = v[a - 1][b - 1]; s << "coefV[" << a << "," << b << "]"; return s.str(); }
    if (c == 7 && d > 0) { double w; const std::string t = expr(w, d - 1, 0); const int f = tio::pick(0, 3); bool sq = tio::coin(), name = std::isalpha(t[0]); for (char ch : t) name = name && (std::isalnum(ch) || ch == '_'); if (name) sq = false; /* see matrix_brackets */
      if (f < 2) { val = std::sqrt(w); return std::string(f ? "Sqrt" : "sqrt") + (sq ? "[" : "(") + t + (sq ? "]" : ")"); }
      if (f == 2) { val = std::exp(w); return std::string("exp") + (sq ? "[" : "(") + t + (sq ? "]" : ")"); }
      val = std::log(w); return std::string("log") + (sq ? "[" : "(") + t + (sq ? "]" : ")"); }
    if (c == 8 && d > 0) { const std::string t = expr(val, d - 1, 0); return "(" + sp() + t + ")"; }
    return num(val);
  }
  // prec: 0 sum, 1 product, 2 operand of a minus sign
  std::string expr(double &val, int d, int prec) {
    if (d <= 0) return atom(val, 0);
    const int c = tio::pick(0, 5); double a, b;
    if (c <= 1 && prec == 0) { std::string l = expr(a, d - 1, 0), r = expr(b, d - 1, 1); const bool m = c; val = m ? a - b : a + b; return l + sp() + (m ? "-" : "+") + sp() + r; }
    if (c <= 3 && prec <= 1) { std::string l = expr(a, d - 1, 1), r = expr(b, 0, 2); const bool q = c == 3 && b != 0; val = q ? a / b : a * b; return l + sp() + (q ? "/" : "*") + sp() + r; }
    if (c == 4 && prec == 0) { std::string l = expr(a, d - 1, 2); val = -a; return "-" + l; }
    return atom(val, d);
  }
};
#endif
#ifndef VP_SYM
static std::string run_matrix(bool numbered, int nch, bool nambu, bool pre, bool more = false) {
  theta.clear(); xi.clear(); zeta.clear(); delta.clear(); kappa.clear(); V.clear(); numberedch = false; ::sc = false; nrchannels = 1; prefix = ""; verbose = veryverbose = false; current = 0; file = nullptr; clear_symtab(); count_braces = 0; include_depth = 0;
  std::vector<std::string> av{"matrix"}; if (numbered) { av.push_back("-c"); av.push_back(std::to_string(nch)); } if (nambu) av.push_back("-s"); if (pre) av.push_back("-P"); av.push_back("template.in"); if (more) av.push_back("more.in");
  tio::Args A(av); std::ostringstream o, e; auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf());
  tool_main(A.argc(), A.argv()); yylex_destroy();
  std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
  return o.str();
}
#endif
// coefficient tables: channels count from one, sites from zero
VP_CONTRACT(matrix_coefficients) {
#ifdef VP_SYM
  nrchannels = vp_int_in("channels", 1, 1000);
  theta = vp_vec_n<double>("theta", nrchannels); xi = vp_vec_n<vector<double>>("xi", nrchannels); zeta = vp_vec_n<vector<double>>("zeta", nrchannels);
  delta = vp_vec_n<vector<double>>("delta", nrchannels); kappa = vp_vec_n<vector<double>>("kappa", nrchannels);
  const int ch = vp_int_in("ch", 1, nrchannels), i = vp_int_in("i", 0, 1000000);
#else
  nrchannels = tio::pick(1, 4); const int n = tio::pick(1, 5), ch = tio::pick(1, nrchannels), i = tio::pick(0, n - 1); theta.clear(); xi.clear(); zeta.clear(); delta.clear(); kappa.clear();
  for (int c = 0; c < nrchannels; c++) { theta.push_back(tio::pick(0, 40) / 8.0); for (auto *v : {&xi, &zeta, &delta, &kappa}) { v->push_back({}); for (int k = 0; k < n; k++) v->back().push_back(tio::grid()); } }
#endif
  vp_assume(i < (int)xi[ch - 1].size()); vp_assume(i < (int)zeta[ch - 1].size()); vp_assume(i < (int)delta[ch - 1].size()); vp_assume(i < (int)kappa[ch - 1].size());
  vp_assume(theta[ch - 1] >= 0);
  const double g = gammapolch(ch);
  vp_assert_near(g * g * M_PI, theta[ch - 1], theta[ch - 1], "hybridisation-strength");
  vp_assert(g >= 0, "hybridisation-positive");
  vp_assert(coefxi(ch, i) == xi[ch - 1][i], "hopping");
  vp_assert(coefzeta(ch, i) == zeta[ch - 1][i], "onsite-energy");
  vp_assert(coefdelta(ch, i) == delta[ch - 1][i], "pairing");
  vp_assert(coefkappa(ch, i) == kappa[ch - 1][i], "anomalous-hopping");
}
VP_CONTRACT(matrix_template) {
#ifndef VP_SYM
  Gen g; g.sc = !tio::pick(0, 2); const bool numbered = tio::coin(); g.nch = numbered ? tio::pick(1, 3) : 1; g.n = tio::pick(1, 5);
  for (int ch = 1; ch <= g.nch; ch++) {
    const std::string suf = (numbered ? std::to_string(ch) : "") + ".dat"; const auto vecf = [&](const std::string &f, std::vector<std::vector<double>> &v) { v.push_back({}); std::ofstream o(f + suf); o << std::setprecision(17); for (int k = 0; k < g.n; k++) { v.back().push_back(tio::grid()); o << v.back().back() << "\n"; } };
    vecf("xi", g.x); vecf("zeta", g.z);
    if (g.sc) { vecf("scdelta", g.de); vecf("sckappa", g.ka); for (int i = 1; i <= 2; i++) for (int j = 1; j <= 2; j++) { const double v = tio::grid(); if (ch == 1) g.v[i - 1][j - 1] = v; std::ofstream("V" + std::to_string(i) + std::to_string(j) + suf) << v << "\n"; } }
    else { g.th.push_back(tio::pick(0, 40) / 8.0); std::ofstream("theta" + suf) << g.th.back() << "\n"; }
  }
  std::vector<std::string> want; std::ostringstream text, inc; const bool pre = tio::coin(); const std::string P = pre ? "= " : "";
  const auto show = [](double v) { std::ostringstream s; s << std::setprecision(18) << v; return s.str(); };
  const int lines = tio::pick(1, 8); bool include = false;
  const auto define = [&](std::ostream &o) { double v; const std::string e = g.expr(v, 2, 0); std::string name = std::string(1, "ABUVxyz"[vp::rng() % 7]) + (tio::coin() ? "1" : "_k"); if (std::isalpha(e[0])) return; o << name << "=" << e << "\n"; bool old = false; for (auto &w : g.vars) if (w.first == name) { w.second = v; old = true; } if (!old) g.vars.push_back({name, v}); };
  for (int k = 0; k < lines; k++) switch (tio::pick(0, 6)) {
    case 0: text << "# comment 1+1\n"; break;
    case 1: text << "[param]\n"; break;
    case 2: if (!include && tio::coin()) { include = true; define(inc); define(inc); if (inc.str().empty()) inc << "\n"; text << "parse template.inc\n"; } else define(text); break;
    case 3: { double v; text << g.expr(v, 3, 0) << "\n"; want.push_back(P + show(v)); break; }
    case 4: { const int n = tio::pick(1, 4); text << "{"; std::string l; for (int i = 0; i < n; i++) { double v; text << (i ? "," + g.sp() : "") << g.expr(v, 2, 0); l += (i ? " " : "") + show(v); } text << "}\n"; want.push_back(P + l); break; }
    case 5: { const int r = tio::pick(1, 3), n = tio::pick(1, 3); text << "{"; for (int j = 0; j < r; j++) { std::string l; text << (j ? "," : "") << (j && tio::coin() ? "\n" : "") << "{"; for (int i = 0; i < n; i++) { double v; text << (i ? "," : "") << g.expr(v, 2, 0); l += (i ? " " : "") + show(v); } text << "}"; want.push_back(P + l); } text << "}\n"; break; }
    default: text << "\n";
  }
  text << "\n"; { std::ofstream f("template.in"); f << text.str(); std::ofstream h("template.inc"); h << inc.str(); }
  // a second file goes on with the definitions of the first
  const bool more = tio::coin(); if (more) { std::ofstream f("more.in"); double v; f << g.expr(v, 3, 0) << "\n"; want.push_back(P + show(v)); }
  const std::string out = run_matrix(numbered, g.nch, g.sc, pre, more);
  std::vector<std::string> got; { std::istringstream s(out); std::string l; while (std::getline(s, l)) got.push_back(l); }
  bool ok = got.size() == want.size();
  for (size_t k = 0; ok && k < got.size(); k++) {
    std::istringstream a(got[k]), b(want[k]); std::string p, q;
    while (true) { const bool u = bool(a >> p), w = bool(b >> q); if (u != w) { ok = false; break; } if (!u) break; if (p == q) continue; const double c = std::atof(p.c_str()), d = std::atof(q.c_str()); if (std::isnan(c) && std::isnan(d)) continue; if (!(c == d || std::fabs(c - d) <= 1e-12 * (std::fabs(c) + std::fabs(d)))) ok = false; }
    ok = ok && (!pre || got[k].rfind("= ", 0) == 0);
  }
  if (!ok && getenv("DBG")) { std::cerr << "TEMPLATE\n" << text.str() << "INC" << more << "\n" << inc.str() << "GOT\n" << out << "WANT\n"; for (auto &w : want) std::cerr << w << "\n"; }
  vp_assert(ok, "template-evaluated");
#endif
}
// functions applied to a name in square brackets
VP_CONTRACT(matrix_brackets) {
#ifndef VP_SYM
  for (auto f : {"theta.dat", "xi.dat", "zeta.dat"}) std::ofstream(f) << "1\n";
  const int k = tio::pick(2, 30); std::ofstream("template.in") << "x=" << k * k << "\nsqrt[x]\n";
  const std::string o = run_matrix(false, 1, false, false);
  vp_assert(o == std::to_string(k) + "\n", "function-of-a-name-in-brackets");
#endif
}
