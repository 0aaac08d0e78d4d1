// whole-tool run of tools/nrgchain on random hybridisation functions (bounded), and its oracle
#pragma once
#ifndef VP_SYM
// the chain reproduces the moments <0|H^k|0> of the star Hamiltonian (energies e with weights w) that its coefficients determine
static bool moments(const std::vector<double> &e, const std::vector<double> &w, const std::vector<double> &xi, const std::vector<double> &zeta) {
  const int s = xi.size() + 1; long double tot = 0; for (double x : w) tot += x;
  std::vector<long double> v(s, 0), t(s); v[0] = 1; std::vector<long double> p(w.begin(), w.end());
  for (auto &x : p) x /= tot;
  std::vector<long double> cur = p; long double ab = 1; std::vector<long double> q = p;
  for (int k = 1; k <= 2 * (int)xi.size(); k++) {
    for (int i = 0; i < s; i++) t[i] = (i < s - 1 ? zeta[i] * v[i] : 0) + (i ? xi[i - 1] * v[i - 1] : 0) + (i < s - 1 ? xi[i] * v[i + 1] : 0);
    v = t; long double m = 0, a = 0; for (size_t i = 0; i < e.size(); i++) { cur[i] *= e[i]; q[i] *= fabs(e[i]); m += cur[i]; a += q[i]; }
    ab = a; if (!(fabsl(m - v[0]) <= 1e-12L * ab)) return false;
  }
  for (double x : xi) if (!(x > 0)) return false;
  return true;
}
static double scale_of(int n, double L) { return (1 - 1 / L) / std::log(L) * std::pow(L, -(n - 1) / 2.0 + 1 - z); } // energy scale of the n-th shell
struct Quiet { std::streambuf *o, *e; std::ostringstream out, err; Quiet() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
#endif
#ifndef VP_SYM
struct Chain { bool failed = false, two = false; double theta = 0, total = -1; std::vector<double> e, w, xi, zeta, ie[2], iw[2]; int N = 0, mm = 0; };
static Chain run_tool(bool two) {
  Chain c; c.two = two;
  const double L = 1.5 + tio::pick(0, 20) / 8.0, zz = tio::pick(1, 8) / 8.0, br = tio::pick(0, 1) ? 1.0 : tio::pick(2, 8) / 4.0; const bool flat = !tio::pick(0, 2), ad = !flat && tio::coin(), resc = tio::coin();
  const int N = tio::pick(0, 4), mm = tio::pick(N + 2, N + 8); const double xmax = 40;
  { std::ofstream f("param"); f << std::setprecision(17) << "[extra]\nLambda=7\n[param]\n# Lambda=9\nLambda=" << L << "\n z = " << zz << " \nNmax=" << N << "\nmMAX=" << mm << "\nbandrescale=" << br << "\nrescalexi=" << (resc ? "true" : "false") << "\nband=" << (flat ? "flat" : "adapt") << "\nadapt=" << (ad ? "true" : "false") << "\npreccpp=600\n[next]\nz=0.3\n"; }
  // piecewise-linear hybridisation function on both half axes, decreasing mesh and representative energies in the files
  std::vector<double> x[2], y[2]; std::vector<std::vector<double>> rho, F[2], G[2];
  for (int s = 0; s < 2; s++) { const int n = tio::pick(1, 5); for (int k = 0; k <= n; k++) { x[s].push_back(k ? (double)k / n : 1e-12); y[s].push_back(flat ? 0.5 : 0.25 + tio::pick(0, 16) / 8.0); rho.push_back({(s ? -1 : 1) * x[s][k] * br, y[s][k] / br}); } }
  tio::table("Delta.dat", rho);
  for (int s = 0; s < 2; s++) { for (double t = 1; t <= xmax; t += 0.125) F[s].push_back({t, (1 - 0.25 / L) * (1 + tio::pick(0, 7) / 64.0)}); double g = 1; for (double t = 2; t <= xmax; t += 0.5) { G[s].push_back({t, g}); g *= 1 - tio::pick(0, 7) / 256.0; } }
  tio::table("FSOL.dat", F[0]); tio::table("FSOLNEG.dat", F[1]); tio::table("GSOL.dat", G[0]); tio::table("GSOLNEG.dat", G[1]);
  // oracle: weights of the intervals of the mesh
  const auto R = [&](int s, double q) { double r = 0; const double t0 = std::min(q, x[s][0]); r += y[s][0] * t0; for (size_t k = 0; k + 1 < x[s].size(); k++) { const double b = std::min(q, x[s][k + 1]); if (b <= x[s][k]) break; const double yb = y[s][k] + (y[s][k + 1] - y[s][k]) * (b - x[s][k]) / (x[s][k + 1] - x[s][k]); r += (y[s][k] + yb) / 2 * (b - x[s][k]); } return r; };
  const auto tab = [](const std::vector<std::vector<double>> &t, double q) { std::vector<double> a, b; for (auto &r : t) { a.push_back(r[0]); b.push_back(r[1]); } return tio::linear(a, b, q); };
  const auto eps = [&](int s, double t) { return t <= 2 ? 1 : std::pow(L, 2 - t) * (ad ? tab(G[s], t) : 1); };
  std::vector<double> e, w; double theta = 0; std::vector<double> ie[2], iw[2];
  for (int m = 0; m <= mm; m++) for (int s = 0; s < 2; s++) {
    const double t = zz + m + 1, wt = R(s, eps(s, t)) - R(s, eps(s, t + 1));
    const double en = flat ? (t < 2 ? (1 - std::pow(L, 1 - t)) / std::log(L) + 2 - t : (1 - 1 / L) / std::log(L) * std::pow(L, 2 - t)) : tab(F[s], t) * std::pow(L, 2 - t);
    e.push_back((s ? -1 : 1) * en * br); w.push_back(wt); theta += wt; ie[s].push_back(en); iw[s].push_back(wt);
  }
  // (two) save the tables first, tridiagonalise in a second run
  bool failed = false; std::string text;
  for (int run = 0; run <= two; run++) {
    reset_calculation_state();
    Quiet q; std::vector<std::string> av{"nrgchain"}; if (two) av.push_back(run ? "l" : "s");
    tio::Args a(av); tool_main(a.argc(), a.argv()); if (q.err.str().find("error") != std::string::npos) { failed = true; text = q.err.str(); }
  }
  if (failed && getenv("DBG")) std::cerr << text;
  c.failed = failed; c.N = N; c.mm = mm; c.theta = theta; c.e = e; c.w = w; for (int s = 0; s < 2; s++) { c.ie[s] = ie[s]; c.iw[s] = iw[s]; }
  if (failed) return c;
  const auto X = tio::read_table("xi.dat"), Z = tio::read_table("zeta.dat"), T = tio::read_table("theta.dat");
  if (T.size() == 1) c.total = T[0][0];
  for (size_t n = 0; n < X.size(); n++) c.xi.push_back(X[n][0] * (resc ? (1 - 1 / L) / std::log(L) * std::pow(L, -(double)n / 2.0 + 1 - zz) : 1));
  for (auto &r : Z) c.zeta.push_back(r[0]);
  return c;
}
#endif
