// quantum numbers of the invariant subspaces (c++/invar.hpp)
//@ libs: -lboost_serialization
//@ flags: -fno-access-control
//@ opts: candlin=1
//@ invar_parity: nativeonly=1
#include "vp.h"
#include "rbtree.h"
#include "core.h"
#include "invar.hpp"
#include "symmetry.hpp"
using namespace NRG;
using namespace std;
// any set of quantum-number types and any two members of the group
static int n_;
static std::vector<int> types;
static bool legal(int t, int x) { return t == additive || (t == multiplicative && (x == 1 || x == -1)) || (t == mod3 && 0 <= x && x <= 2); }
static void kinds() {
  n_ = vp_int_in("invdim", 1, 6);
  types = vp_vec_n<int>("type", n_);
#ifndef VP_SYM
  for (auto &t : types) { const int k = vp::rng() % 3; t = k == 0 ? additive : k == 1 ? multiplicative : mod3; }
#endif
  vp_assume(vp_forall(0, n_, [&](int i) { return types[i] == additive || types[i] == multiplicative || types[i] == mod3; }));
  Invar::invdim = n_; Invar::qntype = types;
}
static std::vector<int> member(const char *name) {
  auto v = vp_vec_n<int>(name, n_);
#ifndef VP_SYM
  for (int i = 0; i < n_; i++) v[i] = types[i] == additive ? int(vp::rng() % 41) - 20 : types[i] == multiplicative ? (vp::rng() % 2 ? 1 : -1) : int(vp::rng() % 3);
#endif
  vp_assume(vp_forall(0, n_, [&](int i) { return legal(types[i], v[i]) && v[i] > -1000000 && v[i] < 1000000; }));
  return v;
}
static Invar make(const std::vector<int> &v) { Invar I(1); I.data = v; return I; }
static int law(int t, int a, int b) { return t == additive ? a + b : t == multiplicative ? a * b : (a + b) % 3; }
static int inv(int t, int a) { return t == additive ? -a : t == multiplicative ? a : (3 - a) % 3; }

VP_CONTRACT(invar_combine) {
  kinds();
  const auto a = member("a"), b = member("b");
  Invar A = make(a), B = make(b);
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return A.data[j] == law(types[j], a[j], b[j]); }); }, "done");
  vp_candidate([&](int i) { return vp_forall(i, n_, [&](int j) { return A.data[j] == a[j]; }); }, "rest");
  A.combine(B);
  const int k = vp_int_in("k", 0, n_ - 1);
  vp_assert((int)A.data.size() == n_, "same-number-of-quantum-numbers");
  vp_assert(A.data[k] == law(types[k], a[k], b[k]), "addition-law");
  vp_assert(legal(types[k], A.data[k]), "result-is-legal");
  vp_assert(B.data[k] == b[k], "argument-untouched");
}
VP_CONTRACT(invar_inverse) {
  kinds();
  const auto a = member("a");
  Invar A = make(a);
  vp_candidate([&](int i) { return vp_forall(0, i, [&](int j) { return A.data[j] == inv(types[j], a[j]); }); }, "done");
  vp_candidate([&](int i) { return vp_forall(i, n_, [&](int j) { return A.data[j] == a[j]; }); }, "rest");
  A.inverse();
  const int k = vp_int_in("k", 0, n_ - 1);
  vp_assert(legal(types[k], A.data[k]), "result-is-legal");
  vp_assert(law(types[k], a[k], A.data[k]) == (types[k] == multiplicative ? 1 : 0), "combines-to-the-identity");
}
// the laws used above form an abelian group, so subspaces can be added and removed in any order
VP_CONTRACT(invar_group) {
  const int t = vp_bool("add") ? additive : vp_bool("mult") ? multiplicative : mod3;
  int a = vp_int_in("a", -1000, 1000), b = vp_int_in("b", -1000, 1000), c = vp_int_in("c", -1000, 1000);
#ifndef VP_SYM
  if (t == multiplicative) { a = a % 2 ? 1 : -1; b = b % 2 ? 1 : -1; c = c % 2 ? 1 : -1; }
  if (t == mod3) { a = abs(a) % 3; b = abs(b) % 3; c = abs(c) % 3; }
#endif
  vp_assume(legal(t, a) && legal(t, b) && legal(t, c));
  Invar::invdim = 1; n_ = 1; types = vp_vec_n<int>("types", 1); types[0] = t; Invar::qntype = types;
  const auto op = [](int x, int y) { Invar X(x), Y(y); X.combine(Y); return X.getqn(0); };
  const auto iv = [](int x) { Invar X(x); X.inverse(); return X.getqn(0); };
  const int one = t == multiplicative ? 1 : 0;
  vp_assert(op(a, b) == op(b, a), "commutative");
  vp_assert(op(op(a, b), c) == op(a, op(b, c)), "associative");
  vp_assert(op(a, one) == a, "identity");
  vp_assert(op(op(a, b), iv(b)) == a, "removing-what-was-added");
  vp_assert(iv(iv(a)) == a, "inverse-twice");
}
// selection rules
VP_CONTRACT(su2_triangle) {
  const int a = vp_int_in("a", 1, 1000), b = vp_int_in("b", 1, 1000), c = vp_int_in("c", 1, 1000);
  const bool r = su2_triangle_inequality(a, b, c);
  // 2j = multiplicity-1: |j1-j2| <= j3 <= j1+j2
  const int x = a - 1, y = b - 1, z = c - 1;
  vp_assert(r == (z >= x - y && z >= y - x && z <= x + y), "triangle");
  vp_assert(r == su2_triangle_inequality(b, a, c) && r == su2_triangle_inequality(c, b, a), "symmetric");
  vp_assert(su2_triangle_inequality(a, a, 1), "singlet");
}
VP_CONTRACT(abelian_rules) {
  const int a = vp_int_in("a", -1000, 1000), b = vp_int_in("b", -1000, 1000), c = vp_int_in("c", -1000, 1000);
  vp_assert(u1_equality(a, b, c) == (a == b + c), "u1");
  const int p = vp_bool("p") ? 1 : -1, q = vp_bool("q") ? 1 : -1, r = vp_bool("r") ? 1 : -1;
  vp_assert(z2_equality(p, q, r) == (p == q * r), "z2");
  const int k = vp_int_in("k", 0, 2), l = vp_int_in("l", 0, 2), m = vp_int_in("m", 0, 2);
  vp_assert(c3_equality(k, l, m) == ((l + m - k) % 3 == 0), "c3");
}
VP_CONTRACT(invar_parity) {
  const int q = vp_int_in("q", -50, 50), s = vp_int_in("s", 1, 50), p = vp_bool("p") ? 1 : -1;
  Invar::invdim = 3; Invar::qntype = {additive, additive, multiplicative};
  Invar::names = {{"Q", 0}, {"SS", 1}, {"P", 2}};
  const Invar I(q, s, p), J = I.InvertParity();
  vp_assert(J.data[0] == q && J.data[1] == s && J.data[2] == -p, "only-parity-flips");
  vp_assert(J.InvertParity() == I && I != J, "flip-twice");
  const bool named = I.get("Q") == q && I.get("SS") == s && I.get("P") == p && J.get("P") == -p;
  vp_assert(named, "lookup-by-name");
}
