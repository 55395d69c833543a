// C18: poles of a knapsack's generating function and their weights. Oracle: the gcds of all sublists by enumeration, Moebius inversion checked by its defining sums,
// Pascal's triangle, and (end to end) the number of solutions of a*x = t counted by dynamic programming against the quasi-polynomial.
#include "common.h"
#include <sstream>
#include <iomanip>
#include <memory>
#include <map>
#include <set>
#include "latte_ntl.h"
#include "LattException.h"
#include "cone.h"
#include "integration/burstTrie.h"
#include "integration/PolyTrie.h"
#include "integration/GeneralMonomialSum.h"
#include "top-knapsack/PeriodicFunction.h"
#include "top-knapsack/TopKnapsack.h"
using namespace drv;
typedef std::vector<mpz_class> Ser;
static std::string sh(const Ser &l) { std::string s = "["; for (auto &e : l) s += e.get_str() + " "; return s + "]"; }
static mpz_class mz(const ZZ &z) { std::ostringstream o; o << z; return mpz_class(o.str()); }
static vec_ZZ vec(const Ser &a) { vec_ZZ v; v.SetLength(a.size()); for (size_t i = 0; i < a.size(); i++) v[i] = to_ZZ(a[i].get_str().c_str()); return v; }
static bool fin = false;
static void left(int, void *) { if (!fin) { printf("FAIL exit the code ended the program ; case: %s\n", clean(cur).c_str()); fflush(stdout); _exit(1); } }
static std::set<mpz_class> contents(const char *k, const MobiusList &m) { std::set<mpz_class> r; for (auto &p : m.list) if (!r.insert(mz(p.gcd)).second) fail(k, "a divisor appears twice"); return r; }
static void weights(MobiusList &m) {
  std::vector<mpz_class> before; bool one = false; for (auto &p : m.list) { before.push_back(mz(p.gcd)); if (p.gcd == 1) one = true; }
  bool thrown = false; try { m.computeMobius(); } catch (...) { thrown = true; }
  if (thrown != !one) { fail("weights", thrown ? "refused" : "not refused without the divisor 1"); return; }
  if (m.list.size() != before.size()) { fail("weights", "the list changed"); return; }
  for (size_t i = 0; i < before.size(); i++) if (mz(m.list[i].gcd) != before[i]) fail("weights", "the list changed");
  if (one) for (size_t i = 0; i < before.size(); i++) { mpz_class s = 0; for (size_t j = 0; j < before.size(); j++) if (before[j] % before[i] == 0) s += mz(m.list[j].mu); if (s != 1) fail("weights", "the weights of the multiples of " + before[i].get_str() + " add up to " + s.get_str()); }
}
static mpz_class ent() { switch (rnd(0, 3)) { case 0: return rnd(1, 30); case 1: { mpz_class r = 1; int ps[] = {2, 2, 3, 3, 5, 7}; for (int p : ps) if (coin()) r *= p; return r; } case 2: { mpz_class r = 1, p = znz(rnd(2, 40)); r = abs(p); return r * rnd(1, 12); } default: return mpz_class(rnd(1, 6)) * 12; } }
static void list() {
  MobiusList m; Ser ins; std::set<mpz_class> want; int n = rnd(0, 14);
  if (coin(4)) { int b = rnd(6, 60); for (int i = 1; i <= b; i++) if (b % i == 0) ins.push_back(i); }
  for (int i = 0; i < n; i++) ins.push_back(ins.size() && coin(4) ? ins[rnd(0, ins.size() - 1)] : ent());
  if (!coin(8)) ins.push_back(1);
  for (size_t i = ins.size(); i > 1; i--) std::swap(ins[i - 1], ins[rnd(0, i - 1)]);
  cur = "divisors " + sh(ins);
  for (auto &e : ins) { m.insertGCD(to_ZZ(e.get_str().c_str())); want.insert(e); }
  if (contents("list", m) != want) fail("list", "not the inserted divisors");
  weights(m); if (coin()) weights(m);
  for (int i = rnd(0, 4); i > 0; i--) { mpz_class e = ent() * rnd(1, 4); cur += " then " + e.get_str(); m.insertGCD(to_ZZ(e.get_str().c_str())); want.insert(e); }
  if (contents("list", m) != want) fail("list", "not the inserted divisors");
  weights(m);
}
static void poles(Ser a) {
  mpz_class g = 0; for (auto &e : a) g = gcd(g, e); for (auto &e : a) e /= g;
  int n = a.size();
  std::vector<std::set<mpz_class>> by(n + 1);
  for (int s = 1; s < (1 << n); s++) { mpz_class h = 0; int c = 0; for (int i = 0; i < n; i++) if (s >> i & 1) { h = gcd(h, a[i]); c++; } by[c].insert(h); }
  for (int k = 0; k < n; k++) for (int sub = 0; sub < 2; sub++) {
    if (sub && n > 7) continue;
    cur = "list " + sh(a) + " order " + std::to_string(k) + (sub ? " by sublists" : " from the entire list");
    std::set<mpz_class> want; for (int c = n - k; c <= n; c++) want.insert(by[c].begin(), by[c].end());
    TopKnapsack t; t.useSubsetsForGCD(sub); t.set(vec(a)); t.findGCDs(k);
    if (contents("poles", t.gcds) != want) fail("poles", "not the divisors of the large enough sublists");
    t.gcds.MobiusList::computeMobius();
    std::map<mpz_class, mpz_class> mu; for (auto &p : t.gcds.list) mu[mz(p.gcd)] = mz(p.mu);
    for (auto &x : want) { mpz_class s = 0; for (auto &y : mu) if (y.first % x == 0) s += y.second; if (s != 1) fail("poles", "weights of the multiples of " + x.get_str()); }
  }
}
static mpq_class rq(const RationalNTL &r) { mpq_class q(mz(r.getNumerator()), mz(r.getDenominator())); q.canonicalize(); return q; }
static mpq_class eval(PeriodicFunctionNode *p, long t) {
  if (!p) return 0;
  if (p->isLeaf()) { mpq_class q = rq(p->data); if (p->isNumber) return q; q *= t; mpz_class f; mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return q - f; }
  mpq_class l = eval(&*p->left, t), r = eval(&*p->right, t);
  switch (p->opt) { case PeriodicFunctionNode::plus: return l + r; case PeriodicFunctionNode::minus: return l - r; case PeriodicFunctionNode::times: return l * r; case PeriodicFunctionNode::divide: return l / r;
  default: { mpq_class w = 1; for (long i = 0; i < r.get_num().get_si(); i++) w *= l; return w; } }
}
static void count(Ser a) {
  mpz_class g = 0; for (auto &e : a) g = gcd(g, e); for (auto &e : a) e /= g;
  int n = a.size(), N = n - 1; const int T = 25; std::vector<mpz_class> c(T + 1); c[0] = 1; for (auto &e : a) for (long t = e.get_si(); t <= T; t++) c[t] += c[t - e.get_si()];
  cur = "number of solutions for " + sh(a);
  TopKnapsack w; w.useSubsetsForGCD(coin()); w.set(vec(a)); w.coeff_topK(N); std::vector<PeriodicFunction> cf; for (int i = 0; i <= N; i++) cf.push_back(w.getCoeffNminusK(i));
  for (long t = 0; t <= T; t++) { mpq_class s = 0; for (int i = 0; i <= N; i++) { mpq_class p = 1; for (int j = 0; j < N - i; j++) p *= t; s += p * eval(&*cf[i].head, t); } if (s != c[t]) { fail("count", "the polynomial has value " + s.get_str() + " at " + std::to_string(t) + ", there are " + c[t].get_str() + " solutions"); break; } }
  int k = rnd(0, N); cur += " order " + std::to_string(k); TopKnapsack o; o.useSubsetsForGCD(coin()); o.set(vec(a)); if (coin()) o.coeff_topK(k); else o.coeff_NminusK(k); PeriodicFunction f = o.getCoeffNminusK(k);
  for (long t = 0; t <= T; t++) if (eval(&*f.head, t) != eval(&*cf[k].head, t)) { fail("count", "a single coefficient differs"); break; }
}
int main(int c, char **v) {
  init(c, v); on_exit(left, nullptr); Quiet qt;
  drv::begin("binomials");
  for (int n = 0; n <= 90; n++) { mpz_class e = 1; for (int k = 0; k <= n; k++) { cur = "binomial " + std::to_string(n) + " " + std::to_string(k); if (mz(TopKnapsack::binomial(n, k)) != e) fail("binomial", mz(TopKnapsack::binomial(n, k)).get_str()); e = e * (n - k) / (k + 1); } }
  drv::begin("lists"); for (int i = 0; i < 200; i++) list();
  drv::begin("poles"); for (int i = 0; i < 25; i++) { Ser a; int n = rnd(1, 6); for (int j = 0; j < n; j++) a.push_back(ent()); poles(a); }
  drv::begin("counts"); count({1}); count({1, 1}); count({2, 3}); count({1, 2, 4}); count({6, 10, 15}); count({2, 3, 3, 6});
  while (more()) {
    drv::begin("random"); list();
    Ser a; int n = rnd(1, 9); for (int j = 0; j < n; j++) a.push_back(ent()); poles(a);
    a.clear(); n = rnd(1, 4); for (int j = 0; j < n; j++) a.push_back(rnd(1, 10)); count(a);
  }
  fin = true; return done();
}
