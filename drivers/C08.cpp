// C08: Smith normal form. Oracle: products, Bareiss determinants and divisibility over mpz_class.
#include "common.h"
#include "barvinok/barvinok.h"
#include "genFunction/matrix_ops.h"
using namespace drv; using namespace NTL;
typedef std::vector<mpz_class> R; typedef std::vector<R> M;
static std::string sh(const M &l) { std::string s; for (auto &e : l) { s += "["; for (auto &x : e) s += x.get_str() + " "; s += "] "; } return s; }
static mat_ZZ T(const M &a) { mat_ZZ m; int n = a.size(); m.SetDims(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = N(a[i][j]); return m; }
static M W(const mat_ZZ &m) { M a; for (int i = 0; i < m.NumRows(); i++) { a.push_back(R()); for (int j = 0; j < m.NumCols(); j++) a[i].push_back(Z(m[i][j])); } return a; }
static M mul(const M &a, const M &b) { int n = a.size(); M c(n, R(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) c[i][j] += a[i][k] * b[k][j]; return c; }
static mpz_class detm(M a) { int n = a.size(); mpz_class s = 1, p = 1; for (int k = 0; k < n; k++) { int r = k; while (r < n && a[r][k] == 0) r++; if (r == n) return 0; if (r != k) { std::swap(a[r], a[k]); s = -s; } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / p; p = a[k][k]; } return s * p; }
static void check(const M &a, bool entry) {
  int n = a.size(); cur = "matrix " + sh(a); mat_ZZ A = T(a), l, r, s; 
  if (coin(3)) { l.SetDims(n, n); r.SetDims(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { l[i][j] = 7; r[i][j] = -3; } }   // the results do not depend on what the output arguments held
  if (entry) { BarvinokParameters pa; pa.smithform = BarvinokParameters::IlioSmithForm; s = SmithNormalForm(A, l, r, &pa); } else s = SmithNormalFormIlio(A, l, r);
  M L = W(l), Q = W(r), S = W(s); if (W(A) != a) fail("input", "the input matrix changed");
  if ((int)L.size() != n || (int)Q.size() != n || (int)S.size() != n || l.NumCols() != n || r.NumCols() != n || s.NumCols() != n) { fail("shape", "wrong dimensions"); return; }
  if (mul(mul(L, a), Q) != S) fail("product", "left " + sh(L) + "right " + sh(Q) + "form " + sh(S));
  if (abs(detm(L)) != 1) fail("left", "determinant " + detm(L).get_str()); if (abs(detm(Q)) != 1) fail("right", "determinant " + detm(Q).get_str());
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j ? S[i][i] <= 0 : S[i][j] != 0) { fail("diagonal", "form " + sh(S)); return; }
  for (int i = 0; i + 1 < n; i++) if (S[i + 1][i + 1] % S[i][i] != 0) { fail("chain", "form " + sh(S)); return; }
}
static M gen() {
  for (;;) { int n = rnd(1, 5); M a(n, R(n)); int kind = rnd(0, 5), lim = rnd(1, 12), bits = rnd(2, 140);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = kind == 0 ? mpz_class(rnd(-lim, lim)) : kind == 1 ? (coin(2) ? mpz_class(0) : mpz_class(rnd(-lim, lim))) : kind == 2 ? (i == j ? znz(bits) : mpz_class(0)) : kind == 3 ? zint(bits) : kind == 4 ? (j > i ? mpz_class(rnd(-lim, lim)) : i == j ? mpz_class(rnd(1, 60)) * (coin() ? 1 : -1) : mpz_class(0)) : mpz_class(6 * rnd(-lim, lim));
    if (coin(3)) for (int t = rnd(0, 6); t > 0 && n > 1; t--) { int i = rnd(0, n - 1), j = rnd(0, n - 1); if (i == j) continue; mpz_class q = znz(4); if (coin()) for (int k = 0; k < n; k++) a[i][k] += q * a[j][k]; else for (int k = 0; k < n; k++) a[k][i] += q * a[k][j]; }
    if (n > 1 && coin()) std::swap(a[0], a[n - 1]);
    if (detm(a) != 0) return a; }
}
int main(int c, char **v) {
  init(c, v); Quiet qt; begin("small");
  for (int t = 0; t < 2401; t++) { int q = t; M a(2, R(2)); for (int i = 0; i < 4; i++) { a[i / 2][i % 2] = q % 7 - 3; q /= 7; } if (detm(a) != 0) check(a, false); }
  for (int t = 0; t < 19683 && more(); t++) { int q = t; M a(3, R(3)); for (int i = 0; i < 9; i++) { a[i / 3][i % 3] = q % 3 - 1; q /= 3; } if (detm(a) != 0 && coin(4)) check(a, false); }
  while (more()) { begin("random"); check(gen(), coin()); }
  return done();
}
