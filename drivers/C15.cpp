// C15: polynomial interpolation. Oracle: values of the returned polynomial at the given points, Lagrange interpolation over mpq_class, exit status of a child.
#include "common.h"
#include <iomanip>
#include "interpolation/PolynomialInterpolation.h"
using namespace drv;
typedef std::vector<mpq_class> Ser;
static std::string sh(const Ser &l) { std::string s = "["; for (auto &e : l) s += e.get_str() + " "; return s + "]"; }
static mpq_class rat(int bits) { mpq_class q(coin(4) ? mpz_class(0) : zint(bits), coin() ? mpz_class(1) : znz(bits)); q.canonicalize(); return q; }
static mpq_class raw(const mpq_class &q) { if (coin(3)) return q; mpz_class k = znz(6); return mpq_class(q.get_num() * k, q.get_den() * k); }   // not canonical
static bool canon(const Ser &s) { for (auto &e : s) { mpq_class q(e); q.canonicalize(); if (mpz_cmp(q.get_num_mpz_t(), e.get_num_mpz_t()) || mpz_cmp(q.get_den_mpz_t(), e.get_den_mpz_t())) return false; } return true; }
static mpq_class val(const Ser &p, const mpq_class &x) { mpq_class r(0), w(1); for (auto &c : p) { r += c * w; w *= x; } return r; }
static void check(const char *k, const Ser &r, const Ser &x, const Ser &f) {
  if (r.size() != x.size()) { fail(k, "wrong number of coefficients"); return; }
  if (!canon(r)) fail(k, "not canonical " + sh(r));
  for (size_t i = 0; i < x.size(); i++) if (val(r, x[i]) != f[i]) { fail(k, sh(r) + " has value " + val(r, x[i]).get_str() + " at " + x[i].get_str()); return; }
}
static void show(const Ser &x, const Ser &f) { cur = "points"; for (size_t i = 0; i < x.size(); i++) cur += " (" + x[i].get_str() + "," + f[i].get_str() + ")"; }
static void fit(const Ser &x, const Ser &f, bool ops) {
  show(x, f); int n = x.size();
  PolynomialInterpolation p(n - 1);
  for (int i = 0; i < n; i++) p.addPoint(ops ? raw(x[i]) : x[i], ops ? raw(f[i]) : f[i]);
  if (ops) for (int t = 0; t < 4; t++) {
    int a = rnd(0, n - 1), b = rnd(0, n - 1);
    switch (rnd(0, 2)) {
    case 0: p.swap(a, b); cur += " swap " + std::to_string(a) + " " + std::to_string(b); break;
    case 1: { mpq_class c = rat(20); if (c == 0) c = -3; p.timesRow(a, raw(c)); cur += " times " + std::to_string(a) + " " + c.get_str(); break; }
    default: if (a != b) { mpq_class c = rat(20), c0 = raw(c); p.addMultRows(c0, a, b); if (c0 != c) fail("multiplier", "changed"); cur += " add " + std::to_string(a) + " " + std::to_string(b) + " " + c.get_str(); }
    }
  }
  PolynomialInterpolation q(ops ? rnd(0, 5) : 0); q = p; bool id0 = p.isSingular(), id1 = q.isSingular(); if (id0 != id1) fail("copy", "differs from the original");
  check("interpolation", p.solve(), x, f); check("copy", q.solve(), x, f);
  if (p.isSingular()) fail("solved", "the matrix is not the unit matrix after solving");
  check("again", p.solve(), x, f);
}
// the child ends with status 1 and without a result
static void refuses(const char *k, const std::function<void()> &go) {
  fflush(stdout); pid_t c = fork();
  if (c == 0) { for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, SIG_DFL); alarm(20); on_exit([](int st, void *) { _exit(100 + st); }, nullptr); if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} go(); _exit(0); }
  int st = 0; waitpid(c, &st, 0);
  if (!WIFEXITED(st)) fail(k, "died with signal " + std::to_string(WTERMSIG(st))); else if (WEXITSTATUS(st) != 101) fail(k, WEXITSTATUS(st) == 0 ? "not refused" : WEXITSTATUS(st) < 100 ? "memory error" : "status " + std::to_string(WEXITSTATUS(st) - 100));
}
static void evalp() { Ser y(rnd(1, 9)); int b = rnd(1, 80); for (auto &e : y) e = rat(b); mpq_class x = rat(b); cur = "value of " + sh(y) + " at " + x.get_str(); PolynomialInterpolation p(0); Ser k(y); mpq_class r = p.evaluatePoly(x, y); if (r != val(y, x) || !canon({r})) fail("value", r.get_str()); if (k != y) fail("value", "the polynomial changed"); }
static bool fin = false;
static void left(int, void *) { if (!fin) { printf("FAIL exit the code ended the program ; case: %s\n", clean(cur).c_str()); fflush(stdout); _exit(1); } }
static Ser pts(int n, int bits) { Ser x; while ((int)x.size() < n) { mpq_class q = coin() ? mpq_class(rnd(-n, n)) : rat(bits); if (std::find(x.begin(), x.end(), q) == x.end()) x.push_back(q); } return x; }
int main(int c, char **v) {
  init(c, v); on_exit(left, nullptr); Quiet qt; drv::begin("integers");
  for (int d = 0; d <= 9; d++) for (int k = 0; k <= d; k++) { Ser x, f; for (int i = 0; i <= d; i++) { x.push_back(i); mpq_class w(1); for (int j = 0; j < k; j++) w *= i; f.push_back(w); } fit(x, f, false); std::reverse(x.begin(), x.end()); std::reverse(f.begin(), f.end()); fit(x, f, false); }
  for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) for (int e = -1; e <= 1; e++) { fit({mpq_class(0), mpq_class(1), mpq_class(-1)}, {mpq_class(a), mpq_class(b), mpq_class(e)}, false); fit({mpq_class(2), mpq_class(0), mpq_class(-2)}, {mpq_class(a), mpq_class(b), mpq_class(e)}, false); }
  drv::begin("refused");
  for (int n = 2; n <= 5; n++) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) for (int same = 0; same < 2; same++) { Ser x = pts(n, 5), f; for (int k = 0; k < n; k++) f.push_back(rnd(-3, 3)); x[i] = x[j]; f[i] = same ? f[j] : f[j] + 1; show(x, f);
    refuses("repeated", [&] { PolynomialInterpolation p(n - 1); for (int k = 0; k < n; k++) p.addPoint(x[k], f[k]); p.solve(); }); }
  for (int n = 1; n <= 4; n++) { Ser x = pts(n, 5); cur = "one point too few or too many for degree " + std::to_string(n - 1);
    refuses("missing", [&] { PolynomialInterpolation p(n - 1); for (int k = 0; k + 1 < n; k++) p.addPoint(x[k], 1); p.solve(); });
    refuses("surplus", [&] { PolynomialInterpolation p(n - 1); for (int k = 0; k < n; k++) p.addPoint(x[k], 1); p.addPoint(77, 1); }); }
  { drv::begin("values"); for (int i = 0; i < 50; i++) evalp(); }
  while (more()) { drv::begin("random");
    int n = rnd(1, 7), b = rnd(1, 40); Ser x = pts(n, b), f; for (int i = 0; i < n; i++) f.push_back(coin(3) ? mpq_class(0) : rat(b)); fit(x, f, coin()); evalp();
  }
  fin = true; return done();
}
