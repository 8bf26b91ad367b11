// Emptiness test for conjunctions of integer linear inequalities
// (Fourier-Motzkin with gcd tightening).  Numeric back end of the relational
// domain in num.py.  Answers "empty" only when that is certain.
#include <cstdint>
#include <cstring>
#include <vector>
#include <map>
#include <algorithm>
typedef __int128 T;
typedef std::vector<T> Row;  // nv coefficients, then the constant;  sum + c >= 0
static T gcd_(T a, T b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { T t = a % b; a = b; b = t; } return a; }
static T fdiv(T a, T b) { T q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) q--; return q; }
static const T LIM = ((T)1) << 100;
static bool big(T x) { return x > LIM || x < -LIM; }
// normalise; returns -1 contradiction, 0 trivial, 1 keep
static int norm(Row &r, int nv) {
  T g = 0;
  for (int i = 0; i < nv; i++) if (r[i]) g = gcd_(g, r[i]);
  if (g == 0) return r[nv] < 0 ? -1 : 0;
  if (g > 1) { for (int i = 0; i < nv; i++) r[i] /= g; r[nv] = fdiv(r[nv], g); }
  return 1;
}
static bool safe_mul(T a, T b, T *o) { return !__builtin_mul_overflow(a, b, o); }
extern "C" int fm_empty(int nv, int nrows, const unsigned char *data, const unsigned char *iseq) {
  std::vector<Row> ge, eq;
  for (int k = 0; k < nrows; k++) {
    Row r(nv + 1);
    memcpy(&r[0], data + (size_t)k * (nv + 1) * 16, (size_t)(nv + 1) * 16);
    (iseq[k] ? eq : ge).push_back(r);
  }
  // equalities: gcd test, substitute unit coefficients
  while (!eq.empty()) {
    int bi = -1, bv = -1;
    for (size_t i = 0; i < eq.size() ; i++) {
      T g = 0;
      for (int v = 0; v < nv; v++) if (eq[i][v]) g = gcd_(g, eq[i][v]);
      if (g == 0) { if (eq[i][nv] != 0) return 1; eq.erase(eq.begin() + i); i--; continue; }
      if (eq[i][nv] % g != 0) return 1;
      if (g > 1) for (auto &x : eq[i]) x /= g;
      for (int v = 0; v < nv; v++) if ((eq[i][v] == 1 || eq[i][v] == -1) && bi < 0) { bi = (int)i; bv = v; }
    }
    if (eq.empty()) break;
    if (bi < 0) {
      for (auto &e : eq) { ge.push_back(e); Row n(e); for (auto &x : n) x = -x; ge.push_back(n); }
      eq.clear();
      break;
    }
    Row e = eq[bi];
    eq.erase(eq.begin() + bi);
    if (e[bv] < 0) for (auto &x : e) x = -x;  // e[bv] == 1
    auto sub = [&](Row &r) -> bool {
      T c = r[bv];
      if (!c) return true;
      for (int v = 0; v <= nv; v++) { T m; if (!safe_mul(c, e[v], &m)) return false; r[v] -= m; if (big(r[v])) return false; }
      return true;
    };
    for (auto &r : eq) if (!sub(r)) return 0;
    for (auto &r : ge) if (!sub(r)) return 0;
  }
  std::vector<Row> cur;
  auto dedupe = [&](std::vector<Row> &v) -> int {
    std::map<std::vector<T>, T> best;
    for (auto &r : v) {
      int s = norm(r, nv);
      if (s < 0) return -1;
      if (s == 0) continue;
      std::vector<T> k(r.begin(), r.begin() + nv);
      auto it = best.find(k);
      if (it == best.end()) best[k] = r[nv];
      else if (r[nv] < it->second) it->second = r[nv];
    }
    v.clear();
    for (auto &p : best) {
      Row r(p.first);
      r.push_back(p.second);
      // opposite pair contradiction
      std::vector<T> nk(p.first);
      for (auto &x : nk) x = -x;
      auto it = best.find(nk);
      if (it != best.end() && p.second + it->second < 0) return -1;
      v.push_back(r);
    }
    return 0;
  };
  cur = ge;
  if (dedupe(cur) < 0) return 1;
  std::vector<char> done(nv, 0);
  for (;;) {
    int best = -1;
    long bestcost = 0;
    for (int v = 0; v < nv; v++) {
      if (done[v]) continue;
      long p = 0, n = 0;
      for (auto &r : cur) { if (r[v] > 0) p++; else if (r[v] < 0) n++; }
      if (p + n == 0) { done[v] = 1; continue; }
      long cost = p * n - p - n;
      if (best < 0 || cost < bestcost) { best = v; bestcost = cost; }
    }
    if (best < 0) return 0;
    int v = best;
    done[v] = 1;
    std::vector<Row> nx, P, N;
    for (auto &r : cur) { if (r[v] > 0) P.push_back(r); else if (r[v] < 0) N.push_back(r); else nx.push_back(r); }
    if (nx.size() + P.size() * N.size() > 6000) return 0;
    for (auto &p : P) for (auto &n : N) {
      T a = p[v], b = -n[v], g = gcd_(a, b);
      a /= g; b /= g;
      Row r(nv + 1);
      bool ok = true;
      for (int k = 0; k <= nv; k++) {
        T x, y;
        if (!safe_mul(p[k], b, &x) || !safe_mul(n[k], a, &y)) { ok = false; break; }
        r[k] = x + y;
        if (big(r[k])) { ok = false; break; }
      }
      if (ok) nx.push_back(r);  // dropping a row is sound (fewer constraints => less often "empty")
    }
    cur.swap(nx);
    if (dedupe(cur) < 0) return 1;
  }
}
