// Exact rational feasibility of { x >= 0, A x + b >= 0 } (dictionary simplex, Bland's rule).
// Used by the numeric abstract domain to decide entailment between linear inequalities.
#include <gmpxx.h>
#include <cstdint>
#include <cstdlib>
#include <vector>
#include <string>
extern "C" int lp_feasible(int nrows, int ncols, const char* data, int max_pivots) {
  // data: whitespace separated integers, row major, each row: b a_1 ... a_n
  const char* p = data;
  auto nextInt = [&]() -> mpz_class {
    while (*p == ' ') ++p;
    const char* q = p;
    while (*q && *q != ' ') ++q;
    std::string s(p, q);
    p = q;
    return mpz_class(s);
  };
  int m = nrows, n = ncols;
  // slack form: w_i = b_i + sum a_ij x_j ; add x0: w_i = b_i + x0 + ...
  std::vector<std::vector<mpq_class>> T(m, std::vector<mpq_class>(n + 2));  // [const, x0, x1..xn] columns are nonbasic vars
  bool need = false;
  for (int i = 0; i < m; ++i) {
    mpz_class b = nextInt();
    T[i][0] = b;
    if (b < 0) need = true;
    T[i][1] = 1;
    for (int j = 0; j < n; ++j) T[i][j + 2] = nextInt();
  }
  if (!need) return 1;
  // objective: minimise x0  => maximise -x0
  std::vector<int> nonbasic(n + 1), basic(m);
  for (int j = 0; j <= n; ++j) nonbasic[j] = j;      // 0 = x0
  for (int i = 0; i < m; ++i) basic[i] = n + 1 + i;
  std::vector<mpq_class> z(n + 2);  // objective value x0 as row: x0
  z[1] = -1;  // maximise z = -x0
  auto pivot = [&](int r, int c) {  // basic r leaves, nonbasic c (column index c+1) enters
    int col = c + 1;
    mpq_class a = T[r][col];
    // w_r = ... + a x_c  => x_c = (w_r - ...)/a
    std::vector<mpq_class>& R = T[r];
    for (int j = 0; j <= n + 1; ++j) if (j != col) { if (sgn(R[j]) != 0) R[j] = -R[j] / a; }
    R[col] = mpq_class(1) / a;
    auto upd = [&](std::vector<mpq_class>& row) {
      mpq_class k = row[col];
      if (sgn(k) == 0) return;
      for (int j = 0; j <= n + 1; ++j) if (j != col && sgn(R[j]) != 0) row[j] += k * R[j];
      row[col] = k * R[col];
    };
    for (int i = 0; i < m; ++i) if (i != r) upd(T[i]);
    upd(z);
    std::swap(basic[r], nonbasic[c]);
  };
  // initial pivot: most negative b
  int r = 0;
  for (int i = 1; i < m; ++i) if (T[i][0] < T[r][0]) r = i;
  pivot(r, 0);
  for (int it = 0; it < max_pivots; ++it) {
    if (sgn(z[0]) == 0) return 1;
    int c = -1;
    if (it < max_pivots / 2) {  // largest coefficient first, Bland later (termination)
      for (int j = 0; j <= n; ++j) if (sgn(z[j + 1]) > 0 && (c < 0 || z[j + 1] > z[c + 1])) c = j;
    } else {
      for (int j = 0; j <= n; ++j) if (sgn(z[j + 1]) > 0 && (c < 0 || nonbasic[j] < nonbasic[c])) c = j;
    }
    if (c < 0) return sgn(z[0]) < 0 ? 0 : 1;
    int lr = -1; mpq_class best;
    for (int i = 0; i < m; ++i)
      if (sgn(T[i][c + 1]) < 0) {
        mpq_class ratio = -T[i][0] / T[i][c + 1];
        if (lr < 0 || ratio < best || (ratio == best && (basic[i] == 0 || (basic[lr] != 0 && basic[i] < basic[lr])))) { lr = i; best = ratio; }
      }
    if (lr < 0) return 1;  // unbounded: cannot happen for max -x0
    pivot(lr, c);
    if (sgn(z[0]) == 0) return 1;
  }
  return -1;  // gave up
}
