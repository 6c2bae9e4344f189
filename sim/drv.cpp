// High-level drivers: calls and their references from exact derivatives of the recorded program.
#include "world.h"
#include <adolc/adolc.h>
#include <adolc/drivers/odedrivers.h>
#include <adolc/drivers/taylor.h>
#include <adolc/lie/drivers.h>
#include <algorithm>
#include <cmath>

namespace {
typedef std::vector<LD> VL;
VD dirs(uint64_t seed, int n) { VD v; for (int i = 0; i < n; ++i) v.push_back(ptval(seed + 9100, i)); return v; }
// solves A x = b (dense, partial pivoting); returns the smallest pivot relative to the largest entry
LD solve(std::vector<VL> A, std::vector<VL> B, std::vector<VL> &X) {
  const size_t n = A.size();
  LD mx = 0, mn = INFINITY;
  for (auto &r : A) for (LD q : r) mx = std::max(mx, fabsl(q));
  for (size_t c = 0; c < n; ++c) {
    size_t p = c;
    for (size_t r = c + 1; r < n; ++r) if (fabsl(A[r][c]) > fabsl(A[p][c])) p = r;
    std::swap(A[p], A[c]); std::swap(B[p], B[c]);
    mn = std::min(mn, fabsl(A[c][c]));
    if (!(fabsl(A[c][c]) > 0)) return 0;
    for (size_t r = c + 1; r < n; ++r) {
      const LD f = A[r][c] / A[c][c];
      for (size_t k = c; k < n; ++k) A[r][k] -= f * A[c][k];
      for (size_t k = 0; k < B[r].size(); ++k) B[r][k] -= f * B[c][k];
    }
  }
  X.assign(n, VL(B[0].size(), 0));
  for (size_t c = n; c-- > 0;) for (size_t k = 0; k < B[0].size(); ++k) {
    LD s = B[c][k];
    for (size_t j = c + 1; j < n; ++j) s -= A[c][j] * X[j][k];
    X[c][k] = s / A[c][c];
  }
  return mx > 0 ? std::min(mn, mn / mx) : 0; // LUFactorization uses an absolute threshold
}
std::vector<VL> jac_of(const RefOut &r, int m, int n) {
  std::vector<VL> J(static_cast<size_t>(m), VL(static_cast<size_t>(n), 0));
  for (int j = 0; j < m; ++j) if (!r.y[static_cast<size_t>(j)].g.empty()) for (int i = 0; i < n; ++i) J[static_cast<size_t>(j)][static_cast<size_t>(i)] = r.y[static_cast<size_t>(j)].g[static_cast<size_t>(i)].c[0];
  return J;
}
// all multi-indices p >= i1 >= i2 >= ... >= id >= 0 (0: order dropped)
void multis(int p, int d, std::vector<std::vector<int>> &out) {
  std::vector<int> im(static_cast<size_t>(d), 0);
  for (;;) {
    out.push_back(im);
    int k = 0; // next nonincreasing tuple
    for (k = d - 1; k >= 0; --k) if (im[static_cast<size_t>(k)] < (k ? im[static_cast<size_t>(k - 1)] : p)) break;
    if (k < 0) return;
    ++im[static_cast<size_t>(k)];
    for (int q = k + 1; q < d; ++q) im[static_cast<size_t>(q)] = 0;
  }
}
} // namespace

// value and Taylor coefficients of the inverse function along Y(t) = F(x) + y1 t + y2 t^2 + ...
static bool inverse_series(World &w, Slot &s, const VD &x, const std::vector<VL> &Y, int d, std::vector<VL> &X, RefOut &base, Expect &e) {
  const int n = s.prog.n;
  base = w.ref(s, x, nullptr, 0, true);
  e.add(base, true);
  std::vector<VL> J = jac_of(base, n, n);
  X.assign(static_cast<size_t>(n), VL(static_cast<size_t>(d), 0));
  for (int k = 1; k <= d; ++k) {
    std::vector<Dual> xd;
    for (int i = 0; i < n; ++i) { Dual q; q.v.c[0] = x[static_cast<size_t>(i)]; for (int l = 1; l < k; ++l) q.v.c[l] = X[static_cast<size_t>(i)][static_cast<size_t>(l - 1)]; xd.push_back(q); }
    RefOut r = w.refd(s, xd, 0, k);
    e.add(r, true);
    std::vector<VL> B(static_cast<size_t>(n), VL(1)), Z;
    for (int i = 0; i < n; ++i) B[static_cast<size_t>(i)][0] = Y[static_cast<size_t>(i)][static_cast<size_t>(k - 1)] - r.y[static_cast<size_t>(i)].v.c[k];
    if (solve(J, B, Z) < 1e-2L) return false;
    for (int i = 0; i < n; ++i) { X[static_cast<size_t>(i)][static_cast<size_t>(k - 1)] = Z[static_cast<size_t>(i)][0]; if (!(fabsl(Z[static_cast<size_t>(i)][0]) <= e.scale)) e.scale = fabsl(Z[static_cast<size_t>(i)][0]); }
  }
  return true;
}
// solution series of x' = tau f(x) with derivatives with respect to x(0); the right hand side's trace is s
static std::vector<Dual> ode_series(World &w, Slot &s, const VD &x, int d, LD tau, std::vector<Dual> *zs, Expect &e, bool grad, const std::vector<VL> *head = nullptr, int dold = 0) {
  const int n = s.prog.n;
  std::vector<Dual> xd;
  for (int i = 0; i < n; ++i) {
    Dual q;
    q.v.c[0] = x[static_cast<size_t>(i)];
    if (head) for (int k = 1; k <= dold; ++k) q.v.c[k] = (*head)[static_cast<size_t>(i)][static_cast<size_t>(k - 1)];
    if (grad) { q.g.resize(static_cast<size_t>(n)); q.g[static_cast<size_t>(i)].c[0] = 1; }
    xd.push_back(q);
  }
  for (int k = dold; k < d; ++k) {
    RefOut r = w.refd(s, xd, grad ? n : 0, k);
    e.add(r, true);
    for (int i = 0; i < n; ++i) {
      Dual &q = xd[static_cast<size_t>(i)];
      const Dual &y = r.y[static_cast<size_t>(i)];
      q.v.c[k + 1] = y.v.c[k] * tau / (k + 1);
      if (grad) for (int j = 0; j < n; ++j) q.g[static_cast<size_t>(j)].c[k + 1] = y.g.empty() ? 0 : y.g[static_cast<size_t>(j)].c[k] * tau / (k + 1);
      if (!(fabsl(q.v.c[k + 1]) <= e.scale)) e.scale = fabsl(q.v.c[k + 1]);
      if (grad) for (auto &g : q.g) if (!(fabsl(g.c[k + 1]) <= e.scale)) e.scale = fabsl(g.c[k + 1]);
    }
    if (zs && k + 1 == d) *zs = r.y;
  }
  return xd;
}

void World::do_drv(const Line &L) {
  Slot *s = slot(L.i("t"));
  const std::string k = L.s("k");
  if (!s) { last_st = '-'; return; }
  cur = s;
  const int m = s->prog.m, n = s->prog.n, api = L.i("api");
  const VD x = pointv(L.u("pt", 1), n);
  const uint64_t vs = L.u("vs", 1);
  const bool special = s->prog.has(O_EXT) || s->prog.has(O_CPL) || s->prog.has(O_FPI);
  const bool known = s->complete;
  EXTC.calls = 0; EXTC.fired = 0; EXTC.fail_at = -1;
  fint ft = s->id, fm = m, fn = n;
  Got g;
  Expect e;
  base_expect(*s, e);
  e.rc_sign = 1;
  const TayState before = s->ts;
  TayState after;
  after.kind = 3;
  bool ho = false, fpi_no = false;
  RefOut r0;
  if (known) { r0 = ref(*s, x, nullptr, 0, true); e.add(r0, true); e.check = true; }
  std::vector<VL> J;
  if (known) J = jac_of(r0, m, n);
  VL w;
  auto keep1 = [&] { after.kind = 1; after.keep = 1; after.x = x; after.X = {std::vector<VD>(static_cast<size_t>(n))}; };
  if (k == "function") {
    g = guard([&](VD &v) { v.assign(static_cast<size_t>(m), NAN); VD xx = x; return api ? static_cast<int>(function_(&ft, &fm, &fn, xx.data(), v.data())) : function(s->id, m, n, x.data(), v.data()); });
    if (known) for (auto &y : r0.y) w.push_back(y.v.c[0]);
    after = before;
  } else if (k == "gradient") {
    if (m != 1) { last_st = '-'; return; }
    g = guard([&](VD &v) { v.assign(static_cast<size_t>(n), NAN); VD xx = x; return api ? static_cast<int>(gradient_(&ft, &fn, xx.data(), v.data())) : gradient(s->id, n, x.data(), v.data()); });
    if (known) w = J[0];
    keep1();
  } else if (k == "jacobian" || k == "large") {
    M2 Jm(m, n);
    VD y;
    const int runs = std::max(1, std::min(L.i("runs", 2), n));
    g = guard([&](VD &v) {
      int rc;
      VD xx = x;
      if (k == "large") {
        y.assign(static_cast<size_t>(m), NAN);
        rc = large_jacobian(s->id, m, n, runs, xx.data(), y.data(), Jm);
      } else if (api) {
        VD f(static_cast<size_t>(m * n), NAN);
        rc = static_cast<int>(jacobian_(&ft, &fm, &fn, xx.data(), f.data()));
        for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) Jm[i][j] = f[static_cast<size_t>(j * m + i)];
      } else rc = jacobian(s->id, m, n, x.data(), Jm);
      v = Jm.d;
      v.insert(v.end(), y.begin(), y.end());
      return rc;
    });
    if (known) { for (auto &r : J) w.insert(w.end(), r.begin(), r.end()); if (k == "large") for (auto &y2 : r0.y) w.push_back(y2.v.c[0]); }
    fpi_no = true;
  } else if (k == "vec_jac") {
    VD u = dirs(vs, m);
    int repeat = L.i("rep");
    if (repeat && !(s->ts.kind == 1 && s->ts.keep == 1 && s->alt.empty() && s->ts.x == x)) repeat = 0;
    g = guard([&](VD &v) { v.assign(static_cast<size_t>(n), NAN); VD xx = x; fint fr = repeat; return api ? static_cast<int>(vec_jac_(&ft, &fm, &fn, &fr, xx.data(), u.data(), v.data())) : vec_jac(s->id, m, n, repeat, x.data(), u.data(), v.data()); });
    if (repeat) ++cov["drv:repeat"];
    if (known) for (int i = 0; i < n; ++i) { LD q = 0; for (int j = 0; j < m; ++j) q += u[static_cast<size_t>(j)] * J[static_cast<size_t>(j)][static_cast<size_t>(i)]; w.push_back(q); }
    keep1();
  } else if (k == "jac_vec") {
    VD u = dirs(vs, n);
    g = guard([&](VD &v) { v.assign(static_cast<size_t>(m), NAN); VD xx = x; return api ? static_cast<int>(jac_vec_(&ft, &fm, &fn, xx.data(), u.data(), v.data())) : jac_vec(s->id, m, n, x.data(), u.data(), v.data()); });
    if (known) for (int j = 0; j < m; ++j) { LD q = 0; for (int i = 0; i < n; ++i) q += u[static_cast<size_t>(i)] * J[static_cast<size_t>(j)][static_cast<size_t>(i)]; w.push_back(q); }
    after = before;
  } else if (k == "hess_vec" || k == "lagra" || k == "hessian" || k == "hessian2" || k == "hess_mat") {
    if (k != "lagra" && m != 1) { last_st = '-'; return; }
    ho = true;
    VD lam = k == "lagra" ? dirs(vs + 50, m) : VD(1, 1.0);
    const bool full = k == "hessian" || k == "hessian2";
    const int q = full ? n : k == "hess_mat" ? std::max(1, L.i("q", 2)) : 1;
    std::vector<VD> V;
    for (int c = 0; c < q; ++c) { VD v = full ? VD(static_cast<size_t>(n), 0.0) : dirs(vs + static_cast<uint64_t>(c), n); if (full) v[static_cast<size_t>(c)] = 1; V.push_back(v); }
    g = guard([&](VD &v) {
      int rc;
      VD xx = x;
      if (full) {
        // only the lower triangle belongs to the result: rows of exactly that length
        std::vector<VD> rows;
        std::vector<double *> rp;
        for (int i = 0; i < n; ++i) rows.push_back(VD(static_cast<size_t>(i + 1), NAN));
        for (auto &r : rows) rp.push_back(r.data());
        if (api && k == "hessian") {
          VD f(static_cast<size_t>(n * n), NAN);
          rc = static_cast<int>(hessian_(&ft, &fn, xx.data(), f.data()));
          for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) rows[static_cast<size_t>(i)][static_cast<size_t>(j)] = f[static_cast<size_t>(j * n + i)];
        } else if (k == "hessian2") { M2 H(n, n); rc = hessian2(s->id, n, xx.data(), H); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) rows[static_cast<size_t>(i)][static_cast<size_t>(j)] = H[i][j]; }
        else rc = hessian(s->id, n, x.data(), rp.data());
        for (auto &r : rows) v.insert(v.end(), r.begin(), r.end());
      } else if (k == "hess_mat") {
        M2 T(n, q), R(n, q);
        for (int i = 0; i < n; ++i) for (int c = 0; c < q; ++c) T[i][c] = V[static_cast<size_t>(c)][static_cast<size_t>(i)];
        rc = hess_mat(s->id, n, q, x.data(), T, R);
        v = R.d;
      } else {
        v.assign(static_cast<size_t>(n), NAN);
        if (k == "lagra") rc = api ? static_cast<int>(lagra_hess_vec_(&ft, &fm, &fn, xx.data(), V[0].data(), lam.data(), v.data())) : lagra_hess_vec(s->id, m, n, x.data(), V[0].data(), lam.data(), v.data());
        else rc = api ? static_cast<int>(hess_vec_(&ft, &fn, xx.data(), V[0].data(), v.data())) : hess_vec(s->id, n, x.data(), V[0].data(), v.data());
      }
      return rc;
    });
    if (known) {
      std::vector<VL> HV;
      for (int c = 0; c < q; ++c) {
        std::vector<VD> X;
        for (int i = 0; i < n; ++i) X.push_back(VD(1, V[static_cast<size_t>(c)][static_cast<size_t>(i)]));
        RefOut r = ref(*s, x, &X, 1, true);
        e.add(r, true);
        VL col(static_cast<size_t>(n), 0);
        for (int j = 0; j < m; ++j) if (!r.y[static_cast<size_t>(j)].g.empty()) for (int i = 0; i < n; ++i) col[static_cast<size_t>(i)] += lam[static_cast<size_t>(j)] * r.y[static_cast<size_t>(j)].g[static_cast<size_t>(i)].c[1];
        HV.push_back(col);
      }
      if (full) for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) w.push_back(HV[static_cast<size_t>(j)][static_cast<size_t>(i)]);
      else if (k == "hess_mat") for (int i = 0; i < n; ++i) for (int c = 0; c < q; ++c) w.push_back(HV[static_cast<size_t>(c)][static_cast<size_t>(i)]);
      else w = HV[0];
    }
    if (!full && k != "hess_mat") {
      after.kind = 1; after.keep = 2; after.x = x;
      after.X = {std::vector<VD>()};
      for (int i = 0; i < n; ++i) after.X[0].push_back(VD(1, V[0][static_cast<size_t>(i)]));
    }
  } else if (k == "jac_solv") {
    if (m != n) { last_st = '-'; return; }
    const int mode = L.i("mode", 2);
    VD b = dirs(vs + 7, n), b0 = b;
    g = guard([&](VD &v) { int rc = jac_solv(static_cast<unsigned short>(s->id), n, x.data(), b.data(), static_cast<unsigned short>(mode)); v = b; return rc; });
    if (known) {
      std::vector<VL> B(static_cast<size_t>(n), VL(1)), X;
      for (int i = 0; i < n; ++i) B[static_cast<size_t>(i)][0] = b0[static_cast<size_t>(i)];
      const LD piv = solve(J, B, X);
      if (!(piv > 1e-3L)) { e.check = false; e.rc_sign = 0; }
      else if (mode == 2) { for (auto &q : X) { w.push_back(q[0]); if (!(fabsl(q[0]) <= e.scale)) e.scale = fabsl(q[0]); } }
      else for (double q : b0) w.push_back(q);
    }
    fpi_no = true;
  } else if (k == "tensor" || k == "itensor") {
    const int d = std::max(1, std::min(L.i("d", 2), 3)), p = std::max(1, std::min(L.i("p", 2), 3));
    const bool inv = k == "itensor";
    if (inv && m != n) { last_st = '-'; return; }
    ho = inv || d >= 2;
    const int dim = static_cast<int>(binomi(static_cast<size_t>(p + d), static_cast<size_t>(d)));
    M2 S(n, p), T(m, dim);
    for (int i = 0; i < n; ++i) for (int c = 0; c < p; ++c) S[i][c] = L.i("unit") ? (i == c ? 1.0 : 0.0) : ptval(vs + 31, i * 8 + c);
    VD xx = x;
    std::vector<std::vector<int>> mi;
    multis(p, d, mi);
    std::vector<std::vector<int>> at(static_cast<size_t>(dim));
    int rdim = 0;
    g = guard([&](VD &v) {
      int rc = inv ? inverse_tensor_eval(s->id, n, d, p, xx.data(), T, S) : tensor_eval(s->id, m, n, d, p, xx.data(), T, S);
      for (auto q : mi) { size_t a = tensor_address(d, q.data()); for (int j = 0; j < m; ++j) v.push_back(a < static_cast<size_t>(dim) ? T[j][static_cast<int>(a)] : NAN); ++rdim; }
      return rc;
    });
    if (known) {
      bool fine = true;
      for (auto &q : mi) {
        std::vector<int> nz;
        for (int c : q) if (c) nz.push_back(c);
        const int kk = static_cast<int>(nz.size());
        VL acc(static_cast<size_t>(m), 0);
        if (!kk) for (int j = 0; j < m; ++j) acc[static_cast<size_t>(j)] = inv ? x[static_cast<size_t>(j)] : r0.y[static_cast<size_t>(j)].v.c[0];
        else for (int T2 = 1; T2 < (1 << kk); ++T2) {
          VD dirv(static_cast<size_t>(n), 0.0);
          for (int b = 0; b < kk; ++b) if (T2 >> b & 1) for (int i = 0; i < n; ++i) dirv[static_cast<size_t>(i)] += S[i][nz[static_cast<size_t>(b)] - 1];
          const LD sg = (kk - __builtin_popcount(static_cast<unsigned>(T2))) % 2 ? -1 : 1;
          if (inv) {
            std::vector<VL> Y(static_cast<size_t>(n), VL(static_cast<size_t>(kk), 0)), X;
            for (int i = 0; i < n; ++i) Y[static_cast<size_t>(i)][0] = dirv[static_cast<size_t>(i)];
            RefOut b;
            if (!inverse_series(*this, *s, x, Y, kk, X, b, e)) { fine = false; break; }
            for (int j = 0; j < m; ++j) acc[static_cast<size_t>(j)] += sg * X[static_cast<size_t>(j)][static_cast<size_t>(kk - 1)];
          } else {
            std::vector<VD> X;
            for (int i = 0; i < n; ++i) { VD c(static_cast<size_t>(kk), 0.0); c[0] = dirv[static_cast<size_t>(i)]; X.push_back(c); }
            RefOut r = ref(*s, x, &X, kk, false);
            e.add(r, true);
            for (int j = 0; j < m; ++j) acc[static_cast<size_t>(j)] += sg * r.y[static_cast<size_t>(j)].v.c[kk];
          }
        }
        for (LD a : acc) w.push_back(a);
      }
      if (!fine) { e.check = false; e.rc_sign = 0; }
      e.tol = inv ? 1e-6L : 1e-7L;
      if (d == 3) e.tol *= 10;
    }
  } else if (k == "itaylor") {
    if (m != n) { last_st = '-'; return; }
    ho = true;
    const int d = std::max(1, std::min(L.i("d", 2), 4));
    M2 X(n, d + 1), Y(n, d + 1);
    std::vector<VL> YL(static_cast<size_t>(n), VL(static_cast<size_t>(d)));
    for (int i = 0; i < n; ++i) { X[i][0] = x[static_cast<size_t>(i)]; Y[i][0] = known && i < static_cast<int>(r0.y.size()) ? static_cast<double>(r0.y[static_cast<size_t>(i)].v.c[0]) : 0; for (int q = 1; q <= d; ++q) YL[static_cast<size_t>(i)][static_cast<size_t>(q - 1)] = Y[i][q] = ptval(vs + 60, i * 8 + q); }
    g = guard([&](VD &v) { int rc = inverse_Taylor_prop(s->id, n, d, Y, X); v = X.d; return rc; });
    if (known) {
      std::vector<VL> R;
      RefOut b;
      if (!inverse_series(*this, *s, x, YL, d, R, b, e)) { e.check = false; e.rc_sign = 0; }
      else for (int i = 0; i < n; ++i) { w.push_back(x[static_cast<size_t>(i)]); for (LD q : R[static_cast<size_t>(i)]) w.push_back(q); }
      e.tol = 1e-7L;
    }
  } else if (k == "forode" || k == "accode") {
    if (m != n) { last_st = '-'; return; }
    const int d = std::max(1, std::min(L.i("d", 2), 4)), dold = k == "accode" ? 0 : std::max(0, std::min(L.i("dold"), d - 1));
    ho = d >= 2 || k == "accode";
    const double tau = L.i("tau") ? 0.5 : 1.0;
    std::vector<VL> head(static_cast<size_t>(n), VL(static_cast<size_t>(dold)));
    M2 X(n, d + 1);
    for (int i = 0; i < n; ++i) { X[i][0] = x[static_cast<size_t>(i)]; for (int q = 0; q < dold; ++q) { head[static_cast<size_t>(i)][static_cast<size_t>(q)] = X[i][q + 1] = ptval(vs + 61, i * 8 + q); } }
    M3 Z(n, n, d), B(n, n, d);
    std::vector<std::vector<short>> nz(static_cast<size_t>(n), std::vector<short>(static_cast<size_t>(n), 0));
    std::vector<short *> nzp;
    for (auto &q : nz) nzp.push_back(q.data());
    const bool usenz = L.i("nz"), same = L.i("same") && k == "accode";
    g = guard([&](VD &v) {
      int rc;
      if (api && k == "forode") {
        VD f(static_cast<size_t>(n * (d + 1)));
        for (int q = 0; q <= d; ++q) for (int i = 0; i < n; ++i) f[static_cast<size_t>(q * n + i)] = X[i][q];
        fint fo = dold, fd = d;
        fdouble ftau = tau;
        rc = static_cast<int>(forodec_(&ft, &fn, &ftau, &fo, &fd, f.data()));
        for (int q = 0; q <= d; ++q) for (int i = 0; i < n; ++i) X[i][q] = f[static_cast<size_t>(q * n + i)];
      } else rc = forode(s->id, n, tau, dold, d, X);
      v = X.d;
      if (k == "accode" && rc >= 0) {
        rc = std::min(rc, reverse(s->id, n, n, d - 1, static_cast<double ***>(Z), usenz ? nzp.data() : nullptr));
        if (rc < 0) return rc;
        if (api) {
          VD fa(static_cast<size_t>(n * n * d)), fb(fa.size(), NAN);
          for (int q = 0; q < d; ++q) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) fa[static_cast<size_t>((q * n + j) * n + i)] = Z[i][j][q];
          fint fd = d - 1;
          fdouble ftau = tau;
          accodec_(&fn, &ftau, &fd, fa.data(), same ? fa.data() : fb.data());
          for (int q = 0; q < d; ++q) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) (same ? Z : B)[i][j][q] = (same ? fa : fb)[static_cast<size_t>((q * n + j) * n + i)];
        } else accode(n, tau, d - 1, Z, same ? static_cast<double ***>(Z) : static_cast<double ***>(B), usenz ? nzp.data() : nullptr);
        v.insert(v.end(), (same ? Z : B).m.d.begin(), (same ? Z : B).m.d.end());
      }
      return rc;
    });
    if (known) {
      std::vector<Dual> X2 = ode_series(*this, *s, x, d, tau, nullptr, e, k == "accode", &head, dold);
      for (int i = 0; i < n; ++i) for (int q = 0; q <= d; ++q) w.push_back(X2[static_cast<size_t>(i)].v.c[q]);
      if (k == "accode") for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 1; q <= d; ++q) w.push_back(X2[static_cast<size_t>(i)].g[static_cast<size_t>(j)].c[q]);
      e.tol = 1e-7L;
    }
  } else if (k == "lie_scalar" || k == "lie_gradient" || k == "lie_covector" || k == "lie_bracket" || k == "lie_scalarv" || k == "lie_gradientv") {
    Slot *h = slot(L.i("t2", -1));
    if (!h || m != n || h->prog.n != n || !h->complete || !known) { last_st = '-'; return; }
    const bool vec = k == "lie_scalarv" || k == "lie_gradientv", sq = k == "lie_covector" || k == "lie_bracket";
    const int mh = h->prog.m;
    if ((sq && mh != n) || (!vec && !sq && mh != 1) || (sq && h == s && k == "lie_covector")) { last_st = '-'; return; }
    ho = true;
    if (h->prog.has(O_EXT) || h->prog.has(O_CPL) || h->prog.has(O_FPI)) { last_st = '-'; return; }
    nested_step = true; // two traces
    if (h->prog.has(O_CBRT)) e.may_fail = true;
    const int d = std::max(1, std::min(L.i("d", 2), 4));
    VD x0 = x;
    const short tf = s->id, th = h->id, sn = static_cast<short>(n), sm = static_cast<short>(mh), sd = static_cast<short>(d);
    g = guard([&](VD &v) {
      if (k == "lie_scalar") { v.assign(static_cast<size_t>(d + 1), NAN); lie_scalar(tf, th, sn, x0.data(), sd, v.data()); }
      else if (k == "lie_scalarv") { M2 R(mh, d + 1); lie_scalar(tf, th, sn, sm, x0.data(), sd, static_cast<double **>(R)); v = R.d; }
      else if (k == "lie_gradientv") { M3 R(mh, n, d + 1); lie_gradient(tf, th, sn, sm, x0.data(), sd, static_cast<double ***>(R)); v = R.m.d; }
      else { M2 R(n, d + 1); if (k == "lie_gradient") lie_gradient(tf, th, sn, x0.data(), sd, static_cast<double **>(R)); else if (k == "lie_covector") lie_covector(tf, th, sn, x0.data(), sd, R); else lie_bracket(tf, th, sn, x0.data(), sd, R); v = R.d; }
      return 0; // the documented return value does not tell anything
    });
    // references
    std::vector<Dual> X = ode_series(*this, *s, x, d, 1, nullptr, e, true);
    RefOut rh = refd(*h, X, n, d);
    e.add(rh, true);
    auto fk = [&](LD c, int q) { return c * fact(q); };
    auto G = [&](const RefOut &r, int j, int i, int q) { const Dual &y = r.y[static_cast<size_t>(j)]; return y.g.empty() ? 0.0L : y.g[static_cast<size_t>(i)].c[q]; };
    if (k == "lie_scalar" || k == "lie_scalarv") { for (int j = 0; j < mh; ++j) for (int q = 0; q <= d; ++q) w.push_back(fk(rh.y[static_cast<size_t>(j)].v.c[q], q)); }
    else if (k == "lie_gradient" || k == "lie_gradientv") { for (int j = 0; j < mh; ++j) for (int i = 0; i < n; ++i) for (int q = 0; q <= d; ++q) w.push_back(fk(G(rh, j, i, q), q)); }
    else if (k == "lie_covector") {
      RC.d = d;
      for (int i = 0; i < n; ++i) {
        Ser acc;
        for (int j = 0; j < n; ++j) acc = sadd(acc, smul(rh.y[static_cast<size_t>(j)].v, X[static_cast<size_t>(j)].g[static_cast<size_t>(i)]));
        for (int q = 0; q <= d; ++q) w.push_back(fk(acc.c[q], q));
      }
    } else { // Psi' = -Psi A with A the Jacobian of f along the solution
      std::vector<Dual> xi;
      for (int i = 0; i < n; ++i) { Dual q; q.v = X[static_cast<size_t>(i)].v; q.g.resize(static_cast<size_t>(n)); q.g[static_cast<size_t>(i)].c[0] = 1; xi.push_back(q); }
      RefOut rf = refd(*s, xi, n, d);
      e.add(rf, true);
      RC.d = d;
      std::vector<std::vector<Ser>> Psi(static_cast<size_t>(n), std::vector<Ser>(static_cast<size_t>(n)));
      for (int i = 0; i < n; ++i) Psi[static_cast<size_t>(i)][static_cast<size_t>(i)].c[0] = 1;
      for (int q = 0; q < d; ++q)
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
          LD a = 0;
          for (int l = 0; l < n; ++l) for (int c = 0; c <= q; ++c) a -= Psi[static_cast<size_t>(i)][static_cast<size_t>(l)].c[c] * G(rf, l, j, q - c);
          Psi[static_cast<size_t>(i)][static_cast<size_t>(j)].c[q + 1] = a / (q + 1);
          if (!(fabsl(a) <= e.scale)) e.scale = fabsl(a);
        }
      for (int i = 0; i < n; ++i) {
        Ser acc;
        for (int j = 0; j < n; ++j) acc = sadd(acc, smul(Psi[static_cast<size_t>(i)][static_cast<size_t>(j)], rh.y[static_cast<size_t>(j)].v));
        for (int q = 0; q <= d; ++q) w.push_back(fk(acc.c[q], q));
      }
    }
    e.tol = 1e-7L;
    if (rh.branch_switch || r0.branch_switch) { e.check = false; e.may_fail = true; }
    h->ts = TayState(); h->ts.kind = 3; h->alt.clear();
  } else { last_st = '-'; return; }
  if (ho && s->prog.has(O_CBRT)) e.may_fail = true;
  if (special && ho) e.must_fail = true;
  if (special && s->prog.has(O_FPI) && fpi_no) e.may_fail = true;
  if (s->prog.has(O_FPI)) e.tol = 1e-6L;
  if (known) {
    if (r0.branch_switch) { e.check = false; e.rc_sign = k.compare(0, 4, "lie_") == 0 ? 0 : -1; }
    if (e.margin < 1e-6L || !(r0.scale < 1e300L)) e.rc_sign = 0;
    if (ho && e.margin < 1e-6L) e.may_fail = true; // ties of min and max
  }
  if (e.must_fail && k.compare(0, 4, "lie_") == 0) { e.must_fail = false; e.may_fail = true; e.check = false; }
  e.v.push_back(w);
  judge(s, "drv-" + k, g, e);
  s->alt.clear();
  if (g.ok) s->ts = after;
  else { s->ts = TayState(); s->ts.kind = 3; }
}
