#include "ext.h"
#include "sim.h"
#include <cmath>
thread_local ExtCtl EXTC;

static int ext_flags(const Ins &I) { return ((I.k < 0 ? 0 : I.k) / 72) % 8; }
ExtDef ext_def(const Ins &I) {
  ExtDef d;
  const int k = I.k < 0 ? 0 : I.k;
  d.ni = 1 + k % 3;
  d.no = 1 + (k / 3) % 2;
  d.nested = (k / 6) % 4 == 0;
  d.cid = (k / 24) % 3;
  d.flavour = (I.v < 0 ? 0 : I.v) % 6;
  return d;
}
// y_j = sin(s_j) + x_0 s_j,  s_j = sum_i c_ji x_i
static void ev(const ExtDef &d, const double *x, double *y) {
  for (int j = 0; j < d.no; ++j) {
    double s = 0;
    for (int i = 0; i < d.ni; ++i) s += d.coef(j, i) * x[i];
    y[j] = std::sin(s) + x[0] * s;
  }
}
static double dv(const ExtDef &d, const double *x, int j, int i) {
  double s = 0;
  for (int q = 0; q < d.ni; ++q) s += d.coef(j, q) * x[q];
  return std::cos(s) * d.coef(j, i) + (i == 0 ? s : 0.0) + x[0] * d.coef(j, i);
}
static std::vector<adouble> ev_ad(const ExtDef &d, const std::vector<adouble> &x) {
  std::vector<adouble> y(static_cast<size_t>(d.no));
  for (int j = 0; j < d.no; ++j) {
    adouble s = 0.0;
    for (int i = 0; i < d.ni; ++i) s += x[static_cast<size_t>(i)] * d.coef(j, i);
    y[static_cast<size_t>(j)] = sin(s) + x[0] * s;
  }
  return y;
}
void ext_ref(const Ins &I, std::vector<Dual> &a) {
  ExtDef d = ext_def(I);
  std::vector<Dual> x, y;
  for (int i = 0; i < d.ni; ++i) x.push_back(a[static_cast<size_t>(I.s + i) % a.size()]);
  for (int j = 0; j < d.no; ++j) {
    Dual s(0.0);
    for (int i = 0; i < d.ni; ++i) s = s + x[static_cast<size_t>(i)] * d.coef(j, i);
    y.push_back(rf::sin(s) + x[0] * s);
  }
  Dual res = d.no > 1 ? y[0] + y[1] * 0.5 : y[0] + 0.0;
  if (ext_flags(I) & 1) {
    Dual p0 = a[static_cast<size_t>(I.s + 1) % a.size()] * 0.5, p1 = a[static_cast<size_t>(I.s + d.no) % a.size()] * 0.5;
    res = res + rf::sin(p0) * x.back() * 0.25 + p0 * p1 * x[0] * 0.125;
  }
  if (ext_flags(I) & 2) res = res + x.back() * x[0] * 0.1;
  a[static_cast<size_t>(I.d)] = res;
}
std::vector<std::pair<int, int>> ext_sequence(const Prog &p) {
  std::vector<std::pair<int, int>> r;
  int o = 0;
  for (auto &i : p.ins) if (i.op == O_EXT) r.push_back({ext_def(i).key(), o++});
  return r;
}

/* ---------------------------------------------------------------- callbacks */
static void record_inner(const ExtDef &d) {
  trace_on(d.inner);
  try {
    std::vector<adouble> x(static_cast<size_t>(d.ni));
    for (auto &q : x) q <<= 0.4;
    std::vector<adouble> y = ev_ad(d, x);
    double o;
    for (auto &q : y) q >>= o;
  } catch (...) { // the user ends the recording
    try { trace_off(); } catch (...) {}
    throw;
  }
  trace_off();
}
// returns true if the callback is to report failure now
static bool gate(char dir, const ExtDef &d, int ord, bool ok) {
  EXTC.log.push_back({dir, d.key(), ord, ok});
  if (EXTC.calls++ != EXTC.fail_at) return false;
  ++EXTC.fired;
  if (EXTC.fail_mode == 1) throw UserThrow{-1};
  return true;
}
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
static void trouble(const char *w) { if (EXTC.trouble.empty()) EXTC.trouble = w; }
static int fwd0(const ExtDef &d, int ord, int m, int n, const double *x, double *y, bool rec = false) {
  UserCode uc;
  if (m != d.no || n != d.ni) { trouble("callback got wrong dimensions"); return -9; }
  if (!rec && gate('F', d, ord, true)) return -7;
  if (d.nested && !rec) {
    int rc = ::zos_forward(d.inner, m, n, 0, x, y);
    return rc;
  }
  ev(d, x, y);
  return 3;
}
static int fwd1(const ExtDef &d, int ord, int m, int n, double *x, double *X, double *y, double *Y) {
  UserCode uc;
  if (m != d.no || n != d.ni) { trouble("callback got wrong dimensions"); return -9; }
  if (gate('F', d, ord, true)) return -7;
  if (d.nested) return ::fos_forward(d.inner, m, n, 0, x, X, y, Y);
  ev(d, x, y);
  for (int j = 0; j < m; ++j) { Y[j] = 0; for (int i = 0; i < n; ++i) Y[j] += dv(d, x, j, i) * X[i]; }
  return 3;
}
static int fwdv(const ExtDef &d, int ord, int m, int n, int p, double *x, double **X, double *y, double **Y) {
  UserCode uc;
  if (m != d.no || n != d.ni) { trouble("callback got wrong dimensions"); return -9; }
  if (gate('F', d, ord, true)) return -7;
  if (d.nested) return ::fov_forward(d.inner, m, n, p, x, X, y, Y);
  ev(d, x, y);
  for (int j = 0; j < m; ++j) for (int l = 0; l < p; ++l) { Y[j][l] = 0; for (int i = 0; i < n; ++i) Y[j][l] += dv(d, x, j, i) * X[i][l]; }
  return 3;
}
static int rev1(const ExtDef &d, int ord, int m, int n, const double *u, double *z, const double *x, const double *) {
  UserCode uc;
  if (m != d.no || n != d.ni) { trouble("callback got wrong dimensions"); return -9; }
  if (gate('R', d, ord, true)) return -7;
  if (d.nested) {
    std::vector<double> y(static_cast<size_t>(m)), t(static_cast<size_t>(n));
    ::zos_forward(d.inner, m, n, 1, x, y.data());
    int rc = ::fos_reverse(d.inner, m, n, u, t.data());
    for (int i = 0; i < n; ++i) z[i] += t[static_cast<size_t>(i)];
    return rc;
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) z[i] += u[j] * dv(d, x, j, i);
  return 3;
}
static int revv(const ExtDef &d, int ord, int m, int n, int q, double **u, double **z, const double *x, const double *) {
  UserCode uc;
  if (m != d.no || n != d.ni) { trouble("callback got wrong dimensions"); return -9; }
  if (gate('R', d, ord, true)) return -7;
  for (int l = 0; l < q; ++l) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) z[l][i] += u[l][j] * dv(d, x, j, i);
  return 3;
}

/* ---------------------------------------------------------------- registration */
struct ObjPlain : EDFobject {
  ExtDef d;
  ObjPlain(short t, const ExtDef &dd) : EDFobject(t, t), d(dd) {}
  int function(short, int m, int n, double *x, double *y) override { return fwd0(d, -1, m, n, x, y, true); }
  int zos_forward(short, int m, int n, int, double *x, double *y) override { return fwd0(d, -1, m, n, x, y); }
  int fos_forward(short, int m, int n, int, double *x, double *X, double *y, double *Y) override { return fwd1(d, -1, m, n, x, X, y, Y); }
  int fov_forward(short, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return fwdv(d, -1, m, n, p, x, X, y, Y); }
  int fos_reverse(short, int m, int n, double *u, double *z, double *x, double *y) override { return rev1(d, -1, m, n, u, z, x, y); }
  int fov_reverse(short, int m, int n, int q, double **u, double **z, double *x, double *y) override { return revv(d, -1, m, n, q, u, z, x, y); }
  int hos_forward(short, int, int, int, int, double *, double **, double *, double **) override { return -1; }
  int hov_forward(short, int, int, int, int, double *, double ***, double *, double ***) override { return -1; }
  int hos_reverse(short, int, int, int, double *, double **, double **, double **) override { return -1; }
  int hov_reverse(short, int, int, int, int, double **, double ***, short **, double **, double **) override { return -1; }
};
static int iarr_ord(const ExtDef &d, size_t len, const size_t *a) {
  // iArr = {ordinal, key, ordinal+key, ...}
  if (len < 3 || a[1] != static_cast<size_t>(d.key()) || a[2] != a[0] + a[1]) { trouble("callback got a damaged integer array"); return -2; }
  for (size_t i = 3; i < len; ++i) if (a[i] != i * 7) { trouble("callback got a damaged integer array"); return -2; }
  return static_cast<int>(a[0]);
}
struct ObjIArr : EDFobject_iArr {
  ExtDef d;
  explicit ObjIArr(const ExtDef &dd) : d(dd) {}
  int hos_forward(short, size_t, size_t *, int, int, int, int, double *, double **, double *, double **) override { return -1; }
  int hov_forward(short, size_t, size_t *, int, int, int, int, double *, double ***, double *, double ***) override { return -1; }
  int hos_reverse(short, size_t, size_t *, int, int, int, double *, double **, double **, double **) override { return -1; }
  int hov_reverse(short, size_t, size_t *, int, int, int, int, double **, double ***, short **, double **, double **) override { return -1; }
  int function(short, size_t l, size_t *a, int m, int n, double *x, double *y) override { return fwd0(d, iarr_ord(d, l, a), m, n, x, y, true); }
  int zos_forward(short, size_t l, size_t *a, int m, int n, int, double *x, double *y) override { return fwd0(d, iarr_ord(d, l, a), m, n, x, y); }
  int fos_forward(short, size_t l, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) override { return fwd1(d, iarr_ord(d, l, a), m, n, x, X, y, Y); }
  int fov_forward(short, size_t l, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) override { return fwdv(d, iarr_ord(d, l, a), m, n, p, x, X, y, Y); }
  int fos_reverse(short, size_t l, size_t *a, int m, int n, double *u, double *z, double *x, double *y) override { return rev1(d, iarr_ord(d, l, a), m, n, u, z, x, y); }
  int fov_reverse(short, size_t l, size_t *a, int m, int n, int q, double **u, double **z, double *x, double *y) override { return revv(d, iarr_ord(d, l, a), m, n, q, u, z, x, y); }
};
// v2: the inputs come as one or two vectors (first one of length 1)
struct V2 {
  static std::vector<double> flat(size_t nin, const size_t *insz, double **x) { std::vector<double> r; for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < insz[i]; ++j) r.push_back(x[i][j]); return r; }
  static void put(size_t nin, const size_t *insz, double **x, const std::vector<double> &v) { size_t k = 0; for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < insz[i]; ++j) x[i][j] = v[k++]; }
  static std::vector<double *> rows(std::vector<double> &m, size_t r, size_t c) { std::vector<double *> p; for (size_t i = 0; i < r; ++i) p.push_back(m.data() + i * c); return p; }
  static int f0(const ExtDef &d, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t *outsz, double **y, bool rec) {
    std::vector<double> xx = flat(nin, insz, x), yy(static_cast<size_t>(d.no));
    size_t no = 0; for (size_t i = 0; i < nout; ++i) no += outsz[i];
    int rc = fwd0(d, iarr_ord(d, l, a), static_cast<int>(no), static_cast<int>(xx.size()), xx.data(), yy.data(), rec);
    if (rc >= 0) put(nout, outsz, y, yy);
    return rc;
  }
  static int f1(const ExtDef &d, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, double **X, size_t *outsz, double **y, double **Y) {
    std::vector<double> xx = flat(nin, insz, x), XX = flat(nin, insz, X), yy(static_cast<size_t>(d.no)), YY(static_cast<size_t>(d.no));
    int rc = fwd1(d, iarr_ord(d, l, a), d.no, static_cast<int>(xx.size()), xx.data(), XX.data(), yy.data(), YY.data());
    if (rc >= 0) { put(nout, outsz, y, yy); put(nout, outsz, Y, YY); }
    return rc;
  }
  static int fv(const ExtDef &d, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t p, double ***X, size_t *outsz, double **y, double ***Y) {
    std::vector<double> xx = flat(nin, insz, x), yy(static_cast<size_t>(d.no)), XX, YY(static_cast<size_t>(d.no) * p);
    for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < insz[i]; ++j) for (size_t q = 0; q < p; ++q) XX.push_back(X[i][j][q]);
    auto xr = rows(XX, xx.size(), p), yr = rows(YY, yy.size(), p);
    int rc = fwdv(d, iarr_ord(d, l, a), d.no, static_cast<int>(xx.size()), static_cast<int>(p), xx.data(), xr.data(), yy.data(), yr.data());
    if (rc >= 0) {
      put(nout, outsz, y, yy);
      size_t k = 0;
      for (size_t i = 0; i < nout; ++i) for (size_t j = 0; j < outsz[i]; ++j) for (size_t q = 0; q < p; ++q) Y[i][j][q] = YY[k++];
    }
    return rc;
  }
  static int r1(const ExtDef &d, size_t l, size_t *a, size_t nout, size_t nin, size_t *outsz, double **u, size_t *insz, double **z, double **x, double **y) {
    std::vector<double> xx = flat(nin, insz, x), zz = flat(nin, insz, z), uu = flat(nout, outsz, u), yy = flat(nout, outsz, y);
    int rc = rev1(d, iarr_ord(d, l, a), static_cast<int>(uu.size()), static_cast<int>(xx.size()), uu.data(), zz.data(), xx.data(), yy.data());
    if (rc >= 0) put(nin, insz, z, zz);
    return rc;
  }
  static int rv(const ExtDef &d, size_t l, size_t *a, size_t nout, size_t nin, size_t *outsz, size_t q, double ***u, size_t *insz, double ***z, double **x, double **y) {
    std::vector<double> xx = flat(nin, insz, x), yy = flat(nout, outsz, y), U, Z;
    const size_t n = xx.size(), m = yy.size();
    U.resize(q * m); Z.resize(q * n);
    size_t k = 0;
    for (size_t i = 0; i < nout; ++i) for (size_t j = 0; j < outsz[i]; ++j, ++k) for (size_t r = 0; r < q; ++r) U[r * m + k] = u[i][j][r];
    k = 0;
    for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < insz[i]; ++j, ++k) for (size_t r = 0; r < q; ++r) Z[r * n + k] = z[i][j][r];
    auto ur = rows(U, q, m), zr = rows(Z, q, n);
    int rc = revv(d, iarr_ord(d, l, a), static_cast<int>(m), static_cast<int>(n), static_cast<int>(q), ur.data(), zr.data(), xx.data(), yy.data());
    k = 0;
    if (rc >= 0) for (size_t i = 0; i < nin; ++i) for (size_t j = 0; j < insz[i]; ++j, ++k) for (size_t r = 0; r < q; ++r) z[i][j][r] = Z[r * n + k];
    return rc;
  }
};
struct ObjV2 : EDFobject_v2 {
  ExtDef d;
  ObjV2(short t, const ExtDef &dd) : EDFobject_v2(t, t), d(dd) {}
  int function(short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t *outsz, double **y, void *) override { return V2::f0(d, l, a, nin, nout, insz, x, outsz, y, true); }
  int zos_forward(short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t *outsz, double **y, void *) override { return V2::f0(d, l, a, nin, nout, insz, x, outsz, y, false); }
  int fos_forward(short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, double **X, size_t *outsz, double **y, double **Y, void *) override { return V2::f1(d, l, a, nin, nout, insz, x, X, outsz, y, Y); }
  int fov_forward(short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t p, double ***X, size_t *outsz, double **y, double ***Y, void *) override { return V2::fv(d, l, a, nin, nout, insz, x, p, X, outsz, y, Y); }
  int fos_reverse(short, size_t l, size_t *a, size_t nout, size_t nin, size_t *outsz, double **u, size_t *insz, double **z, double **x, double **y, void *) override { return V2::r1(d, l, a, nout, nin, outsz, u, insz, z, x, y); }
  int fov_reverse(short, size_t l, size_t *a, size_t nout, size_t nin, size_t *outsz, size_t q, double ***u, size_t *insz, double ***z, double **x, double **y, void *) override { return V2::rv(d, l, a, nout, nin, outsz, q, u, insz, z, x, y); }
};
struct ExtReg {
  ExtDef d;
  ext_diff_fct *edf = nullptr;
  ext_diff_fct_v2 *edf2 = nullptr;
  std::unique_ptr<ObjPlain> op;
  std::unique_ptr<ObjIArr> oi;
  std::unique_ptr<ObjV2> o2;
};
ExtPool::~ExtPool() { for (auto &r : regs) delete r.second; }
static const ExtDef &ctxd(void *c) { return static_cast<ExtReg *>(c)->d; }

static ExtReg *enroll(ExtPool &P, const ExtDef &d0) {
  std::unique_ptr<ExtReg> g(new ExtReg);
  g->d = d0;
  ExtReg *r = g.get();
  if (d0.nested) {
    r->d.inner = createNewTape();
    P.spare_tapes.push_back(r->d.inner);
    record_inner(r->d);
  }
  const short ext = P.tape;
  switch (d0.flavour) {
  case 0: {
    auto *e = reg_ext_fct(P.tape, ext, ADOLC_ext_fct([r](short, int m, int n, double *x, double *y) { return fwd0(r->d, -1, m, n, x, y, true); }));
    e->zos_forward = [r](short, int m, int n, int, double *x, double *y) { return fwd0(r->d, -1, m, n, x, y); };
    e->fos_forward = [r](short, int m, int n, int, double *x, double *X, double *y, double *Y) { return fwd1(r->d, -1, m, n, x, X, y, Y); };
    e->fov_forward = [r](short, int m, int n, int p, double *x, double **X, double *y, double **Y) { return fwdv(r->d, -1, m, n, p, x, X, y, Y); };
    e->fos_reverse = [r](short, int m, int n, double *u, double *z, double *x, double *y) { return rev1(r->d, -1, m, n, u, z, x, y); };
    e->fov_reverse = [r](short, int m, int n, int q, double **u, double **z, double *x, double *y) { return revv(r->d, -1, m, n, q, u, z, x, y); };
    r->edf = e;
    break;
  }
  case 1: {
    auto *e = reg_ext_fct(P.tape, ext, ADOLC_ext_fct_iArr([r](short, size_t l, size_t *a, int m, int n, double *x, double *y) { return fwd0(r->d, iarr_ord(r->d, l, a), m, n, x, y, true); }));
    e->zos_forward_iArr = [r](short, size_t l, size_t *a, int m, int n, int, double *x, double *y) { return fwd0(r->d, iarr_ord(r->d, l, a), m, n, x, y); };
    e->fos_forward_iArr = [r](short, size_t l, size_t *a, int m, int n, int, double *x, double *X, double *y, double *Y) { return fwd1(r->d, iarr_ord(r->d, l, a), m, n, x, X, y, Y); };
    e->fov_forward_iArr = [r](short, size_t l, size_t *a, int m, int n, int p, double *x, double **X, double *y, double **Y) { return fwdv(r->d, iarr_ord(r->d, l, a), m, n, p, x, X, y, Y); };
    e->fos_reverse_iArr = [r](short, size_t l, size_t *a, int m, int n, double *u, double *z, double *x, double *y) { return rev1(r->d, iarr_ord(r->d, l, a), m, n, u, z, x, y); };
    e->fov_reverse_iArr = [r](short, size_t l, size_t *a, int m, int n, int q, double **u, double **z, double *x, double *y) { return revv(r->d, iarr_ord(r->d, l, a), m, n, q, u, z, x, y); };
    r->edf = e;
    break;
  }
  case 2: {
    auto *e = reg_ext_fct(P.tape, ext, +[](short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t *outsz, double **y, void *c) { return V2::f0(ctxd(c), l, a, nin, nout, insz, x, outsz, y, true); });
    e->zos_forward = +[](short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t *outsz, double **y, void *c) { return V2::f0(ctxd(c), l, a, nin, nout, insz, x, outsz, y, false); };
    e->fos_forward = +[](short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, double **X, size_t *outsz, double **y, double **Y, void *c) { return V2::f1(ctxd(c), l, a, nin, nout, insz, x, X, outsz, y, Y); };
    e->fov_forward = +[](short, size_t l, size_t *a, size_t nin, size_t nout, size_t *insz, double **x, size_t p, double ***X, size_t *outsz, double **y, double ***Y, void *c) { return V2::fv(ctxd(c), l, a, nin, nout, insz, x, p, X, outsz, y, Y); };
    e->fos_reverse = +[](short, size_t l, size_t *a, size_t nout, size_t nin, size_t *outsz, double **u, size_t *insz, double **z, double **x, double **y, void *c) { return V2::r1(ctxd(c), l, a, nout, nin, outsz, u, insz, z, x, y); };
    e->fov_reverse = +[](short, size_t l, size_t *a, size_t nout, size_t nin, size_t *outsz, size_t q, double ***u, size_t *insz, double ***z, double **x, double **y, void *c) { return V2::rv(ctxd(c), l, a, nout, nin, outsz, q, u, insz, z, x, y); };
    edf_set_opaque_context(e, r);
    r->edf2 = e;
    break;
  }
  case 3: r->op = std::make_unique<ObjPlain>(P.tape, r->d); break;
  case 4: r->oi = std::make_unique<ObjIArr>(r->d); break;
  default: r->o2 = std::make_unique<ObjV2>(P.tape, r->d); break;
  }
  return g.release();
}
void ext_record(RecEnv &e, const Ins &I, std::vector<adouble> &a, int ordinal) {
  ExtPool &P = *e.ext;
  const ExtDef d = ext_def(I);
  // the same registration may serve several calls
  const std::pair<int, int> id{d.key(), (I.u & 1) ? -1 : static_cast<int>(I.t) * 64 + ordinal};
  auto it = P.regs.find(id);
  if (it == P.regs.end()) it = P.regs.emplace(id, enroll(P, d)).first;
  ExtReg *r = it->second;
  advector x(static_cast<size_t>(d.ni)), y(static_cast<size_t>(d.no));
  for (int i = 0; i < d.ni; ++i) x[static_cast<size_t>(i)] = a[static_cast<size_t>(I.s + i) % a.size()];
  adouble *px = x, *py = y;
  std::vector<size_t> ia = {static_cast<size_t>(ordinal), static_cast<size_t>(d.key()), static_cast<size_t>(ordinal + d.key())};
  for (int q = 0; q < I.t % 5; ++q) ia.push_back(ia.size() * 7);
  // the locations of the results may have held other values that were used before
  adouble extra = 0.0;
  if (ext_flags(I) & 1) {
    for (int j = 0; j < d.no; ++j) {
      adouble w = a[static_cast<size_t>(I.s + 1 + j) % a.size()] * 0.5;
      py[j] = w;
    }
    extra += sin(py[0]) * px[d.ni - 1] * 0.25 + py[0] * py[d.no - 1] * px[0] * 0.125;
  }
  int rc = 3;
  switch (d.flavour) {
  case 0: rc = call_ext_fct(r->edf, d.ni, px, d.no, py); break;
  case 1: rc = call_ext_fct(r->edf, ia.size(), ia.data(), d.ni, px, d.no, py); break;
  case 3: rc = r->op->call(d.ni, px, d.no, py); break;
  case 4: rc = r->oi->call(ia.size(), ia.data(), d.ni, px, d.no, py); break;
  default: {
    const bool two = d.ni > 1 && (I.t & 1);
    size_t insz[2] = {two ? size_t{1} : static_cast<size_t>(d.ni), static_cast<size_t>(d.ni - 1)}, outsz[1] = {static_cast<size_t>(d.no)};
    adouble *xs[2] = {px, px + 1}, *ys[1] = {py};
    if (d.flavour == 2) rc = call_ext_fct(r->edf2, ia.size(), ia.data(), two ? 2 : 1, 1, insz, xs, outsz, ys);
    else rc = r->o2->call(ia.size(), ia.data(), two ? 2 : 1, 1, insz, xs, outsz, ys);
  }
  }
  if (rc < 0) throw UserThrow{-2};
  if (ext_flags(I) & 2) extra += px[d.ni - 1] * px[0] * 0.1;
  // arguments may be changed or destroyed after the call without influencing the recorded evaluation
  if (I.t % 3 == 1) for (int i = 0; i < d.ni; ++i) x[static_cast<size_t>(i)] = 0.25;
  adouble &D = a[static_cast<size_t>(I.d)];
  adouble res = y[0] + 0.0;
  if (d.no > 1) res += y[1] * 0.5;
  if (ext_flags(I) & 3) res += extra;
  D = res;
}

/* ---------------------------------------------------------------- checkpointed loops */
// state of the time loop that is not active: the library saves and restores it through callbacks
static thread_local int CPCOUNT = 0;
static const int CPWRAP = 7;
static void cpgate() {
  if (EXTC.fail_at < 0 || EXTC.calls++ != EXTC.fail_at) return;
  ++EXTC.fired;
  throw UserThrow{-1};
}
template <class T> static void stepf(int id, size_t n, T *x) {
  using std::sin; using std::exp;
  UserCode uc;
  cpgate();
  const double w = 0.05 * (1 + CPCOUNT);
  for (size_t i = 0; i < n; ++i) {
    T &nx = x[(i + 1) % n];
    if (id == 0) x[i] = x[i] + 0.1 * sin(nx);
    else if (id == 1) x[i] = 0.9 * x[i] + 0.2 * sin(x[i] * nx);
    else if (id == 2) { T q = x[i] * 0.5; x[i] = sin(q) + 0.3 * nx; }
    else if (id == 3) x[i] = x[i] + w * sin(nx);
    else if (x[i] > 0.35) x[i] = 0.6 * x[i] + 0.02 * nx;
    else x[i] = x[i] + 0.25 + 0.1 * sin(nx);
  }
  if (id == 3) CPCOUNT = (CPCOUNT + 1) % CPWRAP;
}
void cp_reset() { CPCOUNT = 0; }
static void *cp_save() { UserCode uc; double *p = new double[1]; *p = CPCOUNT; return p; }
static void cp_restore(void *p) { CPCOUNT = static_cast<int>(*static_cast<double *>(p)); }
static const int NSTEPF = 5;
template <int F> static int sfa(size_t n, adouble *x) { stepf(F, n, x); return 1; }
template <int F> static int sfd(size_t n, double *x) { stepf(F, n, x); return 1; }
struct CplDef { int dim, steps, cps, f; bool retape, inplace, sharetape, sharectx; };
static CplDef cpl_def(const Ins &I) {
  const int k = I.k < 0 ? 0 : I.k;
  CplDef d;
  d.dim = 1 + k % 3; d.steps = 1 + (k / 3) % 11; d.cps = 1 + (k / 33) % 6;
  d.f = (I.v < 0 ? 0 : I.v) % NSTEPF;
  d.retape = (I.u % 3) == 0; d.inplace = I.t % 2 == 0; d.sharetape = (I.u & 2) != 0; d.sharectx = (I.u & 4) != 0;
  if (d.f == 3) { d.steps = CPWRAP; d.retape = true; }
  return d;
}
void cpl_record(RecEnv &e, const Ins &I, std::vector<adouble> &a) {
  ExtPool &P = *e.ext;
  const CplDef d = cpl_def(I);
  static int (*const af[])(size_t, adouble *) = {sfa<0>, sfa<1>, sfa<2>, sfa<3>, sfa<4>};
  static int (*const df[])(size_t, double *) = {sfd<0>, sfd<1>, sfd<2>, sfd<3>, sfd<4>};
  CP_Context *cx = nullptr;
  auto sh = P.shared_ctx.find(d.f);
  if (d.sharectx && sh != P.shared_ctx.end()) cx = sh->second;
  else {
    short in;
    if (d.sharetape && P.steptape >= 0) in = P.steptape;
    else { in = createNewTape(); P.spare_tapes.push_back(in); P.steptape = in; }
    P.contexts.push_back(std::make_unique<CP_Context>(P.tape, in, af[d.f]));
    cx = P.contexts.back().get();
    cx->setDoubleFct(df[d.f]);
    if (d.f == 3) { cx->setSaveFct(cp_save); cx->setRestoreFct(cp_restore); }
    P.shared_ctx[d.f] = cx;
  }
  cx->setNumberOfSteps(d.steps);
  cx->setNumberOfCheckpoints(d.cps);
  cx->setDimensionXY(d.dim);
  cx->setAlwaysRetaping(d.retape);
  advector x(static_cast<size_t>(d.dim)), y(static_cast<size_t>(d.dim));
  for (int i = 0; i < d.dim; ++i) x[static_cast<size_t>(i)] = a[static_cast<size_t>(I.s + i) % a.size()];
  adouble *px = x, *py = y;
  cx->setInput(px);
  cx->setOutput(d.inplace ? px : py);
  int rc = cx->checkpointing(P.tape);
  if (rc < 0) throw UserThrow{-2};
  adouble &D = a[static_cast<size_t>(I.d)];
  adouble acc = 0.0;
  for (int i = 0; i < d.dim; ++i) acc += (d.inplace ? px : py)[i] * (1.0 + 0.5 * i);
  if (!d.inplace) acc += px[0] * 0.3; // the input is used again afterwards
  D = acc;
}
void cpl_ref(const Ins &I, std::vector<Dual> &a) {
  const CplDef d = cpl_def(I);
  std::vector<Dual> x;
  for (int i = 0; i < d.dim; ++i) x.push_back(a[static_cast<size_t>(I.s + i) % a.size()]);
  const Dual x0 = x[0];
  const size_t n = x.size();
  for (int s = 0; s < d.steps; ++s)
    for (size_t i = 0; i < n; ++i) {
      const Dual nx = x[(i + 1) % n];
      if (d.f == 0) x[i] = x[i] + 0.1 * rf::sin(nx);
      else if (d.f == 1) {
        if (fabsl(x[i].v.c[0]) + fabsl(nx.v.c[0]) > 12) ref_decision(0); // amplifies rounding without bound
        x[i] = 0.9 * x[i] + 0.2 * rf::sin(x[i] * nx);
      }
      else if (d.f == 2) {
        Dual q = x[i] * 0.5;
        Dual s1 = rf::sin(q);
        x[i] = s1 + 0.3 * nx;
      }
      else if (d.f == 3) x[i] = x[i] + (0.05 * (1 + s)) * rf::sin(nx);
      else {
        ref_decision(x[i].v.c[0] - 0.35L);
        if (x[i].v.c[0] > 0.35L) x[i] = 0.6 * x[i] + 0.02 * nx;
        else x[i] = x[i] + 0.25 + 0.1 * rf::sin(nx);
      }
    }
  Dual acc(0.0);
  for (size_t i = 0; i < n; ++i) acc = acc + x[i] * (1.0 + 0.5 * static_cast<double>(i));
  if (!d.inplace) acc = acc + x0 * 0.3;
  a[static_cast<size_t>(I.d)] = acc;
}

/* ---------------------------------------------------------------- fixed points */
template <class T> static void fpf(int id, T *x, T *u, T *y, size_t nx, size_t nu) {
  using std::sin; using std::cos;
  for (size_t i = 0; i < nx; ++i) {
    T &o = x[(i + 1) % nx];
    T &w = u[i % nu];
    if (id == 0) y[i] = 0.4 * sin(x[i]) + 0.1 * o + w * 0.5;
    else if (id == 1) y[i] = 0.3 * cos(o) * w + 0.2;
    else y[i] = 0.25 * sin(x[i] + w) + 0.2 * sin(o) * w + w * w * 0.3;
  }
}
static int fa0(adouble *x, adouble *u, adouble *y, size_t a, size_t b) { fpf(0, x, u, y, a, b); return 1; }
static int fa1(adouble *x, adouble *u, adouble *y, size_t a, size_t b) { fpf(1, x, u, y, a, b); return 1; }
static int fa2(adouble *x, adouble *u, adouble *y, size_t a, size_t b) { fpf(2, x, u, y, a, b); return 1; }
static int fd0(double *x, double *u, double *y, size_t a, size_t b) { fpf(0, x, u, y, a, b); return 1; }
static int fd1(double *x, double *u, double *y, size_t a, size_t b) { fpf(1, x, u, y, a, b); return 1; }
static int fd2(double *x, double *u, double *y, size_t a, size_t b) { fpf(2, x, u, y, a, b); return 1; }
// the two norms are scaled differently, so that using one in place of the other shows
static double fnorm(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s += std::fabs(x[i]); return s * 1e6; }
static double fnormd(double *x, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s += std::fabs(x[i]); return s * 1e-6; }
struct FpiDef { int nx, nu, f; };
static FpiDef fpi_def(const Ins &I) {
  const int k = I.k < 0 ? 0 : I.k;
  return {1 + k % 3, 1 + (k / 3) % 2, (I.v < 0 ? 0 : I.v) % 3};
}
void fpi_record(RecEnv &e, const Ins &I, std::vector<adouble> &a) {
  ExtPool &P = *e.ext;
  const FpiDef d = fpi_def(I);
  short in = createNewTape();
  P.spare_tapes.push_back(in);
  advector x0(static_cast<size_t>(d.nx)), u(static_cast<size_t>(d.nu)), xf(static_cast<size_t>(d.nx));
  // bounded control values keep the map contractive
  for (int i = 0; i < d.nu; ++i) u[static_cast<size_t>(i)] = sin(a[static_cast<size_t>(I.s + i) % a.size()]);
  for (int i = 0; i < d.nx; ++i) x0[static_cast<size_t>(i)] = 0.1 * (i + 1);
  adouble *p0 = x0, *pu = u, *pf = xf;
  static adouble_F const af[] = {fa0, fa1, fa2};
  static double_F const df[] = {fd0, fd1, fd2};
  int rc = fp_iteration(P.tape, in, df[d.f], af[d.f], fnorm, fnormd, 1e-7, 1e-19, 200, 210, p0, pu, pf, static_cast<size_t>(d.nx), static_cast<size_t>(d.nu));
  if (rc < 0) throw UserThrow{-2};
  adouble acc = 0.0;
  for (int i = 0; i < d.nx; ++i) acc += pf[i] * (1.0 + 0.5 * i);
  if (((I.k < 0 ? 0 : I.k) / 6) % 2) acc += pu[0] * pu[d.nu - 1] * 0.5; // the parameters are used again
  a[static_cast<size_t>(I.d)] = acc;
}
void fpi_ref(const Ins &I, std::vector<Dual> &a) {
  const FpiDef d = fpi_def(I);
  std::vector<Dual> x, u;
  for (int i = 0; i < d.nu; ++i) u.push_back(rf::sin(a[static_cast<size_t>(I.s + i) % a.size()]));
  for (int i = 0; i < d.nx; ++i) x.push_back(Dual(0.1 * (i + 1)));
  const size_t nx = x.size(), nu = u.size();
  for (int it = 0; it < 160; ++it) {
    std::vector<Dual> y(nx);
    for (size_t i = 0; i < nx; ++i) {
      const Dual &o = x[(i + 1) % nx];
      const Dual &w = u[i % nu];
      if (d.f == 0) y[i] = 0.4 * rf::sin(x[i]) + 0.1 * o + w * 0.5;
      else if (d.f == 1) y[i] = 0.3 * (rf::cos(o) * w) + 0.2;
      else y[i] = 0.25 * rf::sin(x[i] + w) + 0.2 * (rf::sin(o) * w) + w * w * 0.3;
    }
    x = y;
  }
  Dual acc(0.0);
  for (size_t i = 0; i < nx; ++i) acc = acc + x[i] * (1.0 + 0.5 * static_cast<double>(i));
  if (((I.k < 0 ? 0 : I.k) / 6) % 2) acc = acc + u[0] * u[nu - 1] * 0.5;
  a[static_cast<size_t>(I.d)] = acc;
}
