// Dependency patterns and sparse drivers.
#include "world.h"
#include <adolc/adolc.h>
#include <adolc/sparse/sparse_fo_rev.h>
#include <adolc/sparse/sparsedrivers.h>
#include <adolc/sparse/sparsedrivers_c.h>
#include <set>

extern "C" int adolc_sim_stripmine_max;
int adolc_sim_stripmine_max = 30;

namespace {
using namespace ADOLC::Sparse;
typedef std::vector<LD> VL;
typedef BitPatternPropagationDirection BP;

template <SparseMethod SM, ControlFlowMode CFM> int jp2(int bp, short t, int m, int n, const double *x, std::span<uint *> &s) {
  return bp == 1 ? jac_pat<SM, CFM, BP::Forward>(t, m, n, x, s) : bp == 2 ? jac_pat<SM, CFM, BP::Reverse>(t, m, n, x, s) : jac_pat<SM, CFM, BP::Auto>(t, m, n, x, s);
}
template <SparseMethod SM> int jp1(int cfm, int bp, short t, int m, int n, const double *x, std::span<uint *> &s) {
  return cfm ? jp2<SM, ControlFlowMode::Tight>(bp, t, m, n, x, s) : jp2<SM, ControlFlowMode::Safe>(bp, t, m, n, x, s);
}
template <SparseMethod SM, CompressionMode CM, ControlFlowMode CFM, BP BD> int sj4(bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &M) {
  return man ? sparse_jac<SM, CM, CFM, BD, MemoryHandler::Manual>(t, m, n, rep, x, M) : sparse_jac<SM, CM, CFM, BD, MemoryHandler::Auto>(t, m, n, rep, x, M);
}
template <SparseMethod SM, CompressionMode CM, ControlFlowMode CFM> int sj3(int bp, bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &M) {
  return bp == 1 ? sj4<SM, CM, CFM, BP::Forward>(man, t, m, n, rep, x, M) : bp == 2 ? sj4<SM, CM, CFM, BP::Reverse>(man, t, m, n, rep, x, M) : sj4<SM, CM, CFM, BP::Auto>(man, t, m, n, rep, x, M);
}
template <SparseMethod SM, CompressionMode CM> int sj2(int cfm, int bp, bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &M) {
  return cfm ? sj3<SM, CM, ControlFlowMode::Tight>(bp, man, t, m, n, rep, x, M) : sj3<SM, CM, ControlFlowMode::Safe>(bp, man, t, m, n, rep, x, M);
}
int sj1(int sm, int cm, int cfm, int bp, bool man, short t, int m, int n, int rep, const double *x, SparseMatrix &M) {
  return sm ? (cm ? sj2<SparseMethod::BitPattern, CompressionMode::Row>(cfm, bp, man, t, m, n, rep, x, M) : sj2<SparseMethod::BitPattern, CompressionMode::Column>(cfm, bp, man, t, m, n, rep, x, M))
            : (cm ? sj2<SparseMethod::IndexDomains, CompressionMode::Row>(cfm, bp, man, t, m, n, rep, x, M) : sj2<SparseMethod::IndexDomains, CompressionMode::Column>(cfm, bp, man, t, m, n, rep, x, M));
}
template <ControlFlowMode CFM> int sh2(int rm, short t, int n, int rep, const double *x, int *nnz, unsigned **ri, unsigned **ci, double **v) {
  return rm ? sparse_hess<CFM, RecoveryMethod::Direct>(t, n, rep, x, nnz, ri, ci, v) : sparse_hess<CFM, RecoveryMethod::Indirect>(t, n, rep, x, nnz, ri, ci, v);
}
// operations whose dependencies are a matter of the argument
bool decides(const Prog &p) {
  for (auto &i : p.ins) switch (i.op) {
    case O_FABS: case O_CEIL: case O_FLOOR: case O_FMIN: case O_FMAX: case O_COND: case O_COND2: case O_CONDEQ: case O_CONDEQ2: case O_CMP: case O_SUBSCR: case O_SUBREF: case O_EXT: case O_CPL: case O_FPI: return true;
    default: break;
  }
  return false;
}
// The newer Hessian patterns walk expression graphs as if they were trees; a bound for the size of these.
bool deep(const Prog &p) {
  std::vector<double> z(static_cast<size_t>(std::max(p.K, p.n)), 1.0);
  double mx = 1;
  auto at = [&](int i) -> double & { return z[static_cast<size_t>(i) % z.size()]; };
  for (auto &i : p.ins) {
    double &d = at(i.d);
    d = std::min(1e30, d + 2 * at(i.s) + 2 * at(i.t) + at(i.u));
    mx = std::max(mx, d);
  }
  return mx > 2e6;
}
struct Rows { // pattern rows owned by the caller
  std::vector<uint *> r;
  explicit Rows(int m) : r(static_cast<size_t>(m), nullptr) {}
  Rows(const Rows &) = delete;
  ~Rows() { for (auto *q : r) delete[] q; }
};
} // namespace

// every true dependency is contained; false if the reference is not usable here
bool World::needed(Slot &s, const VD &x, bool hess, std::vector<VL> &D, Expect &e, bool &sw) {
  const int n = s.prog.n, m = s.prog.m;
  RefOut r0 = ref(s, x, nullptr, 0, true);
  e.add(r0, true);
  sw = r0.branch_switch;
  if (sw) return false;
  D.clear();
  if (!hess) {
    for (int i = 0; i < m; ++i) { VL row(static_cast<size_t>(n), 0); const auto &g = r0.y[static_cast<size_t>(i)].g; for (size_t j = 0; j < g.size() && j < row.size(); ++j) row[j] = g[j].c[0]; D.push_back(row); }
  } else {
    D.assign(static_cast<size_t>(n), VL(static_cast<size_t>(n), 0));
    // of wide programs some columns are looked at
    for (int j = 0; j < n; ++j) {
      if (n > 24 && hcomb(static_cast<uint64_t>(n), static_cast<uint64_t>(j) * 7 + s.prog.ins.size()) % static_cast<uint64_t>(n) >= 6) continue;
      std::vector<VD> X(static_cast<size_t>(n), VD(1, 0.0));
      X[static_cast<size_t>(j)][0] = 1;
      RefOut r = ref(s, x, &X, 1, true);
      e.add(r, true);
      const auto &g = r.y[0].g;
      for (size_t i = 0; i < g.size() && i < static_cast<size_t>(n); ++i) D[i][static_cast<size_t>(j)] = g[i].c[1];
    }
  }
  return true;
}

void World::do_pat(const Line &L, const std::string &k) {
  Slot *s = slot(L.i("t"));
  if (!s) { last_st = '-'; return; }
  cur = s;
  adolc_sim_stripmine_max = std::max(1, L.i("sp", 30));
  const int m = s->prog.m, n = s->prog.n, api = L.i("api");
  const bool hess = k == "hpat";
  if (hess && m != 1) { last_st = '-'; return; }
  const VD x = pointv(L.u("pt", 1), n);
  int cfm = L.i("cfm");
  if (hess && cfm < 2 && deep(s->prog)) { cfm += 2; ++cov["sparse:deep"]; }
  const int sm = L.i("sm"), bp = L.i("bp");
  const bool tight = hess ? cfm == 1 || cfm == 3 : cfm == 1;
  EXTC.calls = 0; EXTC.fired = 0; EXTC.fail_at = -1;
  Expect e;
  base_expect(*s, e);
  const int nr = hess ? n : m;
  Got g;
  std::vector<std::vector<char>> P;
  std::string bad;
  if (k == "jpat" || hess) {
    g = guard([&](VD &v) {
      Rows R(nr);
      int rc;
      if (hess) {
        int o[2] = {cfm, 0};
        std::span<uint *> sp(R.r);
        rc = api ? ::hess_pat(s->id, n, x.data(), R.r.data(), o) : cfm == 0 ? hess_pat<ControlFlowMode::Safe>(s->id, n, x.data(), sp) : cfm == 1 ? hess_pat<ControlFlowMode::Tight>(s->id, n, x.data(), sp) : cfm == 2 ? hess_pat<ControlFlowMode::OldSafe>(s->id, n, x.data(), sp) : hess_pat<ControlFlowMode::OldTight>(s->id, n, x.data(), sp);
      } else {
        int o[4] = {sm, cfm, bp, 0};
        std::span<uint *> sp(R.r);
        rc = api ? ::jac_pat(s->id, m, n, x.data(), R.r.data(), o) : sm ? jp1<SparseMethod::BitPattern>(cfm, bp, s->id, m, n, x.data(), sp) : jp1<SparseMethod::IndexDomains>(cfm, bp, s->id, m, n, x.data(), sp);
      }
      if (rc < 0) return rc;
      P.assign(static_cast<size_t>(nr), std::vector<char>(static_cast<size_t>(n), 0));
      for (int i = 0; i < nr; ++i) {
        const uint *q = R.r[static_cast<size_t>(i)];
        if (!q) { bad = fmt("row %d of the pattern was not provided", i); break; }
        for (uint c = 1; c <= q[0]; ++c) {
          if (q[c] >= static_cast<uint>(n)) { bad = fmt("row %d has the column %u, there are %d", i, q[c], n); break; }
          if (P[static_cast<size_t>(i)][q[c]]) { bad = fmt("row %d has the column %u twice", i, q[c]); break; }
          P[static_cast<size_t>(i)][q[c]] = 1;
        }
      }
      if (bad.empty() && !hess && L.i("seed")) { // compression of this pattern
        double **S = nullptr;
        int p = -1, o[1] = {L.i("cm")};
        std::span<uint *> sp(R.r);
        if (api) ::generate_seed_jac(m, n, R.r.data(), &S, &p, o);
        else if (L.i("cm")) generate_seed_jac<CompressionMode::Row>(m, n, sp, &S, &p);
        else generate_seed_jac<CompressionMode::Column>(m, n, sp, &S, &p);
        const bool row = L.i("cm");
        const int len = row ? m : n;
        std::vector<int> col(static_cast<size_t>(len), -1);
        for (int i = 0; i < len && bad.empty(); ++i) for (int c = 0; c < p; ++c) { const double q = row ? S[c][i] : S[i][c]; if (q != 0) { if (q != 1 || col[static_cast<size_t>(i)] >= 0) bad = "a seed matrix entry is not as it must be"; col[static_cast<size_t>(i)] = c; } }
        for (int a = 0; a < (row ? n : m) && bad.empty(); ++a) {
          std::set<int> seen;
          for (int b = 0; b < len; ++b) if (row ? P[static_cast<size_t>(b)][static_cast<size_t>(a)] : P[static_cast<size_t>(a)][static_cast<size_t>(b)]) {
            if (col[static_cast<size_t>(b)] < 0) { bad = fmt("%s %d of %d has no group (of %d)", row ? "row" : "column", b, len, p); break; }
            if (!seen.insert(col[static_cast<size_t>(b)]).second) { bad = fmt("two overlapping %ss share a group", row ? "row" : "column"); break; }
          }
        }
        if (S) { for (int i = 0; i < (row ? p : n); ++i) delete[] S[i]; delete[] S; }
        ++cov["pat:seeds"];
      }
      for (auto &r : P) for (char c : r) v.push_back(c);
      return rc;
    });
  } else { // bit patterns
    const bool rev = k == "bitrev";
    const int p = std::max(1, L.i("p", 1)), a = rev ? m : n, b = rev ? n : m;
    const size_t W = 8 * sizeof(bitword_t);
    std::vector<std::vector<bitword_t>> U(static_cast<size_t>(rev ? p : a), std::vector<bitword_t>(static_cast<size_t>(rev ? a : p), 0)), Z(static_cast<size_t>(rev ? p : b), std::vector<bitword_t>(static_cast<size_t>(rev ? b : p), ~static_cast<bitword_t>(0)));
    std::vector<bitword_t *> Up, Zp;
    for (auto &q : U) Up.push_back(q.data());
    for (auto &q : Z) Zp.push_back(q.data());
    // bit i of the seed stands for the (i % bits)-th group
    auto grp = [&](int i) { return static_cast<size_t>(hcomb(L.u("vs", 1), static_cast<uint64_t>(i))) % (W * static_cast<size_t>(p)); };
    for (int i = 0; i < a; ++i) { const size_t q = grp(i); (rev ? U[q / W][static_cast<size_t>(i)] : U[static_cast<size_t>(i)][q / W]) |= static_cast<bitword_t>(1) << (q % W); }
    const bool pre = rev && tight;
    g = guard([&](VD &v) {
      int rc = 0;
      VD y(static_cast<size_t>(m), NAN), xx = x;
      if (pre) { rc = zos_forward(s->id, m, n, 1, x.data(), y.data()); if (rc < 0) return rc; }
      if (rev) rc = api ? (tight ? reverse<ControlFlowMode::Tight>(s->id, m, n, p, Up, Zp) : reverse<ControlFlowMode::Safe>(s->id, m, n, p, Up, Zp)) : tight ? int_reverse_tight(s->id, m, n, p, Up.data(), Zp.data()) : int_reverse_safe(s->id, m, n, p, Up.data(), Zp.data());
      else rc = api ? (tight ? ADOLC::Sparse::forward<ControlFlowMode::Tight>(s->id, m, n, p, xx.data(), Up, y.data(), Zp) : ADOLC::Sparse::forward<ControlFlowMode::Safe>(s->id, m, n, p, Up, Zp)) : tight ? int_forward_tight(s->id, m, n, p, x.data(), Up.data(), y.data(), Zp.data()) : int_forward_safe(s->id, m, n, p, Up.data(), Zp.data());
      if (rc < 0) return rc;
      for (auto &q : Z) for (auto w : q) v.push_back(static_cast<double>(w % 1000003));
      return rc;
    });
    // dependency of output i on input j is seen if the group of the seeded one arrived
    if (g.ok) {
      P.assign(static_cast<size_t>(m), std::vector<char>(static_cast<size_t>(n), 0));
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { const size_t q = grp(rev ? i : j); P[static_cast<size_t>(i)][static_cast<size_t>(j)] = (rev ? Z[q / W][static_cast<size_t>(j)] : Z[static_cast<size_t>(i)][q / W]) >> (q % W) & 1; }
    }
  }
  const bool special = s->prog.has(O_EXT) || s->prog.has(O_CPL) || s->prog.has(O_FPI);
  if (special) e.may_fail = true;
  if ((!tight || k == "bitrev") && (s->prog.has(O_SUBSCR) || s->prog.has(O_SUBREF))) e.may_fail = true; // documented
  bool sw = false;
  if (s->complete) {
    std::vector<VL> D;
    const bool have = needed(*s, x, hess, D, e, sw);
    e.rc_sign = sw ? (tight ? -1 : 0) : tight ? 1 : 0;
    if (!tight) e.rc_sign = 1;
    if (tight && e.margin < 1e-6L) e.rc_sign = 0;
    if (!(e.scale < 1e300L)) e.rc_sign = 0;
    if (g.ok && !ENV.io_fired && !ENV.al_fired) {
      if (!bad.empty()) violate("pattern:" + k, bad);
      else for (uint64_t q = 0; q < 9; ++q) {
        if (q && tight) break;
        if (q && special) break;
        Expect e2;
        std::vector<VL> D2;
        bool sw2 = false;
        if (q && q == L.u("pt", 1)) continue;
        const bool h2 = q ? (n < 12 && needed(*s, pointv(q, n), hess, D2, e2, sw2)) : have;
        const auto &DD = q ? D2 : D;
        const Expect &E = q ? e2 : e;
        if (!h2 || E.margin < 1e-6L || !(E.scale < 1e15L)) continue;
        ++cov["pat:checked"];
        bool stop = false;
        for (size_t i = 0; i < DD.size() && !stop; ++i) for (size_t j = 0; j < DD[i].size(); ++j)
          if (std::isfinite(static_cast<double>(DD[i][j])) && fabsl(DD[i][j]) > 1e-12L * (1 + E.scale) && !P[i][j]) {
            violate("missing:" + k, fmt("dependency (%zu,%zu) with derivative %.6Lg is not in the pattern", i, j, DD[i][j]));
            stop = true;
            break;
          }
        if (stop) break;
      }
    }
  }
  if (k == "bitrev" && tight) e.may_fail = e.may_fail || sw;
  judge(s, k, g, e);
  s->alt.clear();
  s->ts = TayState();
  s->ts.kind = 3;
}

void World::do_sparse(const Line &L, const std::string &k) {
  Slot *s = slot(L.i("t"));
  if (!s) { last_st = '-'; return; }
  cur = s;
  adolc_sim_stripmine_max = std::max(1, L.i("sp", 30));
  const int m = s->prog.m, n = s->prog.n, api = L.i("api");
  const bool hess = k == "shess";
  if (hess && m != 1) { last_st = '-'; return; }
  Slot::Sparse &C = hess ? s->sh : s->sj;
  int sm = L.i("sm"), cfm = L.i("cfm"), bp = L.i("bp"), cm = L.i("cm"), rm = L.i("rm"), mem = L.i("mem"), rep = L.i("rep");
  if (!s->complete) rep = 0;
  if (C.have || C.maybe) { if (rep && !hess) cm = C.cm; if (rep && hess) rm = C.rm; }
  else if (rep && C.foreign) rep = 0; // a pattern of an earlier recording: nothing to be expected
  const uint64_t pt = L.u("pt", 1);
  const VD x = pointv(pt, n);
  if (hess && cfm < 2 && deep(s->prog)) { cfm += 2; ++cov["sparse:deep"]; }
  const bool tight = hess ? cfm == 1 || cfm == 3 : cfm == 1;
  EXTC.calls = 0; EXTC.fired = 0; EXTC.fail_at = -1;
  Expect e;
  base_expect(*s, e);
  const bool special = s->prog.has(O_EXT) || s->prog.has(O_CPL) || s->prog.has(O_FPI);
  if (special) e.may_fail = true;
  if (hess && s->prog.has(O_CBRT)) e.may_fail = true;
  if (s->prog.has(O_SUBSCR) || s->prog.has(O_SUBREF)) e.may_fail = true; // safe mode does not support them
  if (rep && !C.have) { if (C.maybe) e.may_fail = true; else e.must_fail = true; }
  std::string bad;
  size_t wrongmem = 0;
  auto put = [&](std::vector<char> &seen, VD &v, unsigned r, unsigned c, double q) {
    const unsigned R = static_cast<unsigned>(hess ? n : m), N = static_cast<unsigned>(n);
    if (r >= R || c >= N) { bad = fmt("entry (%u,%u) of a %ux%u matrix", r, c, R, N); return; }
    if (seen[r * N + c]) { bad = fmt("entry (%u,%u) given twice", r, c); return; }
    seen[r * N + c] = 1;
    v[r * N + c] = q;
    if (hess) { if (r != c && seen[c * N + r]) { bad = fmt("entry (%u,%u) of both triangles given", r, c); return; } seen[c * N + r] = 1; v[c * N + r] = q; }
  };
  int cnt = -1;
  Got g = guard([&](VD &v) {
    int rc;
    std::vector<char> seen(static_cast<size_t>(hess ? n * n : m * n), 0);
    if (!hess && !api) {
      const bool man = mem == 1 && C.have && C.last >= 0;
      SparseMatrix M(man ? static_cast<size_t>(C.last) : static_cast<size_t>(L.i("junk")));
      if (man && L.i("junk") == 3) { M.resize(static_cast<size_t>(C.last) + 1); wrongmem = 1; }
      rc = sj1(sm, cm, cfm, bp, man, s->id, m, n, rep, x.data(), M);
      if (man && !rep) wrongmem = 2;
      if (rc < 0) return rc;
      v.assign(seen.size(), 0.0);
      cnt = static_cast<int>(M.size());
      for (size_t i = 0; i < M.size(); ++i) put(seen, v, M.rowIndex(i), M.colIndex(i), M.value(i));
      return rc;
    }
    // buffers of the C interface
    unsigned *ri = nullptr, *ci = nullptr;
    double *va = nullptr;
    int nnz = C.have && C.last >= 0 ? C.last : 0;
    const bool own = mem == 1 && C.have && rep && C.last >= 0;
    if (own) { ri = new unsigned[static_cast<size_t>(nnz)]; ci = new unsigned[static_cast<size_t>(nnz)]; va = new double[static_cast<size_t>(nnz)]; }
    unsigned *ri0 = ri, *ci0 = ci;
    double *va0 = va;
    if (!rep && L.i("junk")) nnz = L.i("junk");
    if (rep && L.i("junk") == 3 && hess && C.have) { nnz = C.last + 1; wrongmem = 1; }
    struct Free { unsigned *&a, *&b; double *&c; ~Free() { delete[] a; delete[] b; delete[] c; } } fr{ri, ci, va};
    if (hess) {
      int o[2] = {cfm, rm};
      rc = api ? ::sparse_hess(s->id, n, rep, x.data(), &nnz, &ri, &ci, &va, o) : cfm == 0 ? sh2<ControlFlowMode::Safe>(rm, s->id, n, rep, x.data(), &nnz, &ri, &ci, &va) : cfm == 1 ? sh2<ControlFlowMode::Tight>(rm, s->id, n, rep, x.data(), &nnz, &ri, &ci, &va) : cfm == 2 ? sh2<ControlFlowMode::OldSafe>(rm, s->id, n, rep, x.data(), &nnz, &ri, &ci, &va) : sh2<ControlFlowMode::OldTight>(rm, s->id, n, rep, x.data(), &nnz, &ri, &ci, &va);
    } else {
      int o[4] = {sm, cfm, bp, cm};
      rc = ::sparse_jac(s->id, m, n, rep, x.data(), &nnz, &ri, &ci, &va, o);
    }
    if (rc < 0) return rc;
    if (own && (ri != ri0 || ci != ci0 || va != va0)) bad = "the buffers of the caller were not used";
    v.assign(seen.size(), 0.0);
    cnt = nnz;
    for (int i = 0; i < nnz; ++i) put(seen, v, ri[i], ci[i], va[i]);
    return rc;
  });
  if (wrongmem == 1) { e.may_fail = true; ++cov["sparse:wrong-size"]; }
  if (wrongmem == 2) e.may_fail = true; // the new pattern may have another size
  bool sw = false;
  if (s->complete) {
    std::vector<VL> D;
    const bool wide = hess && n > 24;
    bool have;
    VL hw;
    if (wide) { // the product with a vector
      std::vector<VD> X(static_cast<size_t>(n), VD(1, 0.0));
      for (int j = 0; j < n; ++j) X[static_cast<size_t>(j)][0] = 1 + 0.25 * static_cast<double>(hcomb(pt, static_cast<uint64_t>(j)) % 5);
      RefOut r = ref(*s, x, &X, 1, true);
      e.add(r, true);
      sw = r.branch_switch;
      have = !sw;
      const auto &q = r.y[0].g;
      hw.assign(static_cast<size_t>(n), 0);
      for (size_t i = 0; i < q.size() && i < static_cast<size_t>(n); ++i) hw[i] = q[i].c[1];
      if (g.ok && !g.v.empty()) {
        VD w(static_cast<size_t>(n), 0.0);
        for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w.size(); ++j) w[i] += g.v[i * w.size() + j] * X[j][0];
        g.v = w;
      }
    } else have = needed(*s, x, hess, D, e, sw);
    e.rc_sign = sw ? -1 : 1;
    if (e.margin < 1e-6L || !(e.scale < 1e300L)) e.rc_sign = 0;
    if (have && wide) { e.v.push_back(hw); e.check = true; }
    else if (have) { VL w; for (auto &r : D) for (LD q : r) w.push_back(q); e.v.push_back(w); e.check = true; }
    if (sw) e.may_fail = true;
    if (e.margin < 1e-6L && hess) e.may_fail = true;
    // a pattern for other decisions need not be valid here
    if (rep && decides(s->prog) && (!C.have || (C.tight && (C.pt != pt || C.par != s->par)))) e.check = false;
    if (s->prog.has(O_FPI)) e.tol = 1e-6L;
    if (rep) ++cov["sparse:repeat"];
  }
  if (hess && cfm < 2) ++cov["sparse:new"];
  if (g.ok && !bad.empty()) violate("entries:" + k, bad);
  const bool fine = judge(s, k, g, e);
  if (g.ok) {
    if (!rep) { C.have = true; C.maybe = false; C.foreign = false; C.tight = tight; C.cm = cm; C.rm = rm; C.pt = pt; C.par = s->par; }
    if (fine) C.last = cnt;
    if (rep && !C.have) C.maybe = true;
  } else if (!rep) { C.maybe = C.maybe || C.have; C.have = false; C.maybe = true; C.cm = cm; C.rm = rm; C.tight = tight; C.pt = pt; C.par = s->par; }
  s->alt.clear();
  s->ts = TayState();
  s->ts.kind = 3;
}
