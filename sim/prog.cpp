#include "prog.h"
#include "ext.h"
#include <algorithm>

thread_local RefCtl RC{0, 0, 0, 1e30L, 1e30L};

static const char *NAMES[O_COUNT] = {
    "const", "copy", "add", "sub", "mul", "div", "addc", "subc", "csub", "mulc", "divc", "cdiv", "neg", "pos", "inc", "dec",
    "exp", "log", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh",
    "asinh", "acosh", "atanh", "erf", "erfc", "powc", "cpow", "pow", "atan2", "ldexp",
    "fabs", "ceil", "floor", "fmin", "fmax", "cond", "cond2", "condeq", "condeq2", "cmp",
    "eqprod", "eqmprod", "dot", "axpy", "vcopy", "subscr", "subref", "churn", "par", "ext", "cpl", "fpi", "throw", "nop"};
const char *op_name(int op) { return NAMES[op]; }
int op_code(const std::string &s) {
  for (int i = 0; i < O_COUNT; ++i) if (s == NAMES[i]) return i;
  return O_NOP;
}

std::string prog_text(const Prog &p) {
  std::string o;
  for (size_t i = 0; i < p.outs.size(); ++i) o += fmt("%s%d", i ? "," : "", p.outs[i]);
  std::string r = fmt("prog id=%d n=%d m=%d K=%d npar=%d outs=%s\n", p.id, p.n, p.m, p.K, p.npar, o.c_str());
  for (auto &i : p.ins)
    r += fmt("ins id=%d %s d=%d s=%d t=%d u=%d v=%d k=%d c=%.17g\n", p.id, NAMES[i.op], i.d, i.s, i.t, i.u, i.v, i.k, i.c);
  return r;
}
bool add_prog_line(std::map<int, Prog> &ps, const Line &L) {
  if (L.word(0) == "prog") {
    Prog p;
    p.id = L.i("id"); p.n = L.i("n", 1); p.m = L.i("m", 1); p.K = L.i("K", 4); p.npar = L.i("npar");
    std::string o = L.s("outs");
    size_t i = 0;
    while (i < o.size()) { p.outs.push_back(atoi(o.c_str() + i)); size_t j = o.find(',', i); if (j == std::string::npos) break; i = j + 1; }
    p.ok = p.n >= 1 && p.m >= 1 && p.K >= p.n && static_cast<int>(p.outs.size()) == p.m;
    for (int q : p.outs) if (q < 0 || q >= p.K) p.ok = false;
    ps[p.id] = p;
    return true;
  }
  if (L.word(0) == "ins") {
    auto it = ps.find(L.i("id"));
    if (it == ps.end()) return true;
    Prog &p = it->second;
    Ins i;
    i.op = op_code(L.word(1));
    auto sl = [&](const char *k) { int q = L.i(k); return q < 0 ? 0 : q % p.K; };
    i.d = sl("d"); i.s = sl("s"); i.t = sl("t"); i.u = sl("u");
    i.v = L.i("v"); i.k = L.i("k"); i.c = L.f("c");
    p.ins.push_back(i);
    return true;
  }
  return false;
}
bool Prog::smooth_ops_only() const {
  for (auto &i : ins)
    if ((i.op >= O_FABS && i.op <= O_CMP) || i.op == O_SUBSCR || i.op == O_SUBREF) return false;
  return true;
}

// defined in the library, declared by none of its headers
adouble adolc_vec_dot(const adouble *const, const adouble *const, size_t);
/* ------------------------------------------------------------------ adouble execution */
typedef adouble AD;
static inline AD cp(const AD &a) { return AD(a); } // an rvalue holding a copy

template <class F> static AD un(int v, const AD &a, F f) { return (v & 1) ? f(cp(a)) : f(a); }

static bool cmp_ad(int k, const AD &a, const AD &b) {
  switch (k % 6) {
  case 0: return a < b;
  case 1: return a <= b;
  case 2: return a > b;
  case 3: return a >= b;
  case 4: return a == b;
  default: return a != b;
  }
}
static bool cmp_adc(int k, const AD &a, double b, bool left) {
  if (left) switch (k % 6) {
    case 0: return b < a;
    case 1: return a >= b; // operator<=(double, adouble) is declared but not defined in the library
    case 2: return b > a;
    case 3: return b >= a;
    case 4: return a == b; // likewise
    default: return b != a;
    }
  switch (k % 6) {
  case 0: return a < b;
  case 1: return a <= b;
  case 2: return a > b;
  case 3: return a >= b;
  case 4: return a == b;
  default: return a != b;
  }
}

static void step_ad(const Ins &I, std::vector<AD> &a, std::vector<std::unique_ptr<pdouble>> &par, RecEnv &e, int idx) {
  const int v = I.v;
  AD &D = a[static_cast<size_t>(I.d)];
  const AD &S = a[static_cast<size_t>(I.s)];
  const AD &T = a[static_cast<size_t>(I.t)];
  const AD &U = a[static_cast<size_t>(I.u)];
  const double c = I.c;
  switch (I.op) {
  case O_CONST: if (v == 1) D = AD(c); else D = c; break;
  case O_COPY: if (v == 1) D = cp(S); else if (v == 2) { AD q(S); D = std::move(q); } else D = S; break;
  case O_ADD:
    switch (v % 6) { case 0: D = S + T; break; case 1: D = cp(S) + T; break; case 2: D = S + cp(T); break; case 3: D = cp(S) + cp(T); break; case 4: D += T; break; default: D += cp(T); } break;
  case O_SUB:
    switch (v % 6) { case 0: D = S - T; break; case 1: D = cp(S) - T; break; case 2: D = S - cp(T); break; case 3: D = cp(S) - cp(T); break; case 4: D -= T; break; default: D -= cp(T); } break;
  case O_MUL:
    switch (v % 5) { case 0: D = S * T; break; case 1: D = cp(S) * T; break; case 2: D = S * cp(T); break; case 3: D = cp(S) * cp(T); break; default: D *= T; } break;
  case O_DIV: {
    AD q = T * T + 0.8;
    switch (v % 6) { case 0: D = S / q; break; case 1: D = cp(S) / q; break; case 2: D = S / std::move(q); break; case 3: D = cp(S) / std::move(q); break; case 4: D /= q; break; default: D /= std::move(q); } break;
  }
  case O_ADDC: switch (v % 5) { case 0: D = S + c; break; case 1: D = cp(S) + c; break; case 2: D = c + S; break; case 3: D = c + cp(S); break; default: D += c; } break;
  case O_SUBC: switch (v % 3) { case 0: D = S - c; break; case 1: D = cp(S) - c; break; default: D -= c; } break;
  case O_CSUB: if (v & 1) D = c - cp(S); else D = c - S; break;
  case O_MULC: switch (v % 5) { case 0: D = S * c; break; case 1: D = cp(S) * c; break; case 2: D = c * S; break; case 3: D = c * cp(S); break; default: D *= c; } break;
  case O_DIVC: switch (v % 3) { case 0: D = S / c; break; case 1: D = cp(S) / c; break; default: D /= c; } break;
  case O_CDIV: { AD q = T * T + 0.8; if (v & 1) D = c / std::move(q); else D = c / q; break; }
  case O_NEG: if (v & 1) D = -cp(S); else D = -S; break;
  case O_POS: if (v & 1) D = +cp(S); else D = +S; break;
  case O_INC: if (v & 1) { AD q(D++); } else ++D; break;
  case O_DEC: if (v & 1) { AD q(D--); } else --D; break;
#define UN(f, arg) { if (v & 1) { AD q = arg; D = f(std::move(q)); } else { AD q = arg; D = f(q); } break; }
  case O_EXP: UN(exp, S * 0.3)
  case O_LOG: UN(log, S * S + 0.7)
  case O_LOG10: UN(log10, S * S + 0.7)
  case O_SQRT: UN(sqrt, S * S + 0.6)
  case O_CBRT: UN(cbrt, S * S + 0.5)
  case O_SIN: D = un(v, S, [](auto &&q) { return sin(std::forward<decltype(q)>(q)); }); break;
  case O_COS: D = un(v, S, [](auto &&q) { return cos(std::forward<decltype(q)>(q)); }); break;
  case O_TAN: UN(tan, sin(S) * 0.5)
  case O_ASIN: UN(asin, sin(S) * 0.7)
  case O_ACOS: UN(acos, sin(S) * 0.7)
  case O_ATAN: D = un(v, S, [](auto &&q) { return atan(std::forward<decltype(q)>(q)); }); break;
  case O_SINH: UN(sinh, sin(S))
  case O_COSH: UN(cosh, sin(S))
  case O_TANH: UN(tanh, sin(S))
  case O_ASINH: D = un(v, S, [](auto &&q) { return asinh(std::forward<decltype(q)>(q)); }); break;
  case O_ACOSH: UN(acosh, S * S + 1.5)
  case O_ATANH: UN(atanh, sin(S) * 0.6)
  case O_ERF: D = un(v, S, [](auto &&q) { return erf(std::forward<decltype(q)>(q)); }); break;
  case O_ERFC: D = un(v, S, [](auto &&q) { return erfc(std::forward<decltype(q)>(q)); }); break;
  case O_POWC: { AD q = S * S + 0.6; if (v & 1) D = pow(std::move(q), c); else D = pow(q, c); break; }
  case O_CPOW: { AD q = sin(S); D = pow(c, q); break; }
  case O_POW: { AD q = S * S + 0.6; AD w = sin(T) * 0.4 + 1.1; D = pow(q, w); break; }
  case O_ATAN2: { AD q = S * 0.5 + 0.3; AD w = T * T + 0.7; D = atan2(q, w); break; }
  case O_LDEXP: if (v & 1) D = ldexp(cp(S), I.k); else D = ldexp(S, I.k); break;
  case O_FABS: e.aux.push_back(S.value() < 0 ? 0.0 : 1.0); D = un(v, S, [](auto &&q) { return fabs(std::forward<decltype(q)>(q)); }); break;
  case O_CEIL: e.aux.push_back(std::ceil(S.value())); D = un(v, S, [](auto &&q) { return ceil(std::forward<decltype(q)>(q)); }); break;
  case O_FLOOR: e.aux.push_back(std::floor(S.value())); D = un(v, S, [](auto &&q) { return floor(std::forward<decltype(q)>(q)); }); break;
  case O_FMIN:
    if (v >= 4) {
      e.aux.push_back(v % 2 ? (c < S.value() ? 0.0 : 1.0) : (S.value() < c ? 0.0 : 1.0));
      if (v % 2) D = fmin(S, c); else D = fmin(c, S);
      break;
    }
    e.aux.push_back(T.value() < S.value() ? 0.0 : 1.0);
    switch (v % 4) { case 0: D = fmin(S, T); break; case 1: D = fmin(cp(S), T); break; case 2: D = fmin(S, cp(T)); break; default: D = fmin(cp(S), cp(T)); }
    break;
  case O_FMAX:
    if (v >= 4) {
      e.aux.push_back(v % 2 ? (c > S.value() ? 0.0 : 1.0) : (S.value() > c ? 0.0 : 1.0));
      if (v % 2) D = fmax(S, c); else D = fmax(c, S);
      break;
    }
    e.aux.push_back(T.value() > S.value() ? 0.0 : 1.0);
    switch (v % 4) { case 0: D = fmax(S, T); break; case 1: D = fmax(cp(S), T); break; case 2: D = fmax(S, cp(T)); break; default: D = fmax(cp(S), cp(T)); }
    break;
  case O_COND: e.aux.push_back(S.value()); condassign(D, S, T, U); break;
  case O_COND2: e.aux.push_back(S.value()); condassign(D, S, T); break;
  case O_CONDEQ: e.aux.push_back(S.value()); condeqassign(D, S, T, U); break;
  case O_CONDEQ2: e.aux.push_back(S.value()); condeqassign(D, S, T); break;
  case O_CMP: {
    bool b = v == 0 ? cmp_ad(I.k, S, T) : v == 1 ? cmp_adc(I.k, S, c, false) : cmp_adc(I.k, S, c, true);
    e.branches.push_back(b ? 1 : 0);
    if (b) D = D * 1.25; else D = D + 0.5;
    break;
  }
  case O_EQPROD: if (v & 1) { AD q = S * T; D += q; } else D += S * T; break;
  case O_EQMPROD: if (v & 1) { AD q = S * T; D -= q; } else D -= S * T; break;
  case O_DOT: case O_AXPY: case O_VCOPY: case O_SUBSCR: case O_SUBREF: {
    const size_t k = static_cast<size_t>(2 + (I.k < 0 ? 0 : I.k % 7));
    advector x(k), y(k);
    for (size_t j = 0; j < k; ++j) {
      x[j] = a[(static_cast<size_t>(I.s) + j) % a.size()];
      AD yj = a[(static_cast<size_t>(I.t) + 2 * j) % a.size()] * 0.5;
      y[j] = yj; // a copy: moving would take over the location of the temporary
    }
    if (I.op == O_DOT) {
      const adouble *px = x.operator adouble *(), *py = y.operator adouble *();
      D = adolc_vec_dot(px, py, k);
    } else if (I.op == O_AXPY) {
      advector z(k); // with contents that are used before they are overwritten
      for (size_t j = 0; j < k; ++j) z[j] = x[k - 1 - j];
      AD old = z[0] * z[k - 1] * 0.25;
      adolc_vec_axpy(z.operator adouble *(), U, x.operator adouble *(), y.operator adouble *(), k);
      D = z[static_cast<size_t>(v) % k] + old;
    } else if (I.op == O_VCOPY) {
      advector z(k);
      for (size_t j = 0; j < k; ++j) z[j] = x[k - 1 - j];
      AD old = z[0] * z[k - 1] * 0.25;
      adolc_vec_copy(z.operator adouble *(), x.operator adouble *(), k);
      D = z[static_cast<size_t>(v) % k] + z[k - 1] + old;
    } else {
      AD ix = AD(static_cast<double>(static_cast<size_t>(v) % k));
      if (I.op == O_SUBSCR) {
        D = static_cast<const advector &>(x)[ix];
      } else {
        AD src = U;
        switch (v % 9) {
        case 0: x[ix] = src; break;
        case 1: x[ix] = c; break;
        case 2: x[ix] += src; break;
        case 3: x[ix] -= src; break;
        case 4: x[ix] *= src; break;
        case 5: x[ix] += c; break;
        case 6: x[ix] *= c; break;
        case 7: ++x[ix]; break;
        default: x[ix] -= c; break;
        }
        AD acc = 0.0;
        for (size_t j = 0; j < k; ++j) acc += x[j] * static_cast<double>(j + 1);
        D = acc;
      }
    }
    break;
  }
  case O_CHURN: {
    std::vector<AD> tmp;
    const int k = 1 + (I.k < 0 ? 0 : I.k % 40);
    for (int j = 0; j < k; ++j) tmp.emplace_back(S * (0.25 + j * 0.01));
    AD acc = 0.0;
    for (int j = 0; j < k; ++j) acc += tmp[static_cast<size_t>(j)];
    D = acc / static_cast<double>(k);
    break;
  }
  case O_PAR: {
    if (par.empty()) break;
    const pdouble &p = *par[static_cast<size_t>(I.k < 0 ? 0 : I.k) % par.size()];
    switch (v % 9) {
    case 0: D = S + p; break;
    case 1: D = S - p; break;
    case 2: D = S * p; break;
    case 3: D = p * S; break;
    case 4: D += p; break;
    case 5: D *= p; break;
    case 6: D = AD(p); break;
    case 7: D = p - S; break;
    default: D -= p; break;
    }
    break;
  }
  case O_EXT: if (e.ext) ext_record(e, I, a, e.ext_ord++); break;
  case O_CPL: if (e.ext) cpl_record(e, I, a); break;
  case O_FPI: if (e.ext) fpi_record(e, I, a); break;
  case O_THROW: throw UserThrow{idx};
  default: break;
  }
}

void run_ad(const Prog &p, RecEnv &e) {
  std::vector<std::unique_ptr<pdouble>> par;
  std::vector<AD> own;
  std::vector<AD> *a = e.preslots;
  if (!a) {
    own.reserve(static_cast<size_t>(p.K));
    for (int i = 0; i < p.K; ++i) own.emplace_back();
    a = &own;
  }
  for (int i = 0; i < p.n; ++i) (*a)[static_cast<size_t>(i)] <<= e.x[i];
  for (int i = 0; i < p.npar; ++i) par.push_back(std::make_unique<pdouble>(e.par[i]));
  for (size_t i = 0; i < p.ins.size(); ++i) {
    if (e.hook) e.hook(static_cast<int>(i));
    if (static_cast<int>(i) == e.throw_at) throw UserThrow{static_cast<int>(i)};
    step_ad(p.ins[i], *a, par, e, static_cast<int>(i));
  }
  e.y.assign(static_cast<size_t>(p.m), 0.0);
  // one variable may be declared dependent only once: hand out copies
  for (int j = 0; j < p.m; ++j) {
    AD out = (*a)[static_cast<size_t>(p.outs[static_cast<size_t>(j)])];
    out >>= e.y[static_cast<size_t>(j)];
  }
}

/* ------------------------------------------------------------------ reference execution */
void ref_decision(LD m) { m = fabsl(m); if (m < RC.margin) RC.margin = m; if (m < RC.kink) RC.kink = m; }
static void mind(int &rc, int v) { if (v < rc) rc = v; }
void run_ref(const RefIn &in, RefOut &out, std::vector<double> *auxout) {
  const Prog &p = *in.p;
  RC.d = in.d;
  RC.n = in.xn > 0 ? in.xn : p.n;
  RC.scale = 0;
  RC.margin = RC.kink = 1e30L;
  std::vector<Dual> a(static_cast<size_t>(p.K));
  for (size_t i = 0; i < a.size(); ++i) a[i] = Dual(in.init.empty() ? 0.0 : in.init[i]);
  for (int i = 0; i < p.n; ++i) {
    Dual q;
    if (in.xd) q = (*in.xd)[static_cast<size_t>(i)]; else q.v = in.x[static_cast<size_t>(i)];
    q.ex = true;
    if (in.grad && !in.xd) { q.g.resize(static_cast<size_t>(p.n)); q.g[static_cast<size_t>(i)] = sone(); }
    a[static_cast<size_t>(i)] = q;
  }
  size_t bi = 0, ai = 0;
  auto marg = [&](LD m, bool ex = false) { if (!ex && fabsl(m) < RC.margin) RC.margin = fabsl(m); if (fabsl(m) < RC.kink) RC.kink = fabsl(m); };
  auto v0 = [](const Dual &q) { return q.v.c[0]; };
  auto aux = [&](double now) { if (auxout) auxout->push_back(now); double r = (in.aux && ai < in.aux->size()) ? (*in.aux)[ai] : now; ++ai; return r; };
  for (const Ins &I : p.ins) {
    const int v = I.v;
    const double c = I.c;
    Dual &D = a[static_cast<size_t>(I.d)];
    const Dual S = a[static_cast<size_t>(I.s)], T = a[static_cast<size_t>(I.t)], U = a[static_cast<size_t>(I.u)];
    switch (I.op) {
    case O_CONST: D = Dual(c); break;
    case O_COPY: D = S; break;
    case O_ADD: D = (v % 6 >= 4 ? D : S) + T; break;
    case O_SUB: D = (v % 6 >= 4 ? D : S) - T; break;
    case O_MUL: D = (v % 5 >= 4 ? D : S) * T; break;
    case O_DIV: D = (v % 6 >= 4 ? D : S) / (T * T + 0.8); break;
    case O_ADDC: D = (v % 5 == 4 ? D : S) + c; break;
    case O_SUBC: D = (v % 3 == 2 ? D : S) - c; break;
    case O_CSUB: D = c - S; break;
    case O_MULC: D = (v % 5 == 4 ? D : S) * c; break;
    case O_DIVC: D = (v % 3 == 2 ? D : S) / c; break;
    case O_CDIV: D = c / (T * T + 0.8); break;
    case O_NEG: D = -S; break;
    case O_POS: D = S; break;
    case O_INC: D = D + 1.0; break;
    case O_DEC: D = D - 1.0; break;
    case O_EXP: D = rf::exp(S * 0.3); break;
    case O_LOG: D = rf::log(S * S + 0.7); break;
    case O_LOG10: D = rf::log(S * S + 0.7) * Dual(1.0) / Dual(std::log(10.0)); break;
    case O_SQRT: D = rf::sqrt(S * S + 0.6); break;
    case O_CBRT: D = rf::cbrt(S * S + 0.5); break;
    case O_SIN: D = rf::sin(S); break;
    case O_COS: D = rf::cos(S); break;
    case O_TAN: D = rf::tan(rf::sin(S) * 0.5); break;
    case O_ASIN: D = rf::asin(rf::sin(S) * 0.7); break;
    case O_ACOS: D = rf::acos(rf::sin(S) * 0.7); break;
    case O_ATAN: D = rf::atan(S); break;
    case O_SINH: D = rf::sinh(rf::sin(S)); break;
    case O_COSH: D = rf::cosh(rf::sin(S)); break;
    case O_TANH: D = rf::tanh(rf::sin(S)); break;
    case O_ASINH: D = rf::asinh(S); break;
    case O_ACOSH: D = rf::acosh(S * S + 1.5); break;
    case O_ATANH: D = rf::atanh(rf::sin(S) * 0.6); break;
    case O_ERF: D = rf::erf(S); break;
    case O_ERFC: D = rf::erfc(S); break;
    case O_POWC: D = rf::pow(S * S + 0.6, c); break;
    case O_CPOW: D = rf::exp(rf::sin(S) * std::log(c)); break;
    case O_POW: D = rf::exp((rf::sin(T) * 0.4 + 1.1) * rf::log(S * S + 0.6)); break;
    case O_ATAN2: out.rc_loose = true; marg(v0(S) * 0.5L + 0.3L); D = rf::atan((S * 0.5 + 0.3) / (T * T + 0.7)); break;
    case O_LDEXP: D = S * std::ldexp(1.0, I.k); break;
    case O_FABS: {
      marg(v0(S), S.ex);
      double rec = aux(v0(S) < 0 ? 0.0 : 1.0);
      if (v0(S) < 0 && rec != 0.0) mind(out.rc, 2);
      if (v0(S) > 0 && rec == 0.0) mind(out.rc, 2);
      if (v0(S) == 0) mind(out.rc, 1);
      D = v0(S) < 0 ? -S : S;
      break;
    }
    case O_CEIL: case O_FLOOR: {
      LD q = I.op == O_CEIL ? ceill(v0(S)) : floorl(v0(S));
      marg(v0(S) - roundl(v0(S)), S.ex);
      if (aux(static_cast<double>(q)) != static_cast<double>(q)) mind(out.rc, 2);
      D = Dual(static_cast<double>(q));
      break;
    }
    case O_FMIN: case O_FMAX: {
      Dual A = S, B = T;
      if (v >= 4) { if (v % 2) B = Dual(c); else { A = Dual(c); B = S; } }
      marg(v0(A) - v0(B), A.ex && B.ex);
      bool sel = I.op == O_FMIN ? v0(B) < v0(A) : v0(B) > v0(A);
      double now = sel ? 0.0 : 1.0;
      if (v >= 4 && v % 2 == 0) { // recorded as fmin(c, S)
        now = (I.op == O_FMIN ? v0(S) < static_cast<LD>(c) : v0(S) > static_cast<LD>(c)) ? 0.0 : 1.0;
      }
      double rec = aux(now);
      if (v0(A) == v0(B)) { if (I.s == I.t) out.rc_loose = true; else mind(out.rc, 1); }
      else if (rec != now) mind(out.rc, 2);
      D = sel ? B : A;
      break;
    }
    case O_COND: case O_COND2: case O_CONDEQ: case O_CONDEQ2: {
      marg(v0(S), S.ex);
      double now = static_cast<double>(v0(S)), rec = aux(now);
      bool eq = I.op == O_CONDEQ || I.op == O_CONDEQ2, two = I.op == O_COND || I.op == O_CONDEQ;
      bool first = eq ? now >= 0 : now > 0, rfirst = eq ? rec >= 0 : rec > 0;
      if (first && !rfirst) mind(out.rc, 2);
      if (!first && rfirst) { if (two) mind(out.rc, 2); else out.rc_loose = true; }
      if (!eq && now == 0) mind(out.rc, 0);
      if (first) D = T; else if (two) D = U;
      break;
    }
    case O_CMP: {
      LD l = v0(S), r = v == 0 ? v0(T) : static_cast<LD>(c);
      if (v == 2) std::swap(l, r);
      marg(l - r, S.ex && (v != 0 || T.ex));
      bool b;
      switch (I.k % 6) { case 0: b = l < r; break; case 1: b = l <= r; break; case 2: b = l > r; break; case 3: b = l >= r; break; case 4: b = l == r; break; default: b = l != r; }
      out.branches.push_back(b);
      bool use = b;
      if (in.branches && bi < in.branches->size()) {
        bool rec = (*in.branches)[bi] != 0;
        if (rec != b) { out.branch_switch = true; use = in.follow_switch ? b : rec; out.rc = -1; }
        else if (l == r && out.rc >= 0) mind(out.rc, 0);
      }
      ++bi;
      D = use ? D * 1.25 : D + 0.5;
      break;
    }
    case O_EQPROD: D = D + S * T; break;
    case O_EQMPROD: D = D - S * T; break;
    case O_DOT: case O_AXPY: case O_VCOPY: case O_SUBSCR: case O_SUBREF: {
      const size_t k = static_cast<size_t>(2 + (I.k < 0 ? 0 : I.k % 7));
      std::vector<Dual> x(k), y(k);
      for (size_t j = 0; j < k; ++j) {
        x[j] = a[(static_cast<size_t>(I.s) + j) % a.size()];
        y[j] = a[(static_cast<size_t>(I.t) + 2 * j) % a.size()] * 0.5;
      }
      const size_t w = static_cast<size_t>(v) % k;
      if (I.op == O_DOT) { Dual acc(0.0); for (size_t j = 0; j < k; ++j) acc = acc + x[j] * y[j]; D = acc; }
      else if (I.op == O_AXPY) D = U * x[w] + y[w] + x[k - 1] * x[0] * 0.25;
      else if (I.op == O_VCOPY) D = x[w] + x[k - 1] + x[k - 1] * x[0] * 0.25;
      else if (I.op == O_SUBSCR) D = x[w];
      else {
        switch (v % 9) {
        case 0: x[w] = U; break;
        case 1: x[w] = Dual(c); break;
        case 2: x[w] = x[w] + U; break;
        case 3: x[w] = x[w] - U; break;
        case 4: x[w] = x[w] * U; break;
        case 5: x[w] = x[w] + c; break;
        case 6: x[w] = x[w] * c; break;
        case 7: x[w] = x[w] + 1.0; break;
        default: x[w] = x[w] - c; break;
        }
        Dual acc(0.0);
        for (size_t j = 0; j < k; ++j) acc = acc + x[j] * static_cast<double>(j + 1);
        D = acc;
      }
      break;
    }
    case O_CHURN: {
      const int k = 1 + (I.k < 0 ? 0 : I.k % 40);
      Dual acc(0.0);
      for (int j = 0; j < k; ++j) acc = acc + S * (0.25 + j * 0.01);
      D = acc / static_cast<double>(k);
      break;
    }
    case O_PAR: {
      if (in.par.empty()) break;
      double q = in.par[static_cast<size_t>(I.k < 0 ? 0 : I.k) % in.par.size()];
      switch (v % 9) {
      case 0: D = S + q; break;
      case 1: D = S - q; break;
      case 2: case 3: D = S * q; break;
      case 4: D = D + q; break;
      case 5: D = D * q; break;
      case 6: D = Dual(q); break;
      case 7: D = q - S; break;
      default: D = D - q; break;
      }
      break;
    }
    case O_EXT: ext_ref(I, a); break;
    case O_CPL: cpl_ref(I, a); break;
    case O_FPI: fpi_ref(I, a); break;
    default: break;
    }
    switch (I.op) { case O_EXT: case O_CPL: case O_FPI: case O_DOT: case O_AXPY: case O_VCOPY: case O_SUBSCR: case O_SUBREF: case O_CHURN: case O_LDEXP: a[static_cast<size_t>(I.d)].ex = false; default: break; }
    note(a[static_cast<size_t>(I.d)].v);
  }
  out.y.clear();
  for (int j = 0; j < p.m; ++j) out.y.push_back(a[static_cast<size_t>(p.outs[static_cast<size_t>(j)])]);
  out.scale = RC.scale;
  out.margin = RC.margin;
  out.kink = RC.kink;
}

/* ------------------------------------------------------------------ generation */
Prog gen_prog(Rng &r, int id, const GenOpt &o) {
  Prog p;
  p.id = id;
  p.n = r.range(o.nmin, o.nmax);
  p.m = o.square ? p.n : r.range(o.mmin, o.mmax);
  p.K = p.n + r.range(2, 6);
  p.ok = true;
  if (o.params) p.npar = r.range(1, o.parmax);
  int L = r.range(o.insmin, o.insmax);
  if (r.chance(o.heavy)) L *= 3;
  // swarm: each program uses a random subset of the operation families
  std::vector<int> pool = {O_ADD, O_SUB, O_MUL, O_COPY};
  auto fam = [&](double pr, std::vector<int> ops) { if (r.chance(pr)) for (int q : ops) if (r.chance(0.8)) pool.push_back(q); };
  fam(0.7, {O_ADDC, O_SUBC, O_CSUB, O_MULC, O_DIVC, O_CONST});
  fam(0.5, {O_DIV, O_CDIV});
  fam(0.5, {O_NEG, O_POS, O_INC, O_DEC});
  fam(0.5, {O_EQPROD, O_EQMPROD, O_EQPROD, O_EQMPROD});
  if (o.nl) {
    fam(0.7, {O_EXP, O_SIN, O_COS, O_LOG, O_SQRT});
    fam(0.4, {O_LOG10, O_CBRT, O_TAN, O_ASIN, O_ACOS, O_ATAN});
    fam(0.4, {O_SINH, O_COSH, O_TANH, O_ASINH, O_ACOSH, O_ATANH, O_ERF, O_ERFC});
    fam(0.4, {O_POWC, O_CPOW, O_POW, O_ATAN2, O_LDEXP});
  }
  if (o.vec) fam(0.3, {O_DOT, O_AXPY, O_VCOPY, O_SUBSCR, O_SUBREF});
  fam(0.4, {O_CHURN});
  if (o.kinks) { fam(0.7, {O_FABS, O_FMIN, O_FMAX}); fam(0.4, {O_CEIL, O_FLOOR}); fam(0.4, {O_COND, O_COND2, O_CONDEQ, O_CONDEQ2}); }
  if (o.cmp) { pool.push_back(O_CMP); pool.push_back(O_CMP); }
  if (o.params) { pool.push_back(O_PAR); pool.push_back(O_PAR); pool.push_back(O_PAR); }
  auto one = [&](int op) {
    Ins i;
    i.op = op;
    i.d = r.chance(0.85) ? r.range(p.n, p.K - 1) : r.below(p.K);
    i.s = r.below(p.K); i.t = r.below(p.K); i.u = r.below(p.K);
    i.v = r.below(6); i.k = r.below(40);
    i.c = (r.range(3, 40) / 16.0) * (r.chance(0.3) ? -1 : 1);
    if (op == O_CONST && r.chance(0.4)) i.c = r.below(2);
    if (op == O_CPOW || op == O_DIVC) i.c = fabs(i.c);
    if (op == O_LDEXP) i.k = r.range(-2, 2);
    if (op == O_CMP) { i.v = r.below(3); i.k = r.below(6); }
    if (op == O_SUBREF || op == O_PAR) i.v = r.below(9);
    return i;
  };
  // mix every independent in early so that results depend on all of them
  for (int q = 0; q < p.n; ++q) {
    Ins i = one(r.pick(std::vector<int>{O_ADD, O_MUL, O_SUB, O_EQPROD, O_COPY}));
    i.s = q; i.t = r.below(p.n); i.v = 0;
    i.d = r.range(p.n, p.K - 1);
    p.ins.push_back(i);
  }
  int since = 0;
  for (int q = 0; q < L; ++q) {
    int op = r.pick(pool);
    Ins i = one(op);
    p.ins.push_back(i);
    if (op == O_MUL || op == O_EQPROD || op == O_EQMPROD || op == O_DOT || op == O_AXPY) ++since;
    if (since >= 2 && o.nl) { // keep magnitudes bounded
      Ins s2;
      s2.op = r.chance(0.5) ? O_SIN : O_ATAN;
      s2.d = i.d; s2.s = i.d; s2.v = r.below(2);
      p.ins.push_back(s2);
      since = 0;
    } else if (since >= 2) {
      Ins s2;
      s2.op = O_MULC; s2.d = i.d; s2.s = i.d; s2.v = 0; s2.c = 0.125;
      p.ins.push_back(s2);
      since = 0;
    }
  }
  if (o.ext || o.cpl || o.fpi) {
    auto put = [&](int op) {
      Ins i = one(op);
      i.v = op == O_EXT ? r.below(6) : op == O_CPL ? r.below(5) : r.below(3);
      i.k = r.below(op == O_CPL ? 198 : op == O_EXT ? 576 : 72);
      if (op == O_EXT && o.extk) { do { i.v = r.below(6); } while (!(o.extk & (1 << i.v))); }
      p.ins.insert(p.ins.begin() + r.range(p.n, static_cast<int>(p.ins.size())), i);
    };
    if (o.ext) { int q = r.range(1, 3); while (q--) put(O_EXT); }
    if (o.cpl) { int q = r.range(1, 2); while (q--) put(O_CPL); }
    if (o.fpi) { int q = r.range(1, 2); while (q--) put(O_FPI); }
  }
  for (int j = 0; j < p.m; ++j) p.outs.push_back(r.chance(0.9) ? r.range(p.n, p.K - 1) : r.below(p.K));
  return p;
}
