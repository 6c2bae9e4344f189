// Independent reference arithmetic: truncated Taylor series in long double (Ser) and dual numbers over
// that ring (Dual: value series plus one derivative series per independent).  Evaluating a program on
// Dual gives everything ADOL-C's forward and reverse sweeps deliver.
#pragma once
#include <cmath>
#include <vector>
typedef long double LD;
struct RefCtl {
  int d;           // degree
  int n;           // number of derivative directions carried
  LD scale;        // largest magnitude of any coefficient met
  LD margin;       // smallest distance of a decision to its switching point (decisions on exact values excepted)
  LD kink;         // the same over all decisions
};
extern thread_local RefCtl RC;
constexpr int MAXDEG = 5;
struct Ser {
  LD c[MAXDEG + 1];
  Ser() { for (auto &x : c) x = 0; }
  explicit Ser(LD v) { for (auto &x : c) x = 0; c[0] = v; }
};
inline void note(const Ser &a) {
  for (int i = 0; i <= RC.d; ++i) {
    LD m = fabsl(a.c[i]);
    if (!(m <= 1e4000L)) m = INFINITY; // NaN also lands here
    if (m > RC.scale) RC.scale = m;
  }
}
inline Ser sadd(const Ser &a, const Ser &b) { Ser r; for (int i = 0; i <= RC.d; ++i) r.c[i] = a.c[i] + b.c[i]; return r; }
inline Ser ssub(const Ser &a, const Ser &b) { Ser r; for (int i = 0; i <= RC.d; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
inline Ser smul(const Ser &a, const Ser &b) {
  Ser r;
  for (int i = 0; i <= RC.d; ++i) { LD s = 0; for (int j = 0; j <= i; ++j) s += a.c[j] * b.c[i - j]; r.c[i] = s; }
  return r;
}
inline Ser sscale(const Ser &a, LD f) { Ser r; for (int i = 0; i <= RC.d; ++i) r.c[i] = a.c[i] * f; return r; }
inline Ser sdiv(const Ser &a, const Ser &b) {
  Ser r;
  for (int i = 0; i <= RC.d; ++i) { LD s = a.c[i]; for (int j = 1; j <= i; ++j) s -= b.c[j] * r.c[i - j]; r.c[i] = s / b.c[0]; }
  return r;
}
// h(v) with h0 = h(v0) and hp = series of h'(v):  h_k = 1/k sum_{j=1..k} j v_j hp_{k-j}
inline Ser sinteg(LD h0, const Ser &hp, const Ser &v) {
  Ser r;
  r.c[0] = h0;
  for (int k = 1; k <= RC.d; ++k) { LD s = 0; for (int j = 1; j <= k; ++j) s += j * v.c[j] * hp.c[k - j]; r.c[k] = s / k; }
  return r;
}
inline Ser sexp(const Ser &v) {
  Ser r;
  r.c[0] = expl(v.c[0]);
  for (int k = 1; k <= RC.d; ++k) { LD s = 0; for (int j = 1; j <= k; ++j) s += j * v.c[j] * r.c[k - j]; r.c[k] = s / k; }
  return r;
}
inline Ser sone(LD v = 1) { return Ser(v); }
inline Ser slog(const Ser &v) { return sinteg(logl(v.c[0]), sdiv(sone(), v), v); }
inline void ssincos(const Ser &v, Ser &s, Ser &c) {
  s = Ser(sinl(v.c[0])); c = Ser(cosl(v.c[0]));
  for (int k = 1; k <= RC.d; ++k) {
    LD a = 0, b = 0;
    for (int j = 1; j <= k; ++j) { a += j * v.c[j] * c.c[k - j]; b -= j * v.c[j] * s.c[k - j]; }
    s.c[k] = a / k; c.c[k] = b / k;
  }
}
inline Ser spow(const Ser &v, LD e) { // v0 > 0
  Ser r;
  r.c[0] = powl(v.c[0], e);
  for (int k = 1; k <= RC.d; ++k) {
    LD s = 0;
    for (int j = 1; j <= k; ++j) s += (j * (e + 1) - k) * v.c[j] * r.c[k - j];
    r.c[k] = s / (k * v.c[0]);
  }
  return r;
}
struct Dual {
  Ser v;
  std::vector<Ser> g; // empty means all zero
  bool ex = false;    // the value is what double arithmetic gives, exactly
  Dual() {}
  Dual(double c) : v(static_cast<LD>(c)), ex(true) {}
};
inline bool isd(LD v) { return static_cast<LD>(static_cast<double>(v)) == v; }
inline Dual chk(Dual &&r) { note(r.v); for (auto &s : r.g) note(s); return std::move(r); }
inline Dual dlin(const Dual &a, LD fa, const Dual &b, LD fb) {
  Dual r;
  r.v = sadd(sscale(a.v, fa), sscale(b.v, fb));
  r.ex = a.ex && b.ex && isd(a.v.c[0] * fa) && isd(b.v.c[0] * fb) && isd(r.v.c[0]);
  if (!a.g.empty() || !b.g.empty()) {
    r.g.resize(static_cast<size_t>(RC.n));
    for (size_t i = 0; i < r.g.size(); ++i) {
      Ser s;
      if (!a.g.empty()) s = sadd(s, sscale(a.g[i], fa));
      if (!b.g.empty()) s = sadd(s, sscale(b.g[i], fb));
      r.g[i] = s;
    }
  }
  return chk(std::move(r));
}
inline Dual operator+(const Dual &a, const Dual &b) { return dlin(a, 1, b, 1); }
inline Dual operator-(const Dual &a, const Dual &b) { return dlin(a, 1, b, -1); }
inline Dual operator-(const Dual &a) { return dlin(a, -1, Dual(0.0), 0); }
inline Dual dchain(const Ser &h, const Ser &hp, const Dual &a) {
  Dual r;
  r.v = h;
  note(hp);
  if (!a.g.empty()) { r.g.resize(a.g.size()); for (size_t i = 0; i < a.g.size(); ++i) r.g[i] = smul(hp, a.g[i]); }
  return chk(std::move(r));
}
inline Dual operator*(const Dual &a, const Dual &b) {
  Dual r;
  r.v = smul(a.v, b.v);
  r.ex = a.ex && b.ex && isd(r.v.c[0]);
  if (!a.g.empty() || !b.g.empty()) {
    r.g.resize(static_cast<size_t>(RC.n));
    for (size_t i = 0; i < r.g.size(); ++i) {
      Ser s;
      if (!a.g.empty()) s = sadd(s, smul(a.g[i], b.v));
      if (!b.g.empty()) s = sadd(s, smul(b.g[i], a.v));
      r.g[i] = s;
    }
  }
  return chk(std::move(r));
}
inline Dual drecip(const Dual &b) {
  Ser h = sdiv(sone(), b.v);
  return dchain(h, sscale(smul(h, h), -1), b);
}
inline Dual operator/(const Dual &a, const Dual &b) {
  Dual r = a * drecip(b);
  r.v.c[0] = a.v.c[0] / b.v.c[0];
  r.ex = a.ex && b.ex && isd(r.v.c[0]);
  return r;
}
inline Dual operator*(const Dual &a, double f) { return dlin(a, f, Dual(0.0), 0); }
inline Dual operator*(double f, const Dual &a) { return a * f; }
inline Dual operator+(const Dual &a, double f) { return a + Dual(f); }
inline Dual operator+(double f, const Dual &a) { return a + Dual(f); }
inline Dual operator-(const Dual &a, double f) { return a - Dual(f); }
inline Dual operator-(double f, const Dual &a) { return Dual(f) - a; }
inline Dual operator/(const Dual &a, double f) { return a * Dual(1.0) / Dual(f); }
inline Dual operator/(double f, const Dual &a) { return Dual(f) / a; }
namespace rf {
inline Dual exp(const Dual &a) { Ser h = sexp(a.v); return dchain(h, h, a); }
inline Dual log(const Dual &a) { return dchain(slog(a.v), sdiv(sone(), a.v), a); }
inline Dual pow(const Dual &a, LD e) { return dchain(spow(a.v, e), sscale(spow(a.v, e - 1), e), a); }
inline Dual sqrt(const Dual &a) { return pow(a, 0.5L); }
inline Dual cbrt(const Dual &a) { return pow(a, 1.0L / 3.0L); }
inline Dual sin(const Dual &a) { Ser s, c; ssincos(a.v, s, c); return dchain(s, c, a); }
inline Dual cos(const Dual &a) { Ser s, c; ssincos(a.v, s, c); return dchain(c, sscale(s, -1), a); }
inline Dual tan(const Dual &a) { return sin(a) / cos(a); }
inline Dual byd(const Dual &a, LD h0, const Ser &hp) { return dchain(sinteg(h0, hp, a.v), hp, a); }
inline Dual asin(const Dual &a) { return byd(a, asinl(a.v.c[0]), spow(ssub(sone(), smul(a.v, a.v)), -0.5L)); }
inline Dual acos(const Dual &a) { return byd(a, acosl(a.v.c[0]), sscale(spow(ssub(sone(), smul(a.v, a.v)), -0.5L), -1)); }
inline Dual atan(const Dual &a) { return byd(a, atanl(a.v.c[0]), sdiv(sone(), sadd(sone(), smul(a.v, a.v)))); }
inline Dual sinh(const Dual &a) { return (exp(a) - exp(-a)) * 0.5; }
inline Dual cosh(const Dual &a) { return (exp(a) + exp(-a)) * 0.5; }
inline Dual tanh(const Dual &a) { return sinh(a) / cosh(a); }
inline Dual asinh(const Dual &a) { return byd(a, asinhl(a.v.c[0]), spow(sadd(sone(), smul(a.v, a.v)), -0.5L)); }
inline Dual acosh(const Dual &a) { return byd(a, acoshl(a.v.c[0]), spow(ssub(smul(a.v, a.v), sone()), -0.5L)); }
inline Dual atanh(const Dual &a) { return byd(a, atanhl(a.v.c[0]), sdiv(sone(), ssub(sone(), smul(a.v, a.v)))); }
inline Ser serfp(const Ser &v) { return sscale(sexp(sscale(smul(v, v), -1)), 2.0L / sqrtl(acosl(-1.0L))); }
inline Dual erf(const Dual &a) { return byd(a, erfl(a.v.c[0]), serfp(a.v)); }
inline Dual erfc(const Dual &a) { return byd(a, erfcl(a.v.c[0]), sscale(serfp(a.v), -1)); }
} // namespace rf
