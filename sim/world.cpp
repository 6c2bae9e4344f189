#include "world.h"
#include <adolc/adolc.h>
#include <algorithm>
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

double coord(uint64_t seed, int i) {
  if (seed >= 1000000) {
    uint64_t h = mix64(seed * 7 + static_cast<uint64_t>(i) * 101 + 3);
    return -2.0 + 0.5 * static_cast<double>(h % 9);
  }
  return ptval(seed, i);
}
LD fact(int k) { LD r = 1; for (int i = 2; i <= k; ++i) r *= i; return r; }
bool file_exists(const std::string &p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
uint64_t TayState::hash() const {
  uint64_t h = hcomb(static_cast<uint64_t>(kind), static_cast<uint64_t>(keep));
  for (double q : x) h = hbytes(&q, sizeof q, h);
  for (auto &d : X) for (auto &i : d) for (double q : i) h = hbytes(&q, sizeof q, h);
  return h;
}
uint64_t Slot::prog_hash() const { std::string t = prog_text(prog); uint64_t h = hbytes(t.data(), t.size()); for (double q : par) h = hbytes(&q, sizeof q, h); for (double q : x0) h = hbytes(&q, sizeof q, h); return h; }
uint64_t Slot::model_hash() const {
  uint64_t h = hcomb(ts.hash(), static_cast<uint64_t>(complete * 4 + broken * 2));
  h = hcomb(h, prog_hash());
  for (auto &a : alt) h = hcomb(h, a.hash());
  h = hcomb(h, altpar.size());
  return h;
}
World::World() {}
World::~World() {
  for (auto &s : slots) {
    if (!s.second->pre.empty()) { // variables go before the tapes they live on
      try { setCurrentTape(s.second->id); } catch (...) {}
      s.second->pre.clear();
    }
  }
}
void World::violate(const std::string &tag, const std::string &msg) {
  last_st = 'V';
  if (on_violation) on_violation(step_idx, tag, msg);
}
Got World::guard(const std::function<int(VD &)> &f) {
  Got g;
  EXTC.log.clear();
  EXTC.trouble.clear();
  cp_reset();
  try {
    LibCall lc;
    g.rc = f(g.v);
    g.ok = g.rc >= 0;
  } catch (const UserThrow &) {
    g.thrown = true;
    g.what = "user exception";
  } catch (const std::exception &e) {
    ENV.al_on = false;
    g.thrown = true;
    g.what = e.what();
    for (char &c : g.what) if (c == '\n') c = ' ';
  } catch (...) {
    g.thrown = true;
    g.what = "unknown exception";
  }
  ENV.io_on = ENV.al_on = false;
  return g;
}
void World::base_expect(Slot &s, Expect &e) {
  if (s.broken || s.huge) e.may_fail = true;
  if (s.broken) return;
  if (!s.complete) e.must_fail = true;
}
void World::spoil(Slot &s) {
  s.alt.push_back(s.ts);
  if (s.alt.size() > 3) { s.alt.clear(); s.ts = TayState(); s.ts.kind = 3; }
}
RefOut World::ref(const Slot &s, const VD &x, const std::vector<VD> *X, int d, bool grad, const VD *par, bool follow) {
  RefIn in;
  in.p = &s.prog;
  in.par = par ? *par : s.par;
  in.init = s.init;
  in.branches = &s.branches;
  in.aux = &s.aux;
  in.d = d;
  in.grad = grad;
  in.follow_switch = follow;
  for (int i = 0; i < s.prog.n; ++i) {
    Ser q(static_cast<LD>(x[static_cast<size_t>(i)]));
    if (X) for (int k = 1; k <= d; ++k) q.c[k] = static_cast<LD>((*X)[static_cast<size_t>(i)][static_cast<size_t>(k - 1)]);
    in.x.push_back(q);
  }
  RefOut o;
  run_ref(in, o);
  return o;
}
RefOut World::refd(const Slot &s, const std::vector<Dual> &x, int xn, int d) {
  RefIn in;
  in.p = &s.prog; in.par = s.par; in.init = s.init; in.branches = &s.branches; in.aux = &s.aux;
  in.d = d; in.xd = &x; in.xn = xn;
  RefOut o;
  run_ref(in, o);
  return o;
}
// true if the result was accepted as numbers
bool World::judge(Slot *s, const std::string &name, const Got &g, const Expect &e) {
  const bool fired = ENV.io_fired || ENV.al_fired;
  last_rc = g.rc;
  last_what = g.what;
  last_dig = hcomb(static_cast<uint64_t>(g.rc + 100), g.thrown ? 1 : 0);
  last_st = g.thrown ? 'E' : g.rc < 0 ? 'N' : 'o';
  ++cov["call:" + name];
  if (g.thrown) {
    ++cov["outcome:exception"];
    if (fired) { ++cov["outcome:fault-reported"]; return false; }
    if (e.must_fail || e.may_fail) return false;
    violate("fail:" + name, "call threw although nothing is wrong: " + g.what);
    return false;
  }
  if (g.rc < 0) {
    ++cov["outcome:negative"];
    if (fired) { ++cov["outcome:fault-reported"]; return false; }
    if (e.must_fail || e.may_fail || e.rc_sign < 0) return false;
    if (e.rc_sign == 0) return false;
    violate("neg:" + name, fmt("negative return code %d although every recorded comparison comes out as recorded", g.rc));
    return false;
  }
  last_dig = hbytes(g.v.data(), g.v.size() * sizeof(double), last_dig);
  if (fired) ++cov["outcome:fault-survived"];
  if (e.must_fail) { violate("nofail:" + name, fmt("call reported success (%d) although it cannot deliver a result", g.rc)); return false; }
  if (e.rc_sign < 0) { violate("switch:" + name, fmt("return code %d although a recorded comparison comes out differently", g.rc)); return false; }
  if (e.rc_exact != -100 && g.rc != e.rc_exact) { violate("rc:" + name, fmt("return code %d, expected %d", g.rc, e.rc_exact)); return false; }
  if (!e.check || e.margin < 1e-6L || !(e.scale < 1e5L)) { ++cov["numbers:not-comparable"]; return true; }
  std::string first;
  for (size_t c = 0; c < e.v.size(); ++c) {
    std::string why;
    const auto &w = e.v[c];
    if (w.size() != g.v.size()) why = fmt("%zu numbers, expected %zu", g.v.size(), w.size());
    for (size_t i = 0; why.empty() && i < w.size(); ++i) {
      if (!e.mask.empty() && !e.mask[i]) continue;
      LD got = g.v[i], t = e.tol * (1 + e.scale + fabsl(w[i]));
      if (!(fabsl(got - w[i]) <= t)) why = fmt("entry %zu is %.12g, expected %.12Lg (tolerance %.1Lg)", i, g.v[i], w[i], t);
    }
    if (why.empty()) { ++cov["numbers:compared"]; return true; }
    if (first.empty()) first = why;
  }
  if (e.v.empty()) return true;
  (void)s;
  violate("wrong:" + name, first + (fired ? " (after a fault)" : ""));
  return false;
}
bool World::exts_ok(const Slot &s, const Got &g, char dir, const char *name) {
  if (s.extseq.empty()) return true;
  ++cov["ext:checked"];
  if (!EXTC.trouble.empty()) { violate(std::string("extdata:") + name, EXTC.trouble); return false; }
  if (EXTC.fired) {
    ++cov["ext:failed-callback"];
    if (g.ok) { violate(std::string("extfail:") + name, "a callback reported failure but the evaluation reported success"); return false; }
    return true;
  }
  if (!g.ok || ENV.al_fired || ENV.io_fired || s.broken) return true;
  std::vector<std::pair<int, int>> want = s.extseq;
  if (dir == 'R') std::reverse(want.begin(), want.end());
  std::string seen;
  bool ok = EXTC.log.size() == want.size();
  for (size_t i = 0; i < EXTC.log.size(); ++i) {
    auto &c = EXTC.log[i];
    seen += fmt(" %c%d/%d", c.dir, c.key, c.ord);
    if (ok && (c.dir != dir || c.key != want[i].first || (c.ord >= 0 && c.ord != want[i].second))) ok = false;
    if (!c.ok) ok = false;
  }
  if (!ok) { violate(std::string("extorder:") + name, "external functions called:" + seen + fmt(", expected %zu calls in %s order", want.size(), dir == 'F' ? "recording" : "reversed")); return false; }
  return true;
}

/* ------------------------------------------------------------------ configuration, creation, recording */
void World::do_conf(const Line &L) {
  if (knobs.count("noconf")) { last_st = '-'; return; }
  FILE *f = fopen(".adolcrc", "w");
  if (!f) return;
  for (auto k : {"OBUFSIZE", "LBUFSIZE", "VBUFSIZE", "TBUFSIZE"}) {
    const char *key = *k == 'O' ? "o" : *k == 'L' ? "l" : *k == 'V' ? "v" : "t";
    if (L.kv.count(key)) fprintf(f, "\"%s\" \"%d\"\n", k, L.i(key));
  }
  if (L.kv.count("dir")) {
    std::string d = L.s("dir");
    if (d.find('/') == std::string::npos && d.find("..") == std::string::npos) {
      if (L.i("mk", 1)) mkdir(d.c_str(), 0755);
      fprintf(f, "\"TAPE_DIR\" \"%s\"\n", d.c_str());
    }
  }
  fclose(f);
  last_st = 'o';
}
// What the configuration file in the working directory asks for, read independently of the library.  A line
// is well formed if its first four quotation marks enclose a known key and a complete number (or an existing
// directory); it is without effect if it holds no key or no number; anything else is left open (-1, "?").
static void conf_expect(long want[4], std::string &dir, bool &huge) {
  for (int i = 0; i < 4; ++i) want[i] = 524288;
  dir = ".";
  struct stat st;
  if (stat(".adolcrc", &st) || !S_ISREG(st.st_mode)) return;
  FILE *f = fopen(".adolcrc", "r");
  if (!f) return;
  std::string all;
  char b[4096];
  size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0) all.append(b, k);
  fclose(f);
  size_t a = 0;
  while (a < all.size()) {
    size_t e = all.find('\n', a);
    std::string l = all.substr(a, e == std::string::npos ? e : e - a);
    a = e == std::string::npos ? all.size() : e + 1;
    if (l.size() >= 98 || l.find('\0') != std::string::npos) { // too long to be taken: the rest is open
      for (int i = 0; i < 4; ++i) want[i] = -1;
      dir = "?";
      return;
    }
    size_t q[4], p = 0;
    int n = 0;
    while (n < 4 && (p = l.find('"', p)) != std::string::npos) q[n++] = p++;
    if (n < 4) continue;
    const std::string key = l.substr(q[0] + 1, q[1] - q[0] - 1), val = l.substr(q[2] + 1, q[3] - q[2] - 1);
    static const char *keys[] = {"OBUFSIZE", "LBUFSIZE", "VBUFSIZE", "TBUFSIZE"};
    if (key == "TAPE_DIR") {
      if (!val.empty() && stat(val.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { dir = val; while (dir.size() > 1 && dir.back() == '/') dir.pop_back(); if (dir.compare(0, 2, "./") == 0) dir = dir.substr(2); if (dir.empty() || dir.find("//") != std::string::npos || dir.find("..") != std::string::npos) dir = "?"; }
      continue;
    }
    for (int i = 0; i < 4; ++i) if (key == keys[i]) {
      static const char *dig[] = {"0123456789", "0123456789abcdefABCDEF", "01234567"};
      int base = 10;
      std::string num = val;
      if (val.size() > 2 && val[0] == '0' && (val[1] == 'x' || val[1] == 'X')) { base = 16; num = val.substr(2); }
      else if (val.size() > 1 && val[0] == '0') { base = 8; num = val.substr(1); }
      if (!val.empty() && val.find_first_of("0123456789+- \t\v\f\r") == std::string::npos && base == 10) continue; // no number at all
      if (val.empty()) continue;
      want[i] = -1;
      if (num.find_first_not_of(dig[base == 10 ? 0 : base == 16 ? 1 : 2]) == std::string::npos && num.size() > 7) huge = true; // memory may not suffice
      if (num.find_first_not_of(dig[base == 10 ? 0 : base == 16 ? 1 : 2]) == std::string::npos && num.size() <= 8) {
        const long v = strtol(num.c_str(), nullptr, base);
        if (v >= 64 && v <= 20000000) want[i] = v;
      }
    }
  }
}
void World::do_new(const Line &L) {
  const int t = L.i("t");
  if (slots.count(t)) { last_st = '-'; return; }
  auto s = std::make_unique<Slot>();
  s->idx = t;
  std::string dir;
  conf_expect(s->want, dir, s->huge);
  Got g = guard([&](VD &) { s->id = createNewTape(); return 0; });
  Expect e;
  e.rc_sign = 1;
  judge(nullptr, "new", g, e);
  if (!g.ok) return;
  for (auto &o : slots) if (o.second->id == s->id) violate("wrong:new", "createNewTape returned an identifier that is already in use");
  if (ENV.io_fired) { for (long &q : s->want) q = -1; dir = "?"; }
  tdir[t] = dir;
  if (on_tape) on_tape(s->id, dir);
  slots[t] = std::move(s);
  cur = slots[t].get();
}
static VD pars(const Line &L, int n) { VD v; uint64_t q = L.u("par", 1); for (int i = 0; i < n; ++i) v.push_back(ptval(q + 555, i)); return v; }

bool World::record(Slot &s, const Prog &p, const Line &L, const std::string &pfx, const std::function<void(int)> &hook) {
  auto K = [&](const char *k) { return pfx + k; };
  const int keep = L.i(K("keep").c_str()), flag = L.i(K("flag").c_str()), live = L.i(K("live").c_str()), thr = L.i(K("thr").c_str(), -1);
  const VD x = pointv(L.u(K("pt").c_str(), 1), p.n);
  RecEnv e;
  VD par = pars(L, p.npar);
  std::vector<std::pair<int, int>> seq = ext_sequence(p);
  VD init;
  std::string bufs = L.s(K("b7").c_str());
  if (knobs.count("nob7")) bufs.clear();
  int phase = 0;
  if (!s.ext) s.ext = std::make_unique<ExtPool>();
  s.ext->tape = s.id;
  // live variables belong to the trace's own store
  if (live && s.pre.size() != static_cast<size_t>(p.K)) {
    bool cok = true;
    try {
      ValueTape *old = currentTapePtr();
      setCurrentTape(s.id);
      s.pre.clear();
      s.pre.reserve(static_cast<size_t>(p.K));
      for (int i = 0; i < p.K; ++i) s.pre.emplace_back();
      setCurrentTape(old);
    } catch (...) { cok = false; }
    if (!cok) { violate("fail:live", "creating variables failed"); return false; }
  }
  if (live) {
    ValueTape *old = currentTapePtr();
    setCurrentTape(s.id);
    for (int i = 0; i < p.K; ++i) { init.push_back(ptval(L.u(K("pt").c_str(), 1) + 4000, i)); s.pre[static_cast<size_t>(i)] = init.back(); }
    setCurrentTape(old);
  }
  // reference first: the recording itself must not make the reference throw
  Slot tmp;
  tmp.prog = p; tmp.par = par; tmp.init = init; tmp.id = s.id;
  RefIn in;
  in.p = &p; in.par = par; in.init = init; in.d = 0; in.grad = false;
  for (int i = 0; i < p.n; ++i) in.x.push_back(Ser(static_cast<LD>(x[static_cast<size_t>(i)])));
  RefOut ro;
  run_ref(in, ro);
  // a base that is not a number is outside the precondition of pow(adouble, adouble), and comparing
  // something that is not a number has no outcome that could be met again
  if ((p.has(O_POW) || p.has(O_CMP)) && !(ro.scale < 1e300L)) { last_st = '-'; return false; }

  e.x = x.data();
  e.par = par.data();
  e.tapeId = s.id;
  e.preslots = live ? &s.pre : nullptr;
  e.ext = s.ext.get();
  e.hook = hook;
  e.throw_at = thr < 0 ? -1 : thr % static_cast<int>(p.ins.size() + 1);
  Got g = guard([&](VD &v) {
    int rc;
    if (!bufs.empty()) {
      size_t b[4] = {64, 64, 64, 64};
      sscanf(bufs.c_str(), "%zu,%zu,%zu,%zu", &b[0], &b[1], &b[2], &b[3]);
      rc = trace_on(s.id, keep, b[0], b[1], b[2], b[3], L.i(K("sfc").c_str()));
    } else rc = trace_on(s.id, keep);
    if (rc < 0) return rc;
    phase = 1;
    EXTC.fired = 0;
    EXTC.fail_at = -1;
    run_ad(p, e);
    phase = 2;
    trace_off(flag);
    phase = 3;
    v = e.y;
    return 0;
  });
  if (phase == 1) { // the user notices and ends the recording
    Got c = guard([&](VD &) { trace_off(flag); return 0; });
    if (!c.ok) g.what += " | trace_off: " + c.what;
    phase = c.ok ? 4 : 5;
  }
  Expect ex;
  ex.rc_sign = 1;
  if (e.throw_at >= 0 && e.throw_at < static_cast<int>(p.ins.size())) ex.must_fail = true;
  if (EXTC.fired) ex.must_fail = true;
  if (s.huge) ex.may_fail = true;
  ex.check = true;
  std::vector<LD> w;
  for (auto &y : ro.y) w.push_back(y.v.c[0]);
  ex.v.push_back(w);
  ex.add(ro, false);
  if (p.has(O_FPI)) ex.tol = 1e-6L;
  // the trace now is what was recorded
  s.prog = p; s.par = par; s.x0 = x; s.init = init; s.branches = e.branches; s.aux = e.aux; s.extseq = seq;
  if (flag) s.flag |= 1;                                       // asked to keep the files
  if (!bufs.empty() && L.i(K("sfc").c_str())) s.flag |= 2;     // asked to skip the removal at process end
  s.forced = flag;
  s.skipped = !bufs.empty() && L.i(K("sfc").c_str());
  s.alt.clear(); s.altpar.clear();
  s.ts = TayState();
  if (keep) { s.ts.kind = 1; s.ts.keep = 1; s.ts.x = x; s.ts.X = {std::vector<VD>(static_cast<size_t>(p.n))}; }
  s.complete = g.ok;
  for (Slot::Sparse *q : {&s.sj, &s.sh}) { const bool f = q->have || q->maybe || q->foreign; *q = Slot::Sparse(); q->foreign = f; }
  s.broken = !g.ok;
  if (!g.ok) { s.alt.push_back(TayState()); s.alt.back().kind = 0; }
  judge(&s, pfx + "rec", g, ex);
  if (!bufs.empty()) for (long &q : s.want) q = -1; // sizes given by the call
  if (g.ok && bufs.empty() && !ENV.al_fired && !ENV.io_fired) {
    static const TapeInfos::StatEntries st[] = {TapeInfos::OP_BUFFER_SIZE, TapeInfos::LOC_BUFFER_SIZE, TapeInfos::VAL_BUFFER_SIZE, TapeInfos::TAY_BUFFER_SIZE};
    for (int i = 0; i < 4; ++i) {
      if (s.want[i] < 0) continue;
      const size_t got = findTape(s.id).tapestats(st[i]);
      if (static_cast<long>(got) != s.want[i]) violate("setting", fmt("buffer size %d is %zu, the configuration asks for %ld", i, got, s.want[i]));
      ++cov["setting:compared"];
    }
  }
  return g.ok;
}
bool World::eval_one(Slot &s, const VD &x, const char *name) {
  Expect e;
  base_expect(s, e);
  Got g = guard([&](VD &v) { v.assign(static_cast<size_t>(s.prog.m), NAN); return zos_forward(s.id, s.prog.m, s.prog.n, 0, x.data(), v.data()); });
  if (s.complete || s.broken) {
    RefOut r = ref(s, x, nullptr, 0, false);
    std::vector<LD> w;
    for (auto &y : r.y) w.push_back(y.v.c[0]);
    e.v.push_back(w);
    e.check = true;
    e.add(r, false);
    e.rc_sign = r.margin < 1e-6L || !(r.scale < 1e300L) ? 0 : r.branch_switch ? -1 : 1;
  }
  bool ok = judge(&s, name, g, e);
  return ok;
}
void World::do_rec(const Line &L) {
  Slot *s = slot(L.i("t"));
  auto pi = progs.find(L.i("p", -1));
  if (!s || pi == progs.end() || !pi->second.ok) { last_st = '-'; return; }
  cur = s;
  // something nested into the recording
  std::function<void(int)> hook;
  const int at = L.i("nat", -1);
  const std::string what = L.s("nest");
  bool outer_spoiled = false;
  if (at >= 0 && !what.empty()) {
    nested_step = true;
    const int pos = at % static_cast<int>(pi->second.ins.size());
    hook = [&, pos](int i) {
      if (i != pos) return;
      UserCode uc;
      const int fired0 = ENV.al_fired + ENV.io_fired;
      if (what == "rec") {
        Slot *o = slot(L.i("nt"));
        auto np = progs.find(L.i("np", -1));
        if (!o || o == s || np == progs.end() || !np->second.ok) return;
        ++cov["nested:rec"];
        record(*o, np->second, L, "n", {});
        // a nested recording that throws inside leaves the outer one to its user: here it goes on
      } else if (what == "eval") {
        Slot *o = slot(L.i("nt"));
        if (!o || o == s) return;
        ++cov["nested:eval"];
        eval_one(*o, pointv(L.u("npt", 1), o->prog.n), "nested-zos");
      } else if (what == "selfeval") { // evaluation of the trace being recorded must be refused
        ++cov["nested:selfeval"];
        VD y(static_cast<size_t>(pi->second.m));
        VD xx = pointv(5, pi->second.n);
        Got g = guard([&](VD &) { return zos_forward(s->id, pi->second.m, pi->second.n, 0, xx.data(), y.data()); });
        if (g.ok && !(ENV.al_fired + ENV.io_fired - fired0)) violate("nofail:selfeval", "evaluating a trace while it is being recorded reported success");
      } else if (what == "selfon") { // a second trace_on of the trace being recorded must be refused
        ++cov["nested:selfon"];
        Got g = guard([&](VD &) { trace_on(s->id); return 0; });
        if (g.ok && !(ENV.al_fired + ENV.io_fired - fired0)) violate("nofail:selfon", "trace_on of a trace that is being recorded reported success");
        outer_spoiled = true;
      } else if (what == "newtape") {
        ++cov["nested:newtape"];
        Got g = guard([&](VD &) { createNewTape(); return 0; });
        if (!g.ok && !(ENV.al_fired + ENV.io_fired - fired0)) violate("fail:newtape", "createNewTape during a recording failed: " + g.what);
      }
      ENV.io_on = ENV.al_on = true; // back in the recording
      last_st = 'o';
    };
  }
  record(*s, pi->second, L, "", hook);
  if (outer_spoiled && s->complete) { /* the refused call must leave the recording intact */ }
}

/* ------------------------------------------------------------------ forward sweeps */
static std::vector<VD> taylors(uint64_t seed, int n, int d) {
  std::vector<VD> X(static_cast<size_t>(n), VD(static_cast<size_t>(d)));
  for (int i = 0; i < n; ++i) for (int k = 0; k < d; ++k) X[static_cast<size_t>(i)][static_cast<size_t>(k)] = ptval(seed + 77, i * 16 + k) / (k + 1);
  return X;
}
void World::do_fwd(const Line &L, const std::string &n) {
  Slot *s = slot(L.i("t"));
  if (!s) { last_st = '-'; return; }
  cur = s;
  const int m = s->prog.m, nn = s->prog.n;
  const VD x = pointv(L.u("pt", 1), nn);
  int d = L.i("d", 1), p = L.i("p", 1), keep = L.i("keep");
  if (n == "zos") d = 0;
  if (n == "fos" || n == "fov") d = 1;
  if (n == "zos" || n == "fos" || n == "hos") p = 1;
  if (n == "fov" || n == "hov") keep = 0;
  if (d < 0 || d > 4 || (n != "zos" && d < 1) || p < 1 || p > 5) { last_st = '-'; return; }
  if (keep < 0 || keep > d + 1) keep = d + 1;
  std::vector<std::vector<VD>> X; // [dir][i][k]
  for (int q = 0; q < p; ++q) X.push_back(taylors(L.u("xs", 1) + static_cast<uint64_t>(q) * 1000, nn, d));
  EXTC.calls = 0; EXTC.fired = 0; EXTC.fail_at = L.i("cbf", -1); EXTC.fail_mode = L.i("cbm", 0);
  const int api = L.i("api");
  Got g = guard([&](VD &v) {
    int rc = -99;
    if (n == "zos") {
      v.assign(static_cast<size_t>(m), NAN);
      rc = zos_forward(s->id, m, nn, keep, x.data(), v.data());
    } else if (n == "fos") {
      VD X1; for (int i = 0; i < nn; ++i) X1.push_back(X[0][static_cast<size_t>(i)][0]);
      VD Y(static_cast<size_t>(m), NAN);
      v.assign(static_cast<size_t>(m), NAN);
      rc = fos_forward(s->id, m, nn, keep, x.data(), X1.data(), v.data(), Y.data());
      v.insert(v.end(), Y.begin(), Y.end());
    } else if (n == "hos") {
      if (api == 1) { // forward(tag, m, n, d, keep, X[n][d+1], Y[m][d+1])
        M2 XX(nn, d + 1), YY(m, d + 1);
        for (int i = 0; i < nn; ++i) { XX[i][0] = x[static_cast<size_t>(i)]; for (int k = 0; k < d; ++k) XX[i][k + 1] = X[0][static_cast<size_t>(i)][static_cast<size_t>(k)]; }
        rc = forward(s->id, m, nn, d, keep, static_cast<double **>(XX), static_cast<double **>(YY));
        for (int j = 0; j < m; ++j) v.push_back(YY[j][0]);
        for (int j = 0; j < m; ++j) for (int k = 0; k < d; ++k) v.push_back(YY[j][k + 1]);
      } else {
        M2 XX(nn, d), YY(m, d);
        for (int i = 0; i < nn; ++i) for (int k = 0; k < d; ++k) XX[i][k] = X[0][static_cast<size_t>(i)][static_cast<size_t>(k)];
        v.assign(static_cast<size_t>(m), NAN);
        rc = hos_forward(s->id, m, nn, d, keep, x.data(), XX, v.data(), YY);
        v.insert(v.end(), YY.d.begin(), YY.d.end());
      }
    } else if (n == "fov") {
      M2 XX(nn, p), YY(m, p);
      for (int i = 0; i < nn; ++i) for (int q = 0; q < p; ++q) XX[i][q] = X[static_cast<size_t>(q)][static_cast<size_t>(i)][0];
      v.assign(static_cast<size_t>(m), NAN);
      rc = fov_forward(s->id, m, nn, p, x.data(), XX, v.data(), YY);
      v.insert(v.end(), YY.d.begin(), YY.d.end());
    } else {
      M3 XX(nn, p, d), YY(m, p, d);
      for (int i = 0; i < nn; ++i) for (int q = 0; q < p; ++q) for (int k = 0; k < d; ++k) XX[i][q][k] = X[static_cast<size_t>(q)][static_cast<size_t>(i)][static_cast<size_t>(k)];
      v.assign(static_cast<size_t>(m), NAN);
      if (n == "hov") rc = hov_forward(s->id, m, nn, d, p, x.data(), XX, v.data(), YY);
      else rc = hov_wk_forward(s->id, m, nn, d, keep, p, x.data(), XX, v.data(), YY);
      v.insert(v.end(), YY.m.d.begin(), YY.m.d.end());
    }
    return rc;
  });
  Expect e;
  base_expect(*s, e);
  if (EXTC.fired) e.must_fail = true;
  if (s->prog.has(O_CBRT) && (n == "hos" || n == "hov" || n == "hovwk")) e.may_fail = true; // not implemented, refused
  if (n == "fov" && s->prog.has(O_FPI)) e.must_fail = true; // not offered for fixed points
  if ((n == "hos" || n == "hov" || n == "hovwk") && (s->prog.has(O_EXT) || s->prog.has(O_CPL) || s->prog.has(O_FPI)) && !(n == "hos" && api == 1 && d == 1)) e.must_fail = true; // no higher order sweeps over external functions
  bool sw = false;
  if (s->complete || s->broken) {
    std::vector<VD> pvs = s->altpar;
    pvs.push_back(s->par);
    e.check = true;
    for (auto &pv : pvs) {
      std::vector<RefOut> r;
      for (int q = 0; q < p; ++q) r.push_back(ref(*s, x, &X[static_cast<size_t>(q)], d, false, &pv));
      std::vector<LD> w;
      for (auto &y : r[0].y) w.push_back(y.v.c[0]);
      if (n == "fov") for (int j = 0; j < m; ++j) for (int q = 0; q < p; ++q) w.push_back(r[static_cast<size_t>(q)].y[static_cast<size_t>(j)].v.c[1]);
      else if (d > 0) for (int j = 0; j < m; ++j) for (int q = 0; q < p; ++q) for (int k = 1; k <= d; ++k) w.push_back(r[static_cast<size_t>(q)].y[static_cast<size_t>(j)].v.c[k]);
      e.v.push_back(w);
      for (auto &q : r) e.add(q, d > 0);
      if (r[0].branch_switch) sw = true;
      if (!(r[0].scale < 1e300L)) e.rc_sign = 0; // overflow: no definite outcome
      else if (pvs.size() == 1 && r[0].margin >= 1e-6L) {
        e.rc_sign = r[0].branch_switch ? -1 : 1;
        if (d == 0 && !r[0].branch_switch && !r[0].rc_loose && !s->prog.has(O_EXT) && !s->prog.has(O_CPL) && !s->prog.has(O_FPI) && L.i("rcx")) { e.rc_exact = r[0].rc; ++cov[fmt("rc:%d", r[0].rc)]; }
      }
    }
    if (s->prog.has(O_FPI)) e.tol = 1e-6L;
  }
  if (e.rc_sign < 0) ++cov["rc:switch"];
  const bool good = judge(s, n, g, e);
  exts_ok(*s, g, 'F', n.c_str());
  EXTC.fail_at = -1;
  TayState nt;
  if (keep > 0) {
    nt.kind = n == "hovwk" ? 2 : 1;
    nt.keep = keep; nt.x = x; nt.X = X;
    for (auto &dq : nt.X) for (auto &i : dq) i.resize(static_cast<size_t>(keep - 1));
  }
  if (g.ok) {
    if (keep > 0) { s->ts = nt; s->alt.clear(); }
    (void)good;
  } else if (!e.must_fail || s->complete) {
    if (keep > 0) {
      spoil(*s);
      if (!sw && s->ts.kind != 3) s->alt.push_back(nt);
      if (s->ts.kind != 3) s->ts = TayState(); // nothing retained is fine, too
    }
  }
}

/* ------------------------------------------------------------------ reverse sweeps */
void World::do_rev(const Line &L, const std::string &n) {
  Slot *s = slot(L.i("t"));
  if (!s) { last_st = '-'; return; }
  cur = s;
  const int m = s->prog.m, nn = s->prog.n;
  int d = L.i("d", 0), q = L.i("q", 1);
  const bool scal = n == "fosrev" || n == "hosrev" || n == "hostirev";
  if (n == "fosrev" || n == "fovrev") d = 0;
  if (scal) q = 1;
  if (d < 0 || d > 4 || q < 1 || q > 5) { last_st = '-'; return; }
  const bool ti = n == "hostirev" || n == "hovtirev" || n == "hosov";
  const uint64_t us = L.u("us", 1);
  auto U = [&](int r, int j, int k) { return k == 0 || ti ? ptval(us + 300 + static_cast<uint64_t>(r) * 50, j * 8 + k) : 0.0; };
  EXTC.calls = 0; EXTC.fired = 0; EXTC.fail_at = L.i("cbf", -1); EXTC.fail_mode = L.i("cbm", 0);
  Got g = guard([&](VD &v) {
    int rc = -99;
    if (n == "fosrev") {
      VD u;
      for (int j = 0; j < m; ++j) u.push_back(U(0, j, 0));
      v.assign(static_cast<size_t>(nn), NAN);
      rc = fos_reverse(s->id, m, nn, u.data(), v.data());
    } else if (n == "fovrev") {
      M2 u(q, m), Z(q, nn);
      for (int r = 0; r < q; ++r) for (int j = 0; j < m; ++j) u[r][j] = U(r, j, 0);
      rc = fov_reverse(s->id, m, nn, q, u, Z);
      v = Z.d;
    } else if (n == "hosrev") {
      VD u;
      M2 Z(nn, d + 1);
      for (int j = 0; j < m; ++j) u.push_back(U(0, j, 0));
      rc = hos_reverse(s->id, m, nn, d, u.data(), Z);
      v = Z.d;
    } else if (n == "hostirev") {
      M2 u(m, d + 1), Z(nn, d + 1);
      for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) u[j][k] = U(0, j, k);
      rc = hos_ti_reverse(s->id, m, nn, d, u, Z);
      v = Z.d;
    } else if (n == "hosov") {
      M2 u(m, d + 1);
      M3 Z(q, nn, d + 1);
      for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) u[j][k] = U(0, j, k);
      rc = hos_ov_reverse(s->id, m, nn, d, q, u, Z);
      v = Z.m.d;
    } else {
      M3 u(q, m, d + 1), Z(q, nn, d + 1);
      std::vector<VD> nzd(static_cast<size_t>(q), VD());
      std::vector<std::vector<short>> nz(static_cast<size_t>(q), std::vector<short>(static_cast<size_t>(nn)));
      std::vector<short *> nzp;
      std::vector<std::vector<short>> nzm(static_cast<size_t>(q), std::vector<short>(static_cast<size_t>(nn), -77));
      for (auto &r : nzm) nzp.push_back(r.data());
      short **nzz = L.i("nz") ? nzp.data() : nullptr;
      for (int r = 0; r < q; ++r) for (int j = 0; j < m; ++j) for (int k = 0; k <= d; ++k) u[r][j][k] = U(r, j, k);
      if (n == "hovrev") {
        M2 u0(q, m);
        for (int r = 0; r < q; ++r) for (int j = 0; j < m; ++j) u0[r][j] = U(r, j, 0);
        rc = hov_reverse(s->id, m, nn, d, q, u0, Z, nzz);
      } else rc = hov_ti_reverse(s->id, m, nn, d, q, u, Z, nzz);
      v = Z.m.d;
    }
    return rc;
  });
  bool full = false; // every decision as recorded, none on its edge
  Expect e;
  base_expect(*s, e);
  if (EXTC.fired) e.must_fail = true;
  const bool ho = n != "fosrev" && n != "fovrev";
  if (ho && s->prog.has(O_CBRT)) e.may_fail = true; // not implemented, refused
  if (n == "fovrev" && s->prog.has(O_FPI)) e.must_fail = true;
  if (ho && (s->prog.has(O_EXT) || s->prog.has(O_CPL) || s->prog.has(O_FPI))) e.must_fail = true; // no higher order sweeps over external functions
  bool known = !e.must_fail, exact = false;
  if (s->complete || s->broken) {
    std::vector<TayState> cand = s->alt;
    cand.push_back(s->ts);
    bool any = false;
    std::vector<const TayState *> use;
    for (auto &t : cand) {
      if (t.kind == 3) any = true;
      if (t.kind == 1 && n != "hosov" && t.keep >= d + 1) { use.push_back(&t); if (t.keep == d + 1 && cand.size() == 1) exact = true; }
      if (t.kind == 1 && n == "hosov" && (q == 1 || d == 0) && t.keep >= d + 1) use.push_back(&t);
      if (t.kind == 2 && n == "hosov" && (static_cast<int>(t.X.size()) == q || d == 0) && t.keep >= d + 1) { use.push_back(&t); if (t.keep == d + 1 && cand.size() == 1) exact = true; }
      if (t.kind == 2 && n != "hosov" && (t.X.size() == 1 || d == 0) && t.keep >= d + 1) use.push_back(&t);
    }
    if (any || s->altpar.size()) { e.may_fail = true; known = false; }
    else if (use.empty()) e.must_fail = true;
    else {
      if (!exact) e.may_fail = true;
      full = !s->prog.has(O_EXT) && !s->prog.has(O_CPL) && !s->prog.has(O_FPI);
      for (auto *t : use) {
        std::vector<LD> w;
        std::vector<RefOut> rr;
        for (size_t k = 0; k < (n == "hosov" ? static_cast<size_t>(q) : 1); ++k) rr.push_back(ref(*s, t->x, &t->X[d ? k : 0], d, true));
        for (auto &r : rr) { e.add(r, true); if (r.rc != 3 || r.rc_loose) full = false; }
        for (int r = 0; r < q; ++r) {
          const RefOut &ro = n == "hosov" ? rr[static_cast<size_t>(r)] : rr[0];
          for (int i = 0; i < nn; ++i) for (int k = 0; k <= d; ++k) {
            LD z = 0;
            for (int j = 0; j < m; ++j) {
              const Dual &y = ro.y[static_cast<size_t>(j)];
              if (y.g.empty()) continue;
              for (int l = 0; l <= (ti ? k : 0); ++l) z += static_cast<LD>(U(n == "hosov" ? 0 : r, j, l)) * y.g[static_cast<size_t>(i)].c[k - l];
            }
            w.push_back(z);
          }
        }
        e.v.push_back(w);
      }
      e.check = known;
    }
    if (s->prog.has(O_FPI)) e.tol = 1e-6L;
  }
  if (ho && e.margin < 1e-6L) e.may_fail = true; // ties of min and max
  e.rc_sign = e.may_fail ? 0 : 1;
  e.rc_exact = full && e.margin >= 1e-6L && e.scale < 1e300L ? 3 : -100;
  if (e.rc_exact == 3) ++cov["rc:rev3"];
  judge(s, n, g, e);
  if (s->extseq.size() && !g.ok && EXTC.log.empty()) {} // refused before any callback
  else exts_ok(*s, g, 'R', n.c_str());
  EXTC.fail_at = -1;
  if (!g.ok && (ENV.io_fired || ENV.al_fired || EXTC.fired)) { // must stay usable or report
    TayState none;
    s->alt.push_back(none);
  }
}

/* ------------------------------------------------------------------ parameters, misuse, files */
void World::do_par(const Line &L) {
  Slot *s = slot(L.i("t"));
  if (!s) { last_st = '-'; return; }
  cur = s;
  const int np = s->prog.npar, bad = L.i("bad");
  VD v = pars(L, np + bad < 0 ? 0 : np + bad);
  Got g = guard([&](VD &) { findTape(s->id).set_param_vec(s->id, v.size(), v.data()); return 0; });
  Expect e;
  base_expect(*s, e);
  if (s->complete && static_cast<int>(v.size()) != np) e.must_fail = true;
  e.rc_sign = 1;
  judge(s, "setpar", g, e);
  if (!s->complete) { if (g.ok && static_cast<int>(v.size()) == np) { s->altpar.push_back(s->par); s->par = v; } return; }
  if (static_cast<int>(v.size()) != np) return; // refused: nothing changes
  if (g.ok) { s->par = v; s->altpar.clear(); s->ts = TayState(); s->alt.clear(); }
  else { s->altpar.push_back(s->par); s->par = v; s->broken = true; s->ts = TayState(); s->alt.clear(); }
}
void World::do_misuse(const Line &L) {
  Slot *s = slot(L.i("t"));
  const std::string k = L.s("kind", "m");
  if (!s) { last_st = '-'; return; }
  cur = s;
  const int m = s->prog.m, n = s->prog.n;
  VD x = pointv(3, n + 4), y(static_cast<size_t>(m + 4), 0.0), u(static_cast<size_t>(m + 4), 1.0), z(static_cast<size_t>(n + 4), 0.0);
  ++cov["misuse:" + k];
  Expect e;
  e.must_fail = true;
  Got g;
  TayState before = s->ts;
  if (k == "m") g = guard([&](VD &) { return zos_forward(s->id, m + 1, n, 0, x.data(), y.data()); });
  else if (k == "n") g = guard([&](VD &) { return zos_forward(s->id, m, n + 1, 0, x.data(), y.data()); });
  else if (k == "mk") g = guard([&](VD &) { return fos_forward(s->id, m + 1, n, 2, x.data(), z.data(), y.data(), u.data()); });
  else if (k == "rm") g = guard([&](VD &) { return fos_reverse(s->id, m + 1, n, u.data(), z.data()); });
  else if (k == "rn") g = guard([&](VD &) { return fos_reverse(s->id, m, n + 1, u.data(), z.data()); });
  else if (k == "id") g = guard([&](VD &) { return zos_forward(static_cast<short>(3000 + L.i("x")), m, n, 0, x.data(), y.data()); });
  else if (k == "off") g = guard([&](VD &) { trace_off(); return 0; });
  else if (k == "onid") g = guard([&](VD &) { return trace_on(static_cast<short>(3000 + L.i("x"))); });
  else if (k == "gm") { if (m == 1) { last_st = '-'; return; } g = guard([&](VD &) { return gradient(s->id, n, x.data(), z.data()); }); }
  else { last_st = '-'; return; }
  if (s->broken) { e.must_fail = false; e.may_fail = true; }
  e.rc_sign = 0;
  judge(s, "misuse-" + k, g, e);
  if (g.fail()) last_st = 'e';
}
void World::do_files(const Line &) { last_st = 'o'; }

void World::run_line(const Line &L, int idx) {
  step_idx = idx;
  last_st = '-'; last_dig = 0; last_rc = 0; last_what.clear();
  cur = nullptr;
  nested_step = false;
  const std::string &n = L.word(1);
  if (n == "new") do_new(L);
  else if (n == "conf") do_conf(L);
  else if (n == "rec") do_rec(L);
  else if (n == "zos" || n == "fos" || n == "hos" || n == "fov" || n == "hov" || n == "hovwk") do_fwd(L, n);
  else if (n == "fosrev" || n == "fovrev" || n == "hosrev" || n == "hovrev" || n == "hostirev" || n == "hovtirev" || n == "hosov") do_rev(L, n);
  else if (n == "setpar") do_par(L);
  else if (n == "misuse") do_misuse(L);
  else if (n == "drv") do_drv(L);
  else if (n == "jpat" || n == "hpat" || n == "bitfwd" || n == "bitrev") do_pat(L, n);
  else if (n == "sjac" || n == "shess") do_sparse(L, n);
  if (cov.size() < 4000) ++cov["step:" + n];
  // a trace only touches files of its own, in the directory configured when it was created
  if (cur && !nested_step && !cur->prog.has(O_EXT) && !cur->prog.has(O_CPL) && !cur->prog.has(O_FPI)) {
    for (auto &f : ENV.touched_w) {
      if (f == ".adolcrc") { violate("foreign-file", "the configuration file was opened for writing"); continue; }
      const size_t sl = f.rfind('/');
      std::string d = sl == std::string::npos ? "." : f.substr(0, sl), want = tdir[cur->idx];
      if (d.compare(0, 2, "./") == 0) d = d.substr(2);
      while (d.size() > 1 && d.back() == '/') d.pop_back();
      if (want != "?" && d != want) violate("foreign-dir", "file " + f + " touched outside the configured directory " + want);
      auto it = owner.find(f);
      if (it == owner.end()) owner[f] = cur->idx;
      else if (it->second != cur->idx) violate("foreign-file", "file " + f + fmt(" of trace %d touched while working on trace %d", it->second, cur->idx));
      ++cov["files:touched"];
    }
  }
  StepRec r;
  r.idx = idx; r.st = last_st; r.rc = last_rc; r.dig = last_dig; r.what = last_what;
  r.mh = cur ? cur->model_hash() : 0;
  r.io = ENV.io_n; r.al = ENV.al_n; r.fired = ENV.io_fired + ENV.al_fired;
  if (on_step) on_step(r);
}
