// Plan generation: one seed of one profile = one plan.
#include "exec.h"
#include <algorithm>
namespace {
struct GSlot { int t, p = -1, n = 1, m = 1, npar = 0; int kind = 0, keep = 0, q = 1; bool rec = false; bool special = false; };
struct G {
  Rng r;
  Plan pl;
  std::vector<Prog> progs;
  std::vector<GSlot> sl;
  int nextprog = 0;
  bool maxd2 = false;
  uint64_t ptmode = 0;      // 0 generic points, 1 mix with exact tie points
  explicit G(uint64_t s) : r(s) {}
  std::string sbuf() { static const int n[] = {32, 64, 200, 512, 1024}; return r.chance(0.5) ? "" : fmt(" sbuf=%d", n[r.below(5)]); }
  void line(const std::string &s) { pl.push_back(s); }
  void step(const std::string &s) { pl.push_back("step " + s); }
  uint64_t pt() { return ptmode && r.chance(0.6) ? 1000000 + static_cast<uint64_t>(r.below(60)) : static_cast<uint64_t>(1 + r.below(8)); }
  int prog(const GenOpt &o) {
    Prog p = gen_prog(r, nextprog++, o);
    std::string t = prog_text(p);
    size_t a = 0;
    while (a < t.size()) { size_t b = t.find('\n', a); line(t.substr(a, b - a)); a = b + 1; }
    progs.push_back(p);
    return p.id;
  }
  int bsz(int lo, int hi) { double u = r.unit(); return r.chance(0.15) ? hi * 50 : lo + static_cast<int>((hi - lo) * u * u); }
  std::string bufs() { return fmt("%d,%d,%d,%d", bsz(4, 120), bsz(64, 300), bsz(8, 80), bsz(4, 150)); }
  void newslot() { int t = static_cast<int>(sl.size()); GSlot g; g.t = t; sl.push_back(g); step(fmt("new t=%d", t)); }
  void rec(GSlot &s, int p, const std::string &extra = "", int keep = -1) {
    const Prog &q = progs[static_cast<size_t>(p)];
    s.p = p; s.n = q.n; s.m = q.m; s.npar = q.npar; s.rec = true;
    s.special = q.has(O_EXT) || q.has(O_CPL) || q.has(O_FPI);
    if (keep < 0) keep = r.chance(0.35);
    s.kind = keep; s.keep = keep;
    step(fmt("rec t=%d p=%d pt=%lu keep=%d par=%d", s.t, p, pt(), keep, r.below(5)) + extra);
  }
  void fwd(GSlot &s, bool keepish = true) {
    int c = r.below(s.special && !r.chance(0.05) ? 3 : 6);
    static const char *nm[6] = {"zos", "fos", "fov", "hos", "hov", "hovwk"};
    int d = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 1 : r.range(1, maxd2 ? 2 : 3);
    int q = c == 2 || c >= 4 ? r.range(1, 3) : 1;
    int keep = keepish && r.chance(0.65) ? r.range(1, d + 1) : 0;
    if (s.special && c == 1) keep = keepish && r.chance(0.5) ? 1 : 0;
    if (keep && r.chance(0.6)) keep = s.special ? 1 : d + 1;
    if (c == 2 || c == 4) keep = 0;
    std::string e = c == 3 && r.chance(0.3) ? " api=1" : "";
    step(fmt("%s t=%d pt=%lu d=%d p=%d keep=%d xs=%d", nm[c], s.t, pt(), d, q, keep, r.below(20)) + e);
    if (s.special && c > 2) { s.kind = 0; return; }
    if (keep) { s.kind = c == 5 ? 2 : 1; s.keep = keep; s.q = q; }
  }
  void rev(GSlot &s, double wild = 0.15) {
    if (r.chance(wild)) {
      static const char *nm[7] = {"fosrev", "fovrev", "hosrev", "hovrev", "hostirev", "hovtirev", "hosov"};
      int c = s.special && !r.chance(0.2) ? r.below(2) : r.below(7);
      step(fmt("%s t=%d d=%d q=%d us=%d", nm[c], s.t, r.below(4), r.range(1, 3), r.below(20)));
      return;
    }
    if (!s.kind) {
      step(fmt("zos t=%d pt=%lu keep=1", s.t, pt()));
      s.kind = s.keep = 1;
    }
    if (s.kind == 2) { step(fmt("hosov t=%d d=%d q=%d us=%d", s.t, s.keep - 1, s.q, r.below(20))); return; }
    if (s.keep == 1 && (s.special || r.chance(0.6))) {
      if (r.chance(0.5)) step(fmt("fosrev t=%d us=%d", s.t, r.below(20)));
      else step(fmt("fovrev t=%d q=%d us=%d", s.t, r.range(1, 4), r.below(20)));
      return;
    }
    static const char *nm[4] = {"hosrev", "hovrev", "hostirev", "hovtirev"};
    step(fmt("%s t=%d d=%d q=%d us=%d nz=%d", nm[r.below(4)], s.t, s.keep - 1, r.range(1, 3), r.below(20), r.below(2)));
  }
};
GenOpt swarm(Rng &r) {
  GenOpt o;
  o.vec = r.chance(0.5);
  o.kinks = r.chance(0.4);
  o.cmp = r.chance(0.25);
  o.heavy = 0.3;
  return o;
}
} // namespace

static void fault_insert(G &g, int nio, int nal, bool allow_kill) {
  // counts from a fault-free execution decide where faults can land
  ExecOpt eo;
  eo.nofault = true; eo.base_only = true;
  PlanOut d = exec_plan(g.pl, eo);
  std::vector<std::pair<int, int>> io, al;
  for (auto &s : d.runs[0].steps) { if (s.io > 0) io.push_back({s.idx, s.io}); if (s.al > 0) al.push_back({s.idx, s.al}); }
  std::map<int, std::string> ins;
  // what was done to which file, so that rare operations are hit as well
  std::map<char, std::vector<std::pair<int, int>>> cat;
  std::vector<char> cats;
  for (auto &s : d.runs[0].steps) for (size_t j = 0; j < s.cats.size(); ++j) { auto &v = cat[s.cats[j]]; if (v.empty()) cats.push_back(s.cats[j]); v.push_back({s.idx, static_cast<int>(j)}); }
  static const char *kinds[] = {"fail", "fail", "fail", "short", "short", "eof", "lost"};
  static const char *rkinds[] = {"fail", "eof", "eof"};
  for (int k = 0; k < nio && !io.empty(); ++k) {
    std::pair<int, int> w = g.r.pick(io);
    std::string kind = kinds[g.r.below(7)];
    if (!cats.empty() && g.r.chance(0.7)) {
      const char c = g.r.pick(cats);
      w = g.r.pick(cat[c]);
      if ((c - '0') / 5 == 1) kind = rkinds[g.r.below(3)];
    } else w.second = g.r.below(w.second);
    if (allow_kill && g.r.chance(0.3)) kind = "kill";
    ins[w.first] = fmt("fault io j=%d kind=%s stick=%d", w.second, kind.c_str(), kind == "kill" ? 0 : g.r.chance(0.4));
  }
  for (int k = 0; k < nal && !al.empty(); ++k) {
    auto &w = g.r.pick(al);
    ins[w.first] = fmt("fault alloc j=%d", g.r.below(w.second));
  }
  Plan np;
  for (size_t i = 0; i < g.pl.size(); ++i) { auto it = ins.find(static_cast<int>(i)); if (it != ins.end()) np.push_back(it->second); np.push_back(g.pl[i]); }
  g.pl = np;
}

Plan gen_plan(const std::string &prof, uint64_t seed) {
  G g(seed * 1000003 + hbytes(prof.data(), prof.size()));
  Rng &r = g.r;
  if (prof == "P01") {
    GenOpt o = swarm(r);
    o.params = r.chance(0.3);
    int np = r.range(1, 2);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    g.line("variant b1 bufs=" + g.bufs());
    g.line("variant b2 noconf=1 bufs=" + g.bufs());
    for (int i = 0; i < np; ++i) { GenOpt q = o; if (r.chance(0.2)) { q.vec = q.kinks = false; q.ext = true; q.insmax = 10; } g.prog(q); }
    int ns = r.range(1, 2);
    for (int i = 0; i < ns; ++i) {
      if (r.chance(0.2)) g.step(fmt("conf o=%d l=%d v=%d t=%d", g.bsz(4, 120), g.bsz(64, 300), g.bsz(8, 80), g.bsz(4, 150)));
      g.newslot();
    }
    for (auto &s : g.sl) g.rec(s, r.below(np), fmt(" live=%d flag=%d%s", r.chance(0.2), r.chance(0.15), r.chance(0.25) ? (" b7=" + g.bufs()).c_str() : ""));
    int ops = r.range(4, 14);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(static_cast<int>(g.sl.size())))];
      double u = r.unit();
      if (u < 0.08) g.rec(s, r.below(np), fmt(" live=%d flag=%d", r.chance(0.2), r.chance(0.15)));
      else if (u < 0.14 && s.npar) { g.step(fmt("setpar t=%d par=%d", s.t, r.below(9))); s.kind = s.keep = 0; }
      else if (u < 0.55) g.fwd(s);
      else g.rev(s, 0.05);
    }
  }
  if (prof == "P02") {
    GenOpt o = swarm(r);
    o.params = r.chance(0.4);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    if (r.chance(0.5)) g.line("variant b1 bufs=" + g.bufs());
    int np = r.range(1, 2), ns = r.range(1, 2);
    for (int i = 0; i < np; ++i) { GenOpt q = o; if (r.chance(0.12)) { q.vec = q.kinks = false; q.ext = true; q.insmax = 8; } g.prog(q); }
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, r.below(np), fmt(" live=%d", r.chance(0.2)));
    int ops = r.range(8, 26);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      double u = r.unit();
      if (u < 0.05) g.rec(s, r.below(np), "");
      else if (u < 0.12 && s.npar) { g.step(fmt("setpar t=%d par=%d%s", s.t, r.below(9), r.chance(0.2) ? " bad=1" : "")); }
      else if (u < 0.16) { static const char *k[] = {"m", "n", "rm", "rn"}; g.step(fmt("misuse t=%d kind=%s", s.t, k[r.below(4)])); }
      else if (u < 0.30) { int sk = s.kind, sq = s.q, kk = s.keep; g.fwd(s, false); s.kind = sk; s.q = sq; s.keep = kk; }
      else if (u < 0.55) g.fwd(s);
      else g.rev(s, 0.35);
    }
  } else if (prof == "P03") {
    GenOpt o = swarm(r);
    o.params = r.chance(0.3);
    int np = r.range(2, 4), ns = r.range(2, 3);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    for (int i = 0; i < ns; ++i) g.line(fmt("variant only%d only=%d", i, i));
    if (r.chance(0.3)) g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    for (int i = 0; i < np; ++i) {
      GenOpt q = o;
      double u = r.unit();
      if (u < 0.12) { q.vec = q.kinks = false; q.ext = true; q.insmax = 8; }
      else if (u < 0.2) { q.vec = q.kinks = q.cmp = q.params = false; q.cpl = true; q.insmax = 5; }
      else if (u < 0.28) { q.vec = q.kinks = q.cmp = q.params = false; q.fpi = true; q.insmax = 5; }
      g.prog(q);
    }
    for (int i = 0; i < ns; ++i) g.newslot();
    auto rec = [&](GSlot &s) {
      std::string e = fmt(" live=%d flag=%d", r.chance(0.2), r.chance(0.2));
      if (r.chance(0.3)) e += " b7=" + g.bufs();
      if (r.chance(0.35)) {
        int o2 = r.below(ns), p2 = r.below(np);
        GSlot &q = g.sl[static_cast<size_t>(o2)];
        if (o2 != s.t && r.chance(0.6)) {
          const Prog &pp = g.progs[static_cast<size_t>(p2)];
          e += fmt(" nest=rec nat=%d nt=%d np=%d npt=%d nkeep=%d npar=%d nflag=%d", r.below(30), o2, p2, r.below(8) + 1, r.chance(0.4), r.below(4), r.chance(0.2));
          q.p = p2; q.n = pp.n; q.m = pp.m; q.npar = pp.npar; q.rec = true; q.kind = q.keep = 0;
          q.special = pp.has(O_EXT) || pp.has(O_CPL) || pp.has(O_FPI);
        } else if (o2 != s.t && q.rec) e += fmt(" nest=eval nat=%d nt=%d npt=%d", r.below(30), o2, r.below(8) + 1);
        else e += fmt(" nest=%s nat=%d", r.chance(0.5) ? "newtape" : "selfeval", r.below(30));
      }
      g.rec(s, r.below(np), e);
    };
    for (auto &s : g.sl) rec(s);
    int ops = r.range(8, 24);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      double u = r.unit();
      if (u < 0.22) rec(s);
      else if (u < 0.28 && s.npar) g.step(fmt("setpar t=%d par=%d", s.t, r.below(9)));
      else if (u < 0.32) g.newslot(), ns = static_cast<int>(g.sl.size()), rec(g.sl.back());
      else if (u < 0.62) g.fwd(s);
      else g.rev(s, 0.1);
      if (ns > 5) break;
    }
  } else if (prof == "P05" || prof == "P06" || prof == "P07") {
    const bool io = prof == "P05", mem = prof == "P07";
    GenOpt o = swarm(r);
    o.params = r.chance(0.3);
    o.heavy = io ? 0.5 : 0.2;
    int np = r.range(1, 3), ns = r.range(1, prof == "P06" ? 3 : 2);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    for (int i = 0; i < np; ++i) {
      GenOpt q = o;
      double u = r.unit();
      if (u < 0.15) { q.vec = q.kinks = false; q.ext = true; q.insmax = 8; }
      else if (u < 0.25) { q.vec = q.kinks = q.cmp = q.params = false; q.cpl = true; q.insmax = 5; }
      else if (u < 0.32) { q.vec = q.kinks = q.cmp = q.params = false; q.fpi = true; q.insmax = 5; }
      g.prog(q);
    }
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, r.below(np), fmt(" live=%d flag=%d%s", r.chance(0.2), r.chance(0.4), r.chance(0.3) ? (" b7=" + g.bufs()).c_str() : ""));
    int ops = r.range(5, 14);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      double u = r.unit();
      if (u < 0.16) g.rec(s, r.below(np), fmt(" live=%d flag=%d%s", r.chance(0.2), r.chance(0.3), prof == "P06" && r.chance(0.4) ? fmt(" thr=%d", r.below(30)).c_str() : ""));
      else if (u < 0.24 && s.npar) g.step(fmt("setpar t=%d par=%d%s", s.t, r.below(9), prof == "P06" && r.chance(0.4) ? " bad=1" : ""));
      else if (u < 0.45 && prof == "P06") {
        static const char *k[] = {"m", "n", "mk", "rm", "rn", "id", "off", "onid", "gm"};
        double v = r.unit();
        if (v < 0.6) g.step(fmt("misuse t=%d kind=%s x=%d", s.t, k[r.below(9)], r.below(9)));
        else if (v < 0.8) g.rec(s, r.below(np), fmt(" nest=%s nat=%d", r.chance(0.5) ? "selfon" : "selfeval", r.below(30)));
        else if (s.special) g.step(fmt("zos t=%d pt=%lu cbf=%d cbm=%d", s.t, g.pt(), r.below(3), r.below(3)));
        else g.rev(s, 1.0);
      }
      else if (u < 0.65) g.fwd(s);
      else g.rev(s, 0.05);
    }
    // once faults have stopped everything works again
    size_t tail = g.pl.size();
    for (auto &s : g.sl) g.step(fmt("zos t=%d pt=%lu keep=0", s.t, g.pt()));
    for (auto &s : g.sl) {
      g.rec(s, r.below(np), "");
      g.fwd(s);
      g.rev(s, 0);
    }
    g.newslot();
    g.rec(g.sl.back(), r.below(np), "");
    g.fwd(g.sl.back());
    g.rev(g.sl.back(), 0);
    Plan rest(g.pl.begin() + static_cast<long>(tail), g.pl.end());
    g.pl.resize(tail);
    if (io) fault_insert(g, r.range(1, 3), 0, false);
    else if (mem) fault_insert(g, 0, r.range(1, 3), false);
    else fault_insert(g, r.below(3), r.chance(0.3) ? 1 : 0, false);
    g.pl.insert(g.pl.end(), rest.begin(), rest.end());
  } else if (prof == "P08" || prof == "P09" || prof == "P10") {
    GenOpt o;
    o.vec = o.kinks = o.cmp = false;
    o.insmax = 8;
    o.cpl = prof == "P08"; o.ext = prof == "P09"; o.fpi = prof == "P10";
    if (prof == "P09") { o.insmax = 14; o.params = r.chance(0.3); o.kinks = r.chance(0.2); }
    int np = r.range(1, 3), ns = r.range(1, 2);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    for (int i = 0; i < np; ++i) g.prog(o);
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, r.below(np), fmt(" live=%d flag=%d", r.chance(0.2), r.chance(0.15)));
    int ops = r.range(5, 16);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      double u = r.unit();
      if (u < 0.1) g.rec(s, r.below(np), fmt(" flag=%d", r.chance(0.15)));
      else if (u < 0.16 && s.npar) g.step(fmt("setpar t=%d par=%d", s.t, r.below(9)));
      else if (u < 0.26 && prof != "P10") {
        if (r.chance(0.5)) g.step(fmt("zos t=%d pt=%lu keep=%d cbf=%d cbm=%d", s.t, g.pt(), r.below(2), r.below(4), r.below(3)));
        else { g.step(fmt("zos t=%d pt=%lu keep=1", s.t, g.pt())); s.kind = s.keep = 1; g.step(fmt("%s t=%d q=2 us=%d cbf=%d cbm=%d", r.chance(0.5) ? "fosrev" : "fovrev", s.t, r.below(20), r.below(prof == "P08" ? 12 : 4), r.below(3))); }
      }
      else if (u < 0.55) g.fwd(s);
      else g.rev(s, 0.05);
    }
  } else if (prof == "P11") {
    GenOpt o;
    o.kinks = r.chance(0.8);
    o.cmp = r.chance(0.6);
    o.vec = r.chance(0.3);
    o.params = r.chance(0.2);
    g.ptmode = 1;
    int np = r.range(1, 2), ns = 1;
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    for (int i = 0; i < np; ++i) { GenOpt q = o; if (r.chance(0.5)) q.nl = false; g.prog(q); }
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, r.below(np), fmt(" live=%d", r.chance(0.2)));
    int ops = r.range(8, 24);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[0];
      double u = r.unit();
      if (u < 0.08) g.rec(s, r.below(np), "");
      else if (u < 0.13 && s.npar) g.step(fmt("setpar t=%d par=%d", s.t, r.below(9)));
      else if (u < 0.6) g.step(fmt("zos t=%d pt=%lu keep=%d rcx=1", s.t, g.pt(), r.below(2)));
      else if (u < 0.85) g.fwd(s);
      else g.rev(s, 0.1);
    }
  } else if (prof == "P12") {
    GenOpt o = swarm(r);
    o.params = true;
    o.parmax = r.chance(0.4) ? 40 : 5;
    int np = r.range(1, 2), ns = r.range(1, 3);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    for (int i = 0; i < np; ++i) g.prog(o);
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, r.below(np), fmt(" flag=%d", r.chance(0.25)));
    int ops = r.range(6, 20);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      double u = r.unit();
      if (u < 0.08) g.rec(s, r.below(np), fmt(" flag=%d", r.chance(0.25)));
      else if (u < 0.35) g.step(fmt("setpar t=%d par=%d%s", s.t, r.below(9), r.chance(0.2) ? fmt(" bad=%d", r.chance(0.5) ? 1 : -1).c_str() : ""));
      else if (u < 0.65) g.fwd(s);
      else g.rev(s, 0.15);
    }
  } else if (prof == "P15" || prof == "P16") {
    const bool conf = prof == "P16";
    GenOpt o = swarm(r);
    o.params = r.chance(0.3);
    o.heavy = 0.5;
    const int np = r.range(1, 2), segs = conf ? 1 : r.range(2, 4);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    if (!conf) g.line("variant fresh freshdir=1 noprefile=1");
    else g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    for (int i = 0; i < np; ++i) g.prog(o);
    auto hex = [](const std::string &s) { std::string h; for (unsigned char c : s) h += fmt("%02x", c); return h; };
    auto conftext = [&]() {
      static const char *keys[] = {"OBUFSIZE", "LBUFSIZE", "VBUFSIZE", "TBUFSIZE", "INITLIVE", "TAPE_DIR", "obufsize", "BOGUS", "OBUFSIZE ", ""};
      static const char *vals[] = {"d1", "1d", "d1/", "./d1", "nosuchdir", "0x", "0", "00", "0x0", "-5", "abc", "12abc", "", " 77", "99999999999999999999999", "08", "1e3", "4.5"};
      std::string t;
      const int n = r.range(0, 9);
      for (int i = 0; i < n; ++i) {
        const double u = r.unit();
        if (u < 0.08) { for (int k = r.below(140); k > 0; --k) t += static_cast<char>(r.chance(0.1) ? r.below(256) : 32 + r.below(95)); t += "\n"; continue; }
        if (u < 0.12) { t += "\n"; continue; }
        const std::string key = keys[r.chance(0.8) ? r.below(6) : r.below(10)];
        std::string val;
        if (key == "TAPE_DIR") val = vals[r.chance(0.8) ? r.below(5) : r.below(18)];
        else if (r.chance(0.75)) { const int q = r.chance(0.3) ? r.range(1, 63) : r.range(64, 5000); const double f = r.unit(); val = f < 0.7 ? fmt("%d", q) : f < 0.85 ? fmt("0x%x", q) : fmt("0%o", q); }
        else val = vals[r.below(18)];
        std::string l = "\"" + key + "\"" + std::string(static_cast<size_t>(r.chance(0.2) ? r.below(60) : 1), ' ') + "\"" + val + "\"";
        if (r.chance(0.1)) l += " # trailing \"note\"";
        if (r.chance(0.08)) l = l.substr(0, static_cast<size_t>(r.below(static_cast<int>(l.size()) + 1)));
        if (r.chance(0.05)) l.insert(static_cast<size_t>(r.below(static_cast<int>(l.size()) + 1)), 1, static_cast<char>(r.below(256)));
        t += l + (r.chance(0.95) ? "\n" : "\r\n");
      }
      if (r.chance(0.2) && !t.empty()) t.pop_back();
      return t;
    };
    if (conf) {
      g.line("mkd name=d1"); g.line("mkd name=1d");
      if (r.chance(0.88)) g.line("rcraw " + hex(conftext()));
      else { static const char *md[] = {"dir", "dangling", "noperm"}; g.line(std::string("rcraw ") + hex(conftext()) + " mode=" + md[r.below(3)]); }
    } else { if (r.chance(0.6)) g.line("mkd name=d1"); if (r.chance(0.3)) g.line("mkd name=d2"); }
    int fresh = 0; // slots are numbered through, every process has its own
    for (int sg = 0; sg < segs; ++sg) {
      if (sg) {
        if (r.chance(0.25)) g.step("x"), g.pl.back() = "exit";
        g.line("proc");
        if (r.chance(0.4)) g.line(fmt("junk seed=%d", r.below(1000)));
      }
      if (!conf && r.chance(0.6)) {
        static const char *st[] = {"Operations", "Locations", "Values", "Taylors"};
        for (int k = r.range(1, 4); k > 0; --k) {
          const std::string d = r.chance(0.4) ? "d1/" : "";
          if (r.chance(0.3)) g.line(fmt("prefile name=%sdata%d.txt size=%d seed=%d", d.c_str(), r.below(3), r.below(300), r.below(99)));
          else g.line(fmt("prefile name=%sADOLC-%s_thread-%d_tape-%d.tap size=%d seed=%d", d.c_str(), st[r.below(4)], r.chance(0.8) ? 0 : 1, r.below(5), r.below(5000), r.below(99)));
        }
      }
      if (!conf && r.chance(0.5)) g.step(fmt("conf o=%d l=%d v=%d t=%d dir=%s mk=%d", g.bsz(4, 120), g.bsz(64, 300), g.bsz(8, 80), g.bsz(4, 150), r.chance(0.7) ? "d1" : "d2", r.below(2)));
      const int first = static_cast<int>(g.sl.size()), ns = r.range(1, 3);
      (void)fresh;
      for (int i = 0; i < ns; ++i) g.newslot();
      if (!conf && r.chance(0.2)) g.step(fmt("zos t=%d pt=1 keep=0", first)); // nothing recorded in this process
      if (conf && r.chance(0.2)) { g.step(fmt("conf o=%d l=%d v=%d t=%d", g.bsz(4, 120), g.bsz(64, 300), g.bsz(8, 80), g.bsz(4, 150))); g.newslot(); }
      const int last = static_cast<int>(g.sl.size());
      for (int i = first; i < last; ++i) if (r.chance(0.9)) g.rec(g.sl[static_cast<size_t>(i)], r.below(np), fmt(" live=%d flag=%d%s", r.chance(0.15), r.chance(0.5), !conf && r.chance(0.4) ? (" sfc=" + std::to_string(r.below(2)) + " b7=" + g.bufs()).c_str() : ""));
      for (int i = r.range(1, 8); i > 0; --i) {
        GSlot &s = g.sl[static_cast<size_t>(r.range(first, last - 1))];
        if (!s.rec || r.chance(0.1)) g.rec(s, r.below(np), fmt(" flag=%d%s", r.chance(0.4), !conf && r.chance(0.4) ? (" sfc=" + std::to_string(r.below(2)) + " b7=" + g.bufs()).c_str() : ""));
        else if (r.chance(0.08) && s.npar) g.step(fmt("setpar t=%d par=%d", s.t, r.below(9)));
        else if (r.chance(0.5)) g.fwd(s);
        else g.rev(s, 0.05);
      }
    }
    if (conf) { if (r.chance(0.25)) fault_insert(g, 1, 0, false); }
    else if (r.chance(0.5)) { // the process is killed at some I/O operation
      fault_insert(g, 1, 0, true);
      for (auto &l : g.pl) if (l.compare(0, 8, "fault io") == 0) { const size_t k = l.find("kind="); l = l.substr(0, k) + "kind=kill stick=0"; }
    }
  } else if (prof == "P13") {
    const int np = 3, ns = r.range(2, 3);
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    if (r.chance(0.5)) g.line("variant only0 only=0");
    for (int i = 0; i < np; ++i) {
      GenOpt o = swarm(r);
      o.cmp = r.chance(0.1);
      o.params = r.chance(0.3);
      o.insmax = r.range(3, 16);
      o.heavy = 0;
      o.nmin = 1; o.nmax = 7;
      if (i == 0) o.mmin = o.mmax = 1;
      else o.mmax = 7;
      if (r.chance(0.15)) { o.nmin = 50; o.nmax = r.chance(0.5) ? 80 : 150; o.insmax = 40; if (i) { o.mmin = r.chance(0.5) ? 1 : 40; o.mmax = r.chance(0.5) ? 4 : 90; if (o.mmax < o.mmin) o.mmax = o.mmin; } }
      else if (i == 2 && r.chance(0.15)) { o.vec = o.kinks = false; o.ext = true; o.insmax = 8; }
      g.prog(o);
    }
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, s.t == 0 ? 0 : r.below(np), fmt(" flag=%d", r.chance(0.15)));
    const int ops = r.range(5, 16);
    int near = 1 + r.below(8);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      const double u = r.unit();
      if (r.chance(0.5)) near = 1 + r.below(8);
      if (u < 0.05) g.rec(s, s.t == 0 && r.chance(0.7) ? 0 : r.below(np), "");
      else if (u < 0.1 && s.npar) { g.step(fmt("setpar t=%d par=%d", s.t, r.below(9))); s.kind = 0; }
      else if (u < 0.17) { g.fwd(s); if (r.chance(0.5)) g.rev(s, 0.05); }
      else if (u < 0.22) g.step(fmt("drv t=%d k=%s pt=%d vs=%d rep=0 api=0", s.t, s.m == 1 ? "hessian" : "jacobian", near, r.below(9))), s.kind = 0;
      else if (s.m == 1 && r.chance(0.6)) {
        const int cfm = r.below(4);
        if (r.chance(0.3)) g.step(fmt("hpat t=%d pt=%d cfm=%d api=%d", s.t, near, cfm, r.chance(0.3)));
        else g.step(fmt("shess t=%d pt=%d cfm=%d rm=%d rep=%d mem=%d api=%d junk=%d", s.t, near, cfm, r.below(2), r.chance(0.55), r.chance(0.4), r.chance(0.4), r.chance(0.3) ? r.below(4) : 0));
        s.kind = 0;
      } else {
        const int sm = r.below(2), cfm = r.below(2), bp = r.below(3);
        if (r.chance(0.25)) g.step(fmt("jpat t=%d pt=%d sm=%d cfm=%d bp=%d cm=%d seed=%d api=%d sp=%d", s.t, near, sm, cfm, bp, r.below(2), r.chance(0.3), r.chance(0.3), r.pick(std::vector<int>{30, 30, 1, 2})));
        else if (r.chance(0.2)) g.step(fmt("%s t=%d pt=%d cfm=%d p=%d vs=%d api=%d", r.chance(0.5) ? "bitfwd" : "bitrev", s.t, near, cfm, r.range(1, 3), r.below(9), r.below(2)));
        else g.step(fmt("sjac t=%d pt=%d sm=%d cfm=%d bp=%d cm=%d rep=%d mem=%d api=%d junk=%d sp=%d", s.t, near, sm, cfm, bp, r.below(2), r.chance(0.55), r.chance(0.4), r.chance(0.4), r.chance(0.3) ? r.below(4) : 0, r.pick(std::vector<int>{30, 30, 1, 2})));
        s.kind = 0;
      }
    }
  } else if (prof == "P17") {
    const int np = 3, ns = 3;
    g.line("cfg bufs=" + g.bufs() + g.sbuf());
    g.line("variant mem bufs=6000,6000,6000,6000 noconf=1 nob7=1");
    if (r.chance(0.5)) g.line("variant only0 only=0");
    for (int i = 0; i < np; ++i) {
      GenOpt o = swarm(r);
      o.cmp = r.chance(0.1);
      o.params = r.chance(0.3);
      o.insmax = r.range(3, 14);
      o.heavy = 0;
      const int n = r.range(1, 4);
      o.nmin = o.nmax = n;
      if (i == 0) { o.mmin = o.mmax = 1; if (r.chance(0.3)) o.nmin = o.nmax = r.range(4, 7); }
      else if (i == 1) { o.mmin = o.mmax = n; o.square = true; o.kinks = o.kinks && r.chance(0.3); }
      else { o.mmax = 4; o.nmin = o.nmax = r.range(1, 6); if (r.chance(0.15)) { o.vec = o.kinks = false; o.ext = true; o.insmax = 8; } }
      g.prog(o);
    }
    for (int i = 0; i < ns; ++i) g.newslot();
    for (auto &s : g.sl) g.rec(s, s.t == 0 || s.t == 1 ? s.t : r.below(np), fmt(" flag=%d", r.chance(0.15)));
    const int ops = r.range(6, 20);
    int near = 1 + r.below(8);
    for (int i = 0; i < ops; ++i) {
      GSlot &s = g.sl[static_cast<size_t>(r.below(ns))];
      const double u = r.unit();
      auto drv = [&](const char *k, const std::string &e) {
        if (r.chance(0.4)) near = 1 + r.below(8); // the same argument again
        g.step(fmt("drv t=%d k=%s pt=%d vs=%d api=%d", s.t, k, near, r.below(9), r.chance(0.25)) + e);
        s.kind = 0;
      };
      if (u < 0.05) g.rec(s, s.t < 2 && r.chance(0.7) ? s.t : r.below(np), "");
      else if (u < 0.1 && s.npar) { g.step(fmt("setpar t=%d par=%d", s.t, r.below(9))); s.kind = 0; }
      else if (u < 0.15) { g.fwd(s); if (r.chance(0.5)) g.rev(s, 0.05); }
      else {
        if (s.n == s.m && r.chance(0.6)) {
          static const char *nm[] = {"jac_solv", "jac_solv", "itensor", "itaylor", "forode", "accode", "lie_scalar", "lie_gradient", "lie_covector", "lie_bracket", "lie_scalarv", "lie_gradientv"};
          const int c = r.below(12);
          std::string e;
          if (c < 2) e = fmt(" mode=%d", r.chance(0.6) ? 2 : r.below(2));
          else if (c < 6) e = fmt(" d=%d p=%d dold=%d tau=%d nz=%d same=%d unit=%d", r.range(1, c == 2 ? 3 : 4), r.range(1, 3), r.below(4), r.below(2), r.below(2), r.chance(0.2), r.chance(0.4));
          else {
            std::vector<int> ok;
            const bool sq = c == 8 || c == 9, vec = c >= 10;
            for (auto &q : g.sl) if (q.n == s.n && (sq ? q.m == s.n : vec || q.m == 1) && !(c == 8 && q.t == s.t)) ok.push_back(q.t);
            if (ok.empty()) { --i; if (r.chance(0.1)) ++i; continue; }
            e = fmt(" t2=%d d=%d", ok[static_cast<size_t>(r.below(static_cast<int>(ok.size())))], r.range(1, 4));
          }
          drv(nm[c], e);
        } else {
          static const char *nm[] = {"function", "jacobian", "large", "vec_jac", "jac_vec", "lagra", "tensor", "gradient", "vec_jac", "hessian", "hessian2", "hess_vec", "hess_mat"};
          const int c = r.below(s.m == 1 ? 13 : 7);
          drv(nm[c], fmt(" d=%d p=%d runs=%d rep=%d q=%d unit=%d", r.range(1, 3), r.range(1, 3), r.range(1, 6), r.chance(0.5), r.range(1, 4), r.chance(0.4)));
          if (c == 3 && r.chance(0.4)) g.step(fmt("drv t=%d k=vec_jac pt=%d vs=%d rep=1", s.t, near, r.below(9)));
        }
      }
    }
  }
  return g.pl;
}
