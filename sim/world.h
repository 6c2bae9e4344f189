// One simulated user of the library: executes the steps of a plan, models what they must deliver, compares.
#pragma once
#include "ext.h"
#include "prog.h"
#include "sim.h"
#include <adolc/sparse/sparsedrivers.h>
#include <functional>

typedef std::vector<double> VD;
struct M2 { // exactly sized matrix, filled with NaN
  VD d;
  std::vector<double *> r;
  M2(int a, int b) : d(static_cast<size_t>(a) * static_cast<size_t>(b), NAN), r(static_cast<size_t>(a)) { for (size_t i = 0; i < r.size(); ++i) r[i] = d.data() + i * static_cast<size_t>(b); }
  M2(const M2 &) = delete;
  operator double **() { return r.data(); }
  double *operator[](int i) { return r[static_cast<size_t>(i)]; }
};
struct M3 {
  M2 m;
  std::vector<double **> p;
  M3(int a, int b, int c) : m(a * b, c), p(static_cast<size_t>(a)) { for (size_t i = 0; i < p.size(); ++i) p[i] = m.r.data() + i * static_cast<size_t>(b); }
  operator double ***() { return p.data(); }
  double **operator[](int i) { return p[static_cast<size_t>(i)]; }
};
// point named by a seed: seeds from 1000000 on give values with exact ties
double coord(uint64_t seed, int i);
inline VD pointv(uint64_t seed, int n) { VD v; for (int i = 0; i < n; ++i) v.push_back(coord(seed, i)); return v; }

struct TayState {
  int kind = 0;              // 0 nothing retained, 1 scalar, 2 vector (hov_wk), 3 anything
  int keep = 0;              // number of retained coefficients
  std::vector<std::vector<VD>> X; // [dir][indep][order-1]
  VD x;
  uint64_t hash() const;
};
struct Slot {
  int idx = 0;
  short id = -1;
  bool complete = false;     // a complete recording exists
  bool broken = false;       // the last recording or a parameter update failed half way
  int flag = 0;              // 1: trace_off asked for files, 2: trace_on asked to skip the cleanup (ever)
  int skipped = 0;           // the latest recording asked to skip the cleanup
  int forced = 0;            // the latest recording asked for files
  Prog prog;
  VD par, x0, init;
  std::vector<int> branches;
  VD aux;
  TayState ts;
  std::vector<TayState> alt; // further possible states (after a failed call)
  std::vector<VD> altpar;    // further possible parameter vectors (after a failed update)
  std::unique_ptr<ExtPool> ext;
  std::vector<std::pair<int, int>> extseq;
  std::vector<adouble> pre;  // variables alive while recording
  bool huge = false;         // the configuration asks for a very large buffer
  long want[4] = {-1, -1, -1, -1}; // buffer sizes the configuration asks for (-1: no definite one)
  struct Sparse { bool have = false, maybe = false, foreign = false, tight = false; int cm = 0, rm = 0, last = -1; uint64_t pt = 0; VD par; };
  Sparse sj;                 // what the sparse drivers have stored for this trace
  Sparse sh;
  uint64_t prog_hash() const;
  uint64_t model_hash() const;
};
struct Expect {
  bool must_fail = false, may_fail = false;
  bool check = false;        // numbers known
  std::vector<std::vector<LD>> v;  // candidates; any may match
  std::vector<char> mask;    // 0: do not compare this entry (empty: compare all)
  LD scale = 0, margin = 1e30L;
  int rc_sign = 0;           // +1: rc must be >= 0, -1: rc must be < 0, 0: any
  int rc_exact = -100;       // exact return code
  LD tol = 1e-8L;
  void add(const RefOut &r, bool deriv) { if (!(r.scale <= scale)) scale = r.scale; LD m = deriv ? r.kink : r.margin; if (m < margin) margin = m; }
};
struct Got {
  bool ok = false;           // returned normally with rc >= 0
  bool thrown = false;
  int rc = 0;
  std::string what;
  VD v;
  bool fail() const { return !ok; }
};
struct StepRec { int idx; char st; int rc; uint64_t mh, dig; int io, al, fired; std::string what; };

class World {
public:
  std::map<int, Prog> progs;
  std::map<int, std::unique_ptr<Slot>> slots;
  std::map<std::string, long> cov;        // coverage counters
  std::function<void(const StepRec &)> on_step;
  std::function<void(int, const std::string &, const std::string &)> on_violation;
  std::function<void(int, const std::string &)> on_tape;
  int step_idx = 0;
  bool fault_planned = false;             // a fault is planned for this step
  int threadno = 0;
  std::map<std::string, std::string> knobs;
  void run_line(const Line &L, int idx);  // executes one 'step' line
  World();
  ~World();

  Slot *slot(int t) { auto it = slots.find(t); return it == slots.end() ? nullptr : it->second.get(); }
  void violate(const std::string &tag, const std::string &msg);
  Got guard(const std::function<int(VD &)> &f);
  bool judge(Slot *s, const std::string &name, const Got &g, const Expect &e);
  RefOut ref(const Slot &s, const VD &x, const std::vector<VD> *X, int d, bool grad, const VD *par = nullptr, bool follow = false);
  RefOut refd(const Slot &s, const std::vector<Dual> &x, int xn, int d);
  void base_expect(Slot &s, Expect &e);   // admission by the state of the trace
  void spoil(Slot &s);                    // an evaluation of the trace failed half way
  bool exts_ok(const Slot &s, const Got &g, char dir, const char *name);
  void do_new(const Line &L);
  void do_conf(const Line &L);
  void do_rec(const Line &L);
  void do_fwd(const Line &L, const std::string &n);
  void do_rev(const Line &L, const std::string &n);
  void do_pat(const Line &L, const std::string &n);
  void do_drv(const Line &L);
  void do_sparse(const Line &L, const std::string &n);
  bool needed(Slot &s, const VD &x, bool hess, std::vector<std::vector<LD>> &D, Expect &e, bool &sw);
  void do_par(const Line &L);
  void do_misuse(const Line &L);
  void do_pl(const Line &L, const std::string &n);
  void do_files(const Line &L);
  void do_vars(const Line &L);
  bool record(Slot &s, const Prog &p, const Line &L, const std::string &pfx, const std::function<void(int)> &hook);
  bool eval_one(Slot &s, const VD &x, const char *name);
  Slot *cur = nullptr;
  uint64_t last_dig = 0;
  char last_st = '-';
  int last_rc = 0;
  std::string last_what;
  std::map<int, std::string> tdir;        // per slot ("?": not definite)
  std::map<std::string, int> owner;       // tape file -> slot
  bool nested_step = false;
};
bool file_exists(const std::string &p);
LD fact(int k);
