// Straight-line test programs: one text form, one executor on adouble, one on the reference type.
#pragma once
#include "ref.h"
#include "util.h"
#include <adolc/adolc.h>
#include <functional>
#include <memory>

enum Op {
  O_CONST, O_COPY, O_ADD, O_SUB, O_MUL, O_DIV, O_ADDC, O_SUBC, O_CSUB, O_MULC, O_DIVC, O_CDIV,
  O_NEG, O_POS, O_INC, O_DEC,
  O_EXP, O_LOG, O_LOG10, O_SQRT, O_CBRT, O_SIN, O_COS, O_TAN, O_ASIN, O_ACOS, O_ATAN, O_SINH, O_COSH, O_TANH,
  O_ASINH, O_ACOSH, O_ATANH, O_ERF, O_ERFC, O_POWC, O_CPOW, O_POW, O_ATAN2, O_LDEXP,
  O_FABS, O_CEIL, O_FLOOR, O_FMIN, O_FMAX,
  O_COND, O_COND2, O_CONDEQ, O_CONDEQ2, O_CMP,
  O_EQPROD, O_EQMPROD, O_DOT, O_AXPY, O_VCOPY, O_SUBSCR, O_SUBREF, O_CHURN,
  O_PAR, O_EXT, O_CPL, O_FPI, O_THROW, O_NOP, O_COUNT
};
const char *op_name(int op);
int op_code(const std::string &s);

struct Ins {
  int op = O_NOP, d = 0, s = 0, t = 0, u = 0, v = 0, k = 0;
  double c = 0;
};
struct Prog {
  int id = 0, n = 1, m = 1, K = 4, npar = 0;
  bool ok = false;
  std::vector<int> outs;
  std::vector<Ins> ins;
  bool has(int op) const { for (auto &i : ins) if (i.op == op) return true; return false; }
  bool smooth_ops_only() const;
};
// record-time environment for one execution of a program on adoubles
struct RecEnv {
  short tapeId = 0;
  const double *x = nullptr;      // independents
  const double *par = nullptr;    // parameters
  const std::vector<double> *pre = nullptr; // values of pre-existing slots (live before recording) or null
  std::vector<adouble> *preslots = nullptr;
  std::vector<int> branches;      // recorded comparison outcomes
  std::vector<double> aux;        // recorded data of other decisions (for the return-code model)
  std::vector<double> y;
  struct ExtPool *ext = nullptr;
  int ext_ord = 0;                // number of external calls recorded so far
  std::function<void(int)> hook;  // called before each instruction
  int throw_at = -1;              // instruction index at which user code throws
};
struct UserThrow { int where; };
// Runs the program on adoubles inside an active recording.
void run_ad(const Prog &p, RecEnv &e);

// What the reference found out about one evaluation.
struct RefOut {
  std::vector<Dual> y;
  LD scale = 0, margin = 1e30L, kink = 1e30L;
  bool branch_switch = false;     // a recorded comparison comes out differently
  std::vector<int> branches;      // outcomes met (before a switch)
  int rc = 3;                     // expected return code (zero order)
  bool rc_loose = false; // the documentation leaves the return code open
  bool finite() const { return scale < 1e15L; }
};
struct RefIn {
  const Prog *p;
  std::vector<Ser> x;             // independents as series
  const std::vector<Dual> *xd = nullptr; // instead: independents with derivatives of their own
  int xn = 0;                     // number of derivative directions of xd (0: n)
  std::vector<double> par;
  std::vector<double> init;       // initial values of the slots (size K) or empty
  const std::vector<int> *branches = nullptr; // recorded outcomes (null: this is the recording)
  const std::vector<double> *aux = nullptr;   // recorded selection data
  int d = 0;
  bool grad = true;
  bool follow_switch = false;
};
void ref_decision(LD m); // distance of a data dependent decision to its switching point
void run_ref(const RefIn &in, RefOut &out, std::vector<double> *auxout = nullptr);

std::string prog_text(const Prog &p);
bool add_prog_line(std::map<int, Prog> &ps, const Line &L); // 'prog' or 'ins' line
struct GenOpt {
  int nmin = 1, nmax = 4, mmin = 1, mmax = 3, insmin = 3, insmax = 25;
  bool cmp = false, kinks = false, params = false, vec = true, nl = true, ext = false, cpl = false, fpi = false;
  int parmax = 4;
  int extk = 0;   // bit mask of allowed flavours
  bool square = false;
  double heavy = 0.0; // probability of a long program
};
Prog gen_prog(Rng &r, int id, const GenOpt &o);
