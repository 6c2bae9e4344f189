// External functions, checkpointed loops and fixed-point iterations used inside test programs.
#pragma once
#include "prog.h"
#include <adolc/checkpointing.h>
#include <adolc/externfcts.h>
#include <adolc/externfcts2.h>
#include <adolc/edfclasses.h>
#include <adolc/fixpoint.h>
struct ExtDef {                 // the function behind an O_EXT instruction
  int ni = 1, no = 1, cid = 0;
  bool nested = false;
  int flavour = 0;              // 0 plain, 1 iArr, 2 v2, 3 EDFobject, 4 EDFobject_iArr, 5 EDFobject_v2
  short inner = -1;             // tape used inside the callbacks
  int key() const { return ((cid * 4 + ni) * 4 + no) * 16 + flavour * 2 + nested; }
  double coef(int j, int i) const { return 0.3 + 0.15 * ((i * 3 + j * 5 + cid * 2) % 7); }
};
ExtDef ext_def(const Ins &I);
struct ExtReg;
// everything registered for one trace
struct ExtPool {
  short tape = -1;
  std::map<std::pair<int, int>, ExtReg *> regs;      // (key, share group) -> registration
  std::vector<std::unique_ptr<CP_Context>> contexts;
  std::map<int, CP_Context *> shared_ctx;
  std::vector<short> spare_tapes;                      // tapes created for nested use
  short steptape = -1;
  bool fresh = true;                                   // register anew at each recording
  ~ExtPool();
};
// what the callbacks saw
struct ExtCall { char dir; int key; int ord; bool ok; };
struct ExtCtl {
  std::vector<ExtCall> log;
  std::string trouble;
  int calls = 0, fail_at = -1, fail_mode = 0; // mode 0: return -7, 1: throw
  int fired = 0;
};
extern thread_local ExtCtl EXTC;
void ext_record(RecEnv &e, const Ins &I, std::vector<adouble> &a, int ordinal);
void cp_reset();
void cpl_record(RecEnv &e, const Ins &I, std::vector<adouble> &a);
void fpi_record(RecEnv &e, const Ins &I, std::vector<adouble> &a);
void ext_ref(const Ins &I, std::vector<Dual> &a);
void cpl_ref(const Ins &I, std::vector<Dual> &a);
void fpi_ref(const Ins &I, std::vector<Dual> &a);
// expected forward sequence of (key, ordinal)
std::vector<std::pair<int, int>> ext_sequence(const Prog &p);
