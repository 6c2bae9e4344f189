// Executes plans: simulated processes, variants, comparison between variants.
#pragma once
#include "world.h"
#include <set>
struct Vio { int idx; std::string tag, msg, where; };
struct StepOut { int idx; char st; int rc; uint64_t mh, dig; int io, al, fired; std::string cats; };
struct RunOut {
  std::vector<StepOut> steps;
  std::map<std::string, long> cov;
  uint64_t io_hash = 0;
  bool killed = false, crashed = false;
};
struct PlanOut {
  std::vector<Vio> vios;
  std::vector<RunOut> runs;            // one per variant
  std::map<std::string, long> cov;
  std::set<uint64_t> states;           // distinct (fault/spill/state) histories
  uint64_t digest = 0;                 // over everything observed
  std::string transcript;
};
struct ExecOpt { bool nofault = false, base_only = false, verbose = false; };
PlanOut exec_plan(const Plan &p, const ExecOpt &o);
extern std::string scratch_root;
Plan gen_plan(const std::string &prof, uint64_t seed);
extern const char *PROFILES[];
// scheduler flavour
#ifdef SIM_SCHED
#endif
void run_child(const Plan &p, size_t from, size_t to, const KV &knobs, bool nofault, int fd);
