// sim gen PROFILE SEED | sim run PLAN [-v] | sim batch PROFILE SEED0 STRIDE SECONDS MAXRUNS OUTJSON
#include "exec.h"
#include <cstring>
#include <ctime>
#include <unistd.h>
#include <algorithm>
static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (static_cast<unsigned char>(c) < 32) r += ' '; else if (static_cast<unsigned char>(c) > 126) r += '?'; else r += c; }
  return r;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
int main(int argc, char **argv) {
  // ColPack colours in parallel; its threads are outside of the seam, so there is one
  if (const char *o = getenv("OMP_NUM_THREADS"); !o || strcmp(o, "1")) {
    setenv("OMP_NUM_THREADS", "1", 1);
    execv("/proc/self/exe", argv);
  }
  std::vector<std::string> a(argv + 1, argv + argc);
  if (const char *e = getenv("SIM_SCRATCH")) scratch_root = e;
  if (a.size() >= 3 && a[0] == "gen") { fputs(join_plan(gen_plan(a[1], strtoull(a[2].c_str(), nullptr, 10))).c_str(), stdout); return 0; }
  if (a.size() >= 2 && a[0] == "run") {
    PlanOut o = exec_plan(read_plan(a[1]), ExecOpt());
    if (a.size() > 2) fputs(o.transcript.c_str(), stdout);
    if (a.size() > 2) for (auto &c : o.cov) printf("C %s %ld\n", c.first.c_str(), c.second);
    for (auto &v : o.vios) printf("VIO %d %s [%s] %s\n", v.idx, v.tag.c_str(), v.where.c_str(), v.msg.c_str());
    printf("DIGEST %lx\n", o.digest);
    return o.vios.empty() ? 0 : 1;
  }
  if (a.size() >= 7 && a[0] == "batch") {
    const uint64_t s0 = strtoull(a[2].c_str(), nullptr, 10), stride = strtoull(a[3].c_str(), nullptr, 10);
    const double limit = atof(a[4].c_str()), t0 = now();
    const long maxruns = atol(a[5].c_str());
    std::map<std::string, long> cov;
    std::set<uint64_t> states, hashes, distinct;
    long runs = 0, steps = 0, viol = 0, vary = 0;
    std::string vj;
    std::map<std::string, int> pertag;
    for (uint64_t k = 0; runs < maxruns && now() - t0 < limit; ++k) {
      const uint64_t seed = s0 + k * stride;
      Plan p = gen_plan(a[1], seed);
      PlanOut o = exec_plan(p, ExecOpt());
      ++runs;
      for (auto &c : o.cov) cov[c.first] += c.second;
      for (uint64_t h : o.states) if (states.size() < 2000000) states.insert(h);
      if (o.cov["numbers:compared"] + o.cov["variant:compared"] + o.cov["ext:checked"] + o.cov["vars:checked"] + o.cov["files:kept-checked"] > 0) distinct.insert(o.digest);
      for (auto &q : o.runs) { steps += static_cast<long>(q.steps.size()); hashes.insert(q.io_hash); }
      if (runs % 97 == 1) { // determinism: the same seed again gives the same history
        PlanOut o2 = exec_plan(gen_plan(a[1], seed), ExecOpt());
        ++cov["determinism:rechecked"];
        if (o2.digest != o.digest) { ++vary; vj += fmt("%s{\"seed\": %lu, \"tag\": \"nondeterminism\", \"msg\": \"two executions of one seed differ\"}", vj.empty() ? "" : ", ", seed); }
      }
      if (!o.vios.empty() && getenv("SIM_KEEP")) {
        FILE *kf = fopen(fmt("%s/%s.%lu.plan", getenv("SIM_KEEP"), a[1].c_str(), seed).c_str(), "w");
        if (kf) { fputs(join_plan(p).c_str(), kf); fputs(("# " + o.vios[0].tag + " " + o.vios[0].msg + "\n").c_str(), kf); fputs(o.transcript.c_str(), kf); fclose(kf); }
      }
      for (auto &v : o.vios) {
        ++viol;
        if (pertag[v.tag]++ < 3 && vj.size() < 60000) vj += fmt("%s{\"seed\": %lu, \"tag\": \"%s\", \"idx\": %d, \"where\": \"%s\", \"msg\": \"%.900s\"}", vj.empty() ? "" : ", ", seed, esc(v.tag).c_str(), v.idx, v.where.c_str(), esc(v.msg).c_str());
      }
    }
    std::string j = fmt("{\"runs\": %ld, \"steps\": %ld, \"violations\": %ld, \"states\": %zu, \"io_histories\": %zu, \"distinct\": %zu, \"seconds\": %.2f,\n", runs, steps, viol, states.size(), hashes.size(), distinct.size(), now() - t0);
    j += " \"found\": [" + vj + "],\n \"cov\": {";
    bool f = true;
    for (auto &c : cov) { j += fmt("%s\"%s\": %ld", f ? "" : ", ", esc(c.first).c_str(), c.second); f = false; }
    j += "},\n \"statehashes\": [";
    size_t n = 0;
    for (uint64_t h : states) { if (n++ > 200000) break; j += fmt("%s%u", n > 1 ? "," : "", static_cast<unsigned>(h)); }
    j += "]}\n";
    FILE *o = fopen(a[6].c_str(), "w");
    if (!o) return 3;
    fputs(j.c_str(), o);
    fclose(o);
    return 0;
  }
  fprintf(stderr, "usage: sim gen|run|batch\n");
  return 3;
}
