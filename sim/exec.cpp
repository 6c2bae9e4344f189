#include "exec.h"
#include <adolc/adolc.h>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
std::string scratch_root = "/tmp";

static void put(int fd, const std::string &s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t r = write(fd, s.data() + o, s.size() - o); if (r <= 0) break; o += static_cast<size_t>(r); }
}
static std::string clean(std::string s) { for (char &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static void wipe(const std::string &d) { // only ever below the scratch root
  DIR *p = opendir(d.c_str());
  if (!p) return;
  while (dirent *e = readdir(p)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string f = d + "/" + n;
    struct stat st;
    if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(f.c_str(), 0755); wipe(f); } else ::unlink(f.c_str());
  }
  closedir(p);
  rmdir(d.c_str());
}
static std::string slurp(const std::string &f, size_t max = 1 << 22) {
  std::string s;
  int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0) return s;
  char b[65536];
  ssize_t r;
  while (s.size() < max && (r = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(r));
  close(fd);
  return s;
}
static std::string unhex(const std::string &h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static void files_in(const std::string &d, const std::string &rel, std::vector<std::string> &out) {
  DIR *p = opendir(d.c_str());
  if (!p) return;
  while (dirent *e = readdir(p)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (lstat((d + "/" + n).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) files_in(d + "/" + n, rel + n + "/", out); else if (S_ISREG(st.st_mode)) out.push_back(rel + n);
  }
  closedir(p);
}
static World *THE_WORLD = nullptr;
static int OUT_FD = -1;
// runs in the forked simulated process
void run_child(const Plan &plan, size_t from, size_t to, const KV &knobs, bool nofault, int fd) {
  OUT_FD = fd;
  THE_WORLD = new World;
  World &w = *THE_WORLD;
  for (auto &k : knobs) w.knobs[k.first] = k.second;
  w.on_step = [fd](const StepRec &r) {
    if (ENV.io_cat[0]) put(fd, fmt("K %s\n", ENV.io_cat));
    put(fd, fmt("R %d %c %d %lx %lx %d %d %d %.200s\n", r.idx, r.st, r.rc, r.mh, r.dig, r.io, r.al, r.fired, clean(r.what).c_str()));
  };
  w.on_tape = [fd](int id, const std::string &d) { put(fd, fmt("N %d %s\n", id, d.c_str())); };
  w.on_violation = [fd](int idx, const std::string &tag, const std::string &msg) { put(fd, fmt("V %d %s %.1500s\n", idx, tag.c_str(), clean(msg).c_str())); };
  for (auto &l : plan) { Line L = parse_line(l); if (L.word(0) == "prog" || L.word(0) == "ins") add_prog_line(w.progs, L); }
  env_step_begin();
  ENV.stdio_buf = knobs.count("sbuf") ? atoi(knobs.at("sbuf").c_str()) : 0;
  Line pend[2];
  bool have[2] = {false, false};
  auto foreign = [&](size_t upto) {
    for (size_t i = 0; i <= upto; ++i) {
      Line L = parse_line(plan[i]);
      if (L.word(0) == "step" && L.kv.count("nest") && L.s("nt", "-") == knobs.at("only") && L.s("t", "-") != knobs.at("only") && L.s("nest") != "eval") return true;
    }
    return false;
  };
  for (size_t i = from; i < to; ++i) {
    Line L = parse_line(plan[i]);
    if (L.word(0) == "fault") {
      const bool al = L.word(1) == "alloc";
      pend[al] = L; have[al] = true;
      continue;
    }
    if (L.word(0) == "exit") { // abrupt end of the simulated process
      put(fd, "X\n");
      _exit(KILL_CODE);
    }
    if (L.word(0) != "step") continue;
    if (knobs.count("only")) {
      if (foreign(i)) break; // a step of another tape recorded this one: nothing left to compare
      if (L.kv.count("t") && L.s("t") != knobs.at("only")) {
        if (L.s("t2", "-") == knobs.at("only")) break; // swept from a step of another tape
        continue;
      }
    }
    if (knobs.count("skip")) { std::string k = "," + knobs.at("skip") + ",", me = "," + L.s("g", "-") + ","; if (k.find(me) != std::string::npos) continue; }
    env_step_begin();
    w.fault_planned = false;
    if (have[0] && !nofault) { ENV.iof.at = pend[0].i("j"); ENV.iof.kind = pend[0].s("kind", "fail"); ENV.iof.stick = pend[0].i("stick"); w.fault_planned = true; }
    if (have[1] && !nofault) { ENV.al_at = pend[1].i("j"); w.fault_planned = true; }
    have[0] = have[1] = false;
    put(fd, fmt("S %zu\n", i));
    w.run_line(L, static_cast<int>(i));
  }
  env_step_begin();
  // who owns which file at the end of the process
  for (auto &o : w.owner) {
    Slot *s = w.slot(o.second);
    std::string body = slurp(o.first);
    put(fd, fmt("O %d %d %d %d %lx %s\n", o.second, s ? (s->flag | (s->forced ? 4 : 0) | (s->skipped ? 8 : 0)) : 0, s && s->complete, file_exists(o.first), hbytes(body.data(), body.size()), o.first.c_str()));
  }
  for (auto &c : w.cov) put(fd, fmt("C %ld %s\n", c.second, c.first.c_str()));
  for (auto &c : ENV.io_ops) put(fd, fmt("C %ld io:%s\n", c.second, c.first.c_str()));
  for (auto &c : ENV.io_faults) put(fd, fmt("C %ld fault:%s\n", c.second, c.first.c_str()));
  put(fd, fmt("H %lx %ld %ld\n", ENV.io_hash, ENV.io_read_bytes, ENV.io_write_bytes));
  put(fd, "E\n");
  delete THE_WORLD;
  THE_WORLD = nullptr;
  fflush(nullptr);
  exit(0); // static and thread-local destructors of the library run
}

static std::string crash_summary(const std::string &err) {
  size_t p = err.find("ERROR: AddressSanitizer");
  std::string s;
  if (p != std::string::npos) {
    s = err.substr(p, err.find('\n', p) - p);
    size_t as = err.find("Assertion `");
    if (as != std::string::npos) s = clean(err.substr(as, err.find('\n', as) - as)) + " " + s;
    as = err.find("  what():");
    if (as != std::string::npos) s = "uncaught exception " + clean(err.substr(as, err.find('\n', as) - as)) + " " + s;
    // first library frame
    size_t q = p;
    int lib = 0;
    for (int i = 0; i < 25; ++i) {
      q = err.find(" in ", q + 1);
      if (q == std::string::npos) break;
      std::string f = err.substr(q + 4, err.find('\n', q) - q - 4);
      if ((f.find("/repo/") != std::string::npos || f.find("ADOL-C/") != std::string::npos) && f.find("bufferstate.h") == std::string::npos) { s += " in " + f.substr(0, f.find("(") == std::string::npos ? 40 : f.find("(")) + f.substr(f.rfind("/") == std::string::npos ? 0 : f.rfind("/")); if (++lib > 4) break; }
    }
  } else {
    p = err.find("terminate called");
    s = clean(p != std::string::npos ? err.substr(p, 300) : err.size() > 300 ? err.substr(err.size() - 300) : err);
  }
  return clean(s).substr(0, 500);
}

static RunOut run_variant(const Plan &plan, const KV &knobs, const std::string &vname, bool nofault, PlanOut &po, const std::string &root) {
  RunOut out;
  std::map<std::string, uint64_t> foreign; // files that belong to the user or to earlier processes
  const std::string dir = root + "/v_" + vname, logf = root + "/log", errf = root + "/err";
  mkdir(dir.c_str(), 0755);
  size_t i = 0;
  int seg = 0;
  while (i <= plan.size()) {
    size_t j = i;
    while (j < plan.size() && parse_line(plan[j]).word(0) != "proc") ++j;
    // preparation of the working directory
    if (seg && knobs.count("freshdir")) {
      std::vector<std::string> fs;
      files_in(dir, "", fs);
      for (auto &f : fs) if (f.find(".adolcrc") == std::string::npos) ::unlink((dir + "/" + f).c_str());
    }
    if (seg == 0) ::unlink((dir + "/.adolcrc").c_str());
    bool conf = false;
    for (size_t k = i; k < j; ++k) {
      Line L = parse_line(plan[k]);
      if (L.word(0) == "rcraw" && !knobs.count("noconf")) { // configuration file with given bytes
        std::string b = unhex(L.word(1));
        rmdir((dir + "/.adolcrc").c_str());
        ::unlink((dir + "/.adolcrc").c_str());
        if (L.s("mode") == "dir") mkdir((dir + "/.adolcrc").c_str(), 0755);
        else if (L.s("mode") == "dangling") { if (symlink("nowhere/at/all", (dir + "/.adolcrc").c_str())) {} }
        else { int f = open((dir + "/.adolcrc").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); put(f, b); close(f); if (L.s("mode") == "noperm") chmod((dir + "/.adolcrc").c_str(), 0); }
        conf = true;
      } else if (L.word(0) == "mkd" && L.s("name").find('/') == std::string::npos) {
        mkdir((dir + "/" + L.s("name")).c_str(), static_cast<mode_t>(strtol(L.s("perm", "755").c_str(), nullptr, 8)));
      } else if (L.word(0) == "junk") { // every file in the directory is overwritten with garbage of its own or given size
        Rng r(L.u("seed", 1));
        std::vector<std::string> fs, all;
        files_in(dir, "", all);
        for (auto &f : all) if (f.find(".tap") != std::string::npos) fs.push_back(dir + "/" + f);
        std::sort(fs.begin(), fs.end());
        for (auto &f : fs) {
          if (r.chance(0.3)) continue;
          std::string b;
          int n = r.below(3000);
          for (int q = 0; q < n; ++q) b += static_cast<char>(r.next());
          int h = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          put(h, b);
          close(h);
        }
      } else if (L.word(0) == "prefile" && L.s("name").find("..") == std::string::npos && L.s("name")[0] != '/' && !knobs.count("noprefile")) {
        std::string b;
        Rng r(L.u("seed", 1));
        int n = L.i("size", 100);
        for (int q = 0; q < n; ++q) b += static_cast<char>(r.next());
        int h = open((dir + "/" + L.s("name")).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        put(h, b);
        close(h);
      }
    }
    if (!conf && knobs.count("bufs")) {
      int o = 64, l = 64, v = 64, t = 64;
      sscanf(knobs.at("bufs").c_str(), "%d,%d,%d,%d", &o, &l, &v, &t);
      std::string b = fmt("\"OBUFSIZE\" \"%d\"\n\"LBUFSIZE\" \"%d\"\n\"VBUFSIZE\" \"%d\"\n\"TBUFSIZE\" \"%d\"\n", o, l, v, t);
      int f = open((dir + "/.adolcrc").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      put(f, b);
      close(f);
    }
    foreign.clear();
    {
      std::vector<std::string> fs;
      files_in(dir, "", fs);
      for (auto &f : fs) if (f != ".adolcrc") { std::string b = slurp(dir + "/" + f); foreign[f] = hbytes(b.data(), b.size()); }
    }
    int lf = open(logf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int ef = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      if (chdir(dir.c_str())) _exit(98);
      struct rlimit rl{12, 14};
      setrlimit(RLIMIT_CPU, &rl);
      alarm(300); // backstop against blocked processes
      struct rlimit co{0, 0};
      setrlimit(RLIMIT_CORE, &co);
      struct rlimit fs{1 << 28, 1 << 28};
      setrlimit(RLIMIT_FSIZE, &fs);
      signal(SIGXFSZ, SIG_IGN);
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      dup2(ef, 2);
      run_child(plan, i, j, knobs, nofault, lf);
      _exit(97);
    }
    close(lf);
    close(ef);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string log = slurp(logf);
    int last = -1;
    bool ended = false;
    size_t p = 0;
    std::vector<std::string> owned;
    uint64_t hist = 7;
    bool anyfault = false;
    std::string cats;
    while (p < log.size()) {
      size_t q = log.find('\n', p);
      if (q == std::string::npos) q = log.size();
      std::string l = log.substr(p, q - p);
      p = q + 1;
      if (l.empty()) continue;
      if (l[0] == 'S') last = atoi(l.c_str() + 2);
      else if (l[0] == 'K') cats = l.substr(2);
      else if (l[0] == 'R') {
        StepOut s;
        unsigned long mh, dig;
        if (sscanf(l.c_str(), "R %d %c %d %lx %lx %d %d %d", &s.idx, &s.st, &s.rc, &mh, &dig, &s.io, &s.al, &s.fired) == 8) {
          s.mh = mh; s.dig = dig; s.cats.swap(cats); cats.clear();
          out.steps.push_back(s);
          hist = hcomb(hcomb(hist, static_cast<uint64_t>(s.st)), hcomb(static_cast<uint64_t>(s.io), static_cast<uint64_t>(s.fired)));
          po.states.insert(hist);
          if (s.fired) anyfault = true;
        }
        if (po.transcript.size() < (1 << 20)) po.transcript += "[" + vname + "] " + l + "\n";
      } else if (l[0] == 'V') {
        Vio v;
        char tag[200];
        int n = 0;
        if (sscanf(l.c_str(), "V %d %199s %n", &v.idx, tag, &n) >= 2) { v.tag = tag; v.msg = l.substr(static_cast<size_t>(n)); v.where = vname; po.vios.push_back(v); }
      } else if (l[0] == 'O') owned.push_back(l);
      else if (l[0] == 'C') { long c; char nm[200]; if (sscanf(l.c_str(), "C %ld %199s", &c, nm) == 2) po.cov[nm] += c; }
      else if (l[0] == 'H') { unsigned long h; long a = 0, b = 0; sscanf(l.c_str(), "H %lx %ld %ld", &h, &a, &b); out.io_hash = hcomb(out.io_hash, h); po.cov["bytes:read"] += a; po.cov["bytes:written"] += b; }
      else if (l[0] == 'N') { // a trace of this process: directory and identifier name its files
        int id = 0, n = 0;
        sscanf(l.c_str(), "N %d %n", &id, &n);
        const std::string d = l.substr(static_cast<size_t>(n)), suf = fmt("_tape-%d.tap", id);
        for (auto f = foreign.begin(); f != foreign.end();) {
          const size_t sl = f->first.rfind('/');
          const std::string fd2 = sl == std::string::npos ? "." : f->first.substr(0, sl), base = sl == std::string::npos ? f->first : f->first.substr(sl + 1);
          if ((d == "?" || d == fd2) && base.compare(0, 6, "ADOLC-") == 0 && base.size() > suf.size() && base.compare(base.size() - suf.size(), suf.size(), suf) == 0) f = foreign.erase(f); else ++f;
        }
      }
      else if (l[0] == 'E') ended = true;
    }
    ++po.cov["processes"];
    for (auto &f : foreign) { // everything that is not named like a file of a trace of this process must be as it was
      std::string b;
      if (!file_exists(dir + "/" + f.first)) po.vios.push_back({last, "foreign-removed", "file " + f.first + " of someone else was removed", vname});
      else if (b = slurp(dir + "/" + f.first), hbytes(b.data(), b.size()) != f.second) po.vios.push_back({last, "foreign-changed", "file " + f.first + " of someone else was changed", vname});
      ++po.cov["files:foreign-checked"];
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == KILL_CODE) { out.killed = true; ++po.cov["fault:process-kill"]; }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      Vio v;
      v.idx = last;
      v.where = vname;
      std::string step = last >= 0 ? parse_line(plan[static_cast<size_t>(last)]).word(1) : "start";
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) { v.tag = "hang:" + step; v.msg = "no progress: CPU time limit reached"; }
      else {
        v.tag = std::string("crash:") + (ended ? "process-end" : step);
        v.msg = WIFSIGNALED(st) ? fmt("process died by signal %d ", WTERMSIG(st)) : fmt("process ended with status %d ", WEXITSTATUS(st));
        v.msg += crash_summary(slurp(errf, 1 << 16));
      }
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) ++po.cov["env:killed-from-outside"]; // out of memory guard: no verdict
      else po.vios.push_back(v);
      out.crashed = true;
    } else {
      for (auto &l : owned) {
        int t, flag, complete, ex, n = 0;
        unsigned long bh = 0;
        sscanf(l.c_str(), "O %d %d %d %d %lx %n", &t, &flag, &complete, &ex, &bh, &n);
        std::string f = l.substr(static_cast<size_t>(n));
        if (f.empty() || f[0] == '/') continue;
        bool now = file_exists(dir + "/" + f);
        if (anyfault) continue;
        const bool keep = (flag & 12) == 12, gone = !(flag & 1) || !(flag & 2);
        if (gone && now) po.vios.push_back({last, "leftover-file", "file " + f + " survived the normal end of the process although keeping it was not requested", vname});
        if (keep && complete && ex && !now && f.find("aylor") == std::string::npos) po.vios.push_back({last, "kept-file-lost", "file " + f + " was removed at process end although keeping it was requested", vname});
        if (keep && complete && ex && now && f.find("aylor") == std::string::npos) {
          std::string body = slurp(dir + "/" + f);
          if (hbytes(body.data(), body.size()) != bh) po.vios.push_back({last, "kept-file-changed", "file " + f + " that was asked to be kept changed at process end", vname});
        }
        if (keep && complete) ++po.cov["files:kept-checked"]; else if (gone) ++po.cov["files:cleanup-checked"];
      }
    }
    if (out.crashed) break;
    i = j + 1;
    ++seg;
    if (j >= plan.size()) break;
  }
  wipe(dir);
  return out;
}

PlanOut exec_plan(const Plan &plan, const ExecOpt &o) {
  PlanOut po;
  static int seq = 0;
  const std::string root = scratch_root + "/adsim." + std::to_string(getpid()) + "." + std::to_string(seq++);
  wipe(root);
  mkdir(root.c_str(), 0755);
  KV base;
  std::vector<std::pair<std::string, KV>> vars;
  for (auto &l : plan) {
    Line L = parse_line(l);
    if (L.word(0) == "cfg") for (auto &k : L.kv) base[k.first] = k.second;
    if (L.word(0) == "variant") vars.push_back({L.word(1), L.kv});
  }
  po.runs.push_back(run_variant(plan, base, "base", o.nofault, po, root));
  if (!o.base_only)
    for (auto &v : vars) {
      KV k = base;
      for (auto &q : v.second) { if (q.second == "-") k.erase(q.first); else k[q.first] = q.second; }
      po.runs.push_back(run_variant(plan, k, v.first, o.nofault || k.count("nofault"), po, root));
      // compare with the base run
      std::map<int, const StepOut *> b;
      for (auto &s : po.runs[0].steps) b[s.idx] = &s;
      for (auto &s : po.runs.back().steps) {
        auto it = b.find(s.idx);
        if (it == b.end()) continue;
        const StepOut &a = *it->second;
        if (a.st == '-' || s.st == '-' || a.st == 'V' || s.st == 'V' || a.fired || s.fired || a.mh != s.mh) { ++po.cov["variant:incomparable"]; continue; }
        ++po.cov["variant:compared"];
        if (a.dig != s.dig) {
          po.vios.push_back({s.idx, "differs:" + parse_line(plan[static_cast<size_t>(s.idx)]).word(1), fmt("result differs from the base run (base: %c rc %d, here: %c rc %d)", a.st, a.rc, s.st, s.rc), v.first});
          break;
        }
      }
    }
  uint64_t h = 3;
  for (auto &r : po.runs) { for (auto &s : r.steps) h = hcomb(hcomb(h, s.dig), hcomb(static_cast<uint64_t>(s.st), static_cast<uint64_t>(s.io * 1000 + s.fired))); h = hcomb(h, r.io_hash); }
  for (auto &v : po.vios) h = hcomb(h, hbytes(v.tag.data(), v.tag.size()));
  po.digest = h;
  wipe(root);
  return po;
}
