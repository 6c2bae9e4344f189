// The simulated environment: disk, memory, process ends.  One instance per simulated process.
#pragma once
#include "util.h"
#include <set>

struct IoFault { int at = -1; std::string kind; int stick = 0; };
struct SimEnv {
  // --- disk
  bool io_on = false;        // calls come from the library (count / log / inject)
  int io_n = 0;              // operations in this step
  char io_cat[601] = {0};    // class and stream of the first operations of this step
  const char *fail_read = nullptr; // sticky reads: "eof" (truncated file) instead of an error
  IoFault iof;
  int io_fired = 0;
  int sticky = 0;            // bit mask of operation classes that keep failing
  uint64_t io_hash = 0;      // hash over (operation, file, size) of the whole process
  std::vector<std::string> touched_w;  // paths opened for writing / removed / renamed in this step
  std::map<std::string, long> io_ops;  // statistics: class -> count
  std::map<std::string, long> io_faults; // statistics: class:kind -> count
  long io_read_bytes = 0, io_write_bytes = 0;
  int open_streams = 0;
  int stdio_buf = 0;         // bytes of stdio buffering of the simulated streams (0: the C library's default)
  // --- memory
  bool al_on = false;
  int al_n = 0;
  int al_at = -1;
  int al_fired = 0;
  int al_budget = -1;
};
extern SimEnv ENV;
enum IoClass { IO_OPEN = 1, IO_READ = 2, IO_WRITE = 4, IO_SEEK = 8, IO_CLOSE = 16, IO_REMOVE = 32, IO_STAT = 64 };
void env_step_begin();           // resets per-step counters, faults
struct LibCall {                 // scope: control is inside the library
  bool io, al;
  LibCall() : io(ENV.io_on), al(ENV.al_on) { ENV.io_on = true; ENV.al_on = true; }
  ~LibCall() { ENV.io_on = io; ENV.al_on = al; }
};
struct UserCode {                // scope: control is back in user code (callbacks, recording bodies)
  bool io, al;
  UserCode() : io(ENV.io_on), al(ENV.al_on) { ENV.al_on = false; }
  ~UserCode() { ENV.io_on = io; ENV.al_on = al; }
};
void sim_kill();                 // the simulated process dies here: nothing buffered survives
constexpr int KILL_CODE = 77;
