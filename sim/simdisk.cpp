// Simulated disk: every stream the library opens is a cookie stream over a file of the scratch directory.
#include "sim.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
SimEnv ENV;
extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_remove(const char *);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_stat(const char *, struct stat *);
}
void env_step_begin() {
  ENV.io_n = 0; ENV.iof = IoFault(); ENV.io_fired = 0; ENV.sticky = 0; ENV.fail_read = nullptr; ENV.io_cat[0] = 0; ENV.touched_w.clear();
  ENV.al_n = 0; ENV.al_at = -1; ENV.al_fired = 0;
}
void sim_kill() { _exit(KILL_CODE); }
static const char *cname(int c) {
  switch (c) { case IO_OPEN: return "open"; case IO_READ: return "read"; case IO_WRITE: return "write"; case IO_SEEK: return "seek";
  case IO_CLOSE: return "close"; case IO_REMOVE: return "remove"; default: return "stat"; }
}
// decides the fate of the next operation: "" = normal
static std::string fate(int cls, const std::string &name, long size) {
  bool al = ENV.al_on;
  ENV.al_on = false;
  std::string r;
  const int id = ENV.io_n++;
  ENV.io_hash = hcomb(hcomb(ENV.io_hash, static_cast<uint64_t>(cls)), hbytes(name.data(), name.size(), static_cast<uint64_t>(size) + 77));
  ++ENV.io_ops[cname(cls)];
  if (id < 600) {
    int c = 0, st = 0;
    while ((1 << c) < cls) ++c;
    static const char *stream[] = {"Operations", "Locations", "Values", "Taylor"};
    for (int i = 0; i < 4; ++i) if (name.find(stream[i]) != std::string::npos) st = i + 1;
    ENV.io_cat[id] = static_cast<char>('0' + c * 5 + st);
    ENV.io_cat[id + 1] = 0;
  }
  if (id == ENV.iof.at) {
    r = ENV.iof.kind;
    ++ENV.io_fired;
    ++ENV.io_faults[std::string(cname(cls)) + ":" + r];
    if (r == "kill") sim_kill();
    if (ENV.iof.stick) { ENV.sticky |= cls; if (r == "eof") ENV.fail_read = "eof"; }
  } else if (ENV.sticky & cls) { r = cls == IO_READ && ENV.fail_read ? ENV.fail_read : "fail"; ++ENV.io_fired; }
  ENV.al_on = al;
  return r;
}
namespace {
struct Ck { int fd; bool lost; bool rw; char name[256]; char buf[1024]; };
ssize_t ck_read(void *c, char *b, size_t n) {
  UserCode own;
  Ck *k = static_cast<Ck *>(c);
  std::string f = fate(IO_READ, k->name, static_cast<long>(n));
  if (f == "eof") return 0;
  if (f == "short") n = n > 1 ? n / 2 : n;
  else if (!f.empty()) { errno = EIO; return -1; }
  ssize_t r = read(k->fd, b, n);
  if (r > 0) ENV.io_read_bytes += r;
  return r;
}
ssize_t ck_write(void *c, const char *b, size_t n) {
  UserCode own;
  Ck *k = static_cast<Ck *>(c);
  std::string f = fate(IO_WRITE, k->name, static_cast<long>(n));
  if (f == "short") { ssize_t r = write(k->fd, b, n / 2); if (r > 0) ENV.io_write_bytes += r; ENV.sticky |= IO_WRITE; errno = ENOSPC; return r < 0 ? 0 : r; }
  // a lost write shows up when the stream is closed; a stream that is also read would see its own data until then
  if (f == "lost" && !k->rw) { k->lost = true; lseek(k->fd, static_cast<off_t>(n), SEEK_CUR); return static_cast<ssize_t>(n); }
  if (!f.empty()) { errno = ENOSPC; return 0; }
  ssize_t r = write(k->fd, b, n);
  if (r > 0) ENV.io_write_bytes += r;
  return r < 0 ? 0 : r;
}
int ck_seek(void *c, off64_t *o, int w) {
  UserCode own;
  Ck *k = static_cast<Ck *>(c);
  std::string f = fate(IO_SEEK, k->name, static_cast<long>(*o));
  if (!f.empty()) { errno = EIO; return -1; }
  off_t r = lseek(k->fd, *o, w);
  if (r < 0) return -1;
  *o = r;
  return 0;
}
int ck_close(void *c) {
  UserCode own;
  Ck *k = static_cast<Ck *>(c);
  std::string f = fate(IO_CLOSE, k->name, 0);
  int r = close(k->fd);
  if (k->lost || !f.empty()) { errno = EIO; r = -1; }
  --ENV.open_streams;
  bool al = ENV.al_on; ENV.al_on = false;
  delete k;
  ENV.al_on = al;
  return r;
}
} // namespace
static FILE *sim_open(const char *p, const char *m) {
  UserCode own;
  if (!ENV.io_on) return __real_fopen(p, m);
  bool al = ENV.al_on;
  ENV.al_on = false;
  FILE *ret = nullptr;
  const bool w = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+');
  std::string f = fate(IO_OPEN, p, w);
  if (w) ENV.touched_w.push_back(p);
  if (!f.empty()) errno = EMFILE;
  else {
    int fl = 0;
    if (strchr(m, '+')) fl = O_RDWR; else fl = w ? O_WRONLY : O_RDONLY;
    if (strchr(m, 'w')) fl |= O_CREAT | O_TRUNC;
    if (strchr(m, 'a')) fl |= O_CREAT | O_APPEND;
    int fd = open(p, fl, 0644);
    if (fd >= 0) {
      Ck *k = new Ck{fd, false, strchr(m, '+') != nullptr, {0}, {0}};
      snprintf(k->name, sizeof k->name, "%s", p);
      ret = fopencookie(k, m, cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close});
      if (ret && ENV.stdio_buf) setvbuf(ret, k->buf, _IOFBF, static_cast<size_t>(std::min(ENV.stdio_buf, 1024)));
      ++ENV.open_streams;
    }
  }
  ENV.al_on = al;
  return ret;
}
extern "C" {
FILE *__wrap_fopen(const char *p, const char *m) { return sim_open(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return sim_open(p, m); }
static int gone(const char *p, int (*real)(const char *)) {
  UserCode own;
  if (!ENV.io_on) return real(p);
  bool al = ENV.al_on;
  ENV.al_on = false;
  std::string f = fate(IO_REMOVE, p, 0);
  ENV.touched_w.push_back(p);
  int r = -1;
  if (!f.empty()) errno = EACCES; else r = real(p);
  ENV.al_on = al;
  return r;
}
int __wrap_remove(const char *p) { return gone(p, __real_remove); }
int __wrap_unlink(const char *p) { return gone(p, __real_unlink); }
int __wrap_rename(const char *a, const char *b) {
  UserCode own;
  if (ENV.io_on) {
    bool al = ENV.al_on;
    ENV.al_on = false;
    std::string f = fate(IO_REMOVE, a, 1);
    ENV.touched_w.push_back(a); ENV.touched_w.push_back(b);
    ENV.al_on = al;
    if (!f.empty()) { errno = EACCES; return -1; }
  }
  return __real_rename(a, b);
}
int __wrap_stat(const char *p, struct stat *s) {
  UserCode own;
  if (ENV.io_on && !fate(IO_STAT, p, 0).empty()) { errno = EACCES; return -1; }
  return __real_stat(p, s);
}
}
