#include "util.h"
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
Line parse_line(const std::string &t) {
  Line L;
  L.text = t;
  size_t i = 0;
  while (i < t.size()) {
    while (i < t.size() && t[i] == ' ') ++i;
    size_t j = i;
    while (j < t.size() && t[j] != ' ') ++j;
    if (j > i) {
      std::string w = t.substr(i, j - i);
      size_t e = w.find('=');
      if (e == std::string::npos || e == 0) L.w.push_back(w);
      else L.kv[w.substr(0, e)] = w.substr(e + 1);
    }
    i = j;
  }
  return L;
}
std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
Plan read_plan(const std::string &path) {
  Plan p;
  int fd = path == "-" ? 0 : open(path.c_str(), O_RDONLY);
  if (fd < 0) return p;
  std::string all;
  char b[65536];
  ssize_t r;
  while ((r = read(fd, b, sizeof b)) > 0) all.append(b, static_cast<size_t>(r));
  if (fd) close(fd);
  size_t i = 0;
  while (i < all.size()) {
    size_t j = all.find('\n', i);
    if (j == std::string::npos) j = all.size();
    std::string l = all.substr(i, j - i);
    if (!l.empty() && l[0] != '#') p.push_back(l);
    i = j + 1;
  }
  return p;
}
std::string join_plan(const Plan &p) {
  std::string s;
  for (auto &l : p) { s += l; s += '\n'; }
  return s;
}
