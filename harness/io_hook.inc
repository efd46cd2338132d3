#include "io_hook.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace io {
Shared *shared = nullptr;
std::atomic<bool> armed{false};
bool data_only = false;
Shared *init() {
  if (shared == nullptr)
    shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  shared->ops = 0;
  shared->target = 0;
  shared->mode = COUNT;
  shared->errno_value = ENOSPC;
  shared->struck = 0;
  shared->what[0] = 0;
  shared->called = shared->done = shared->phase = 0;
  for (auto &f : shared->flags)
    f = 0;
  shared->note[0] = 0;
  return shared;
}
namespace {
template <class F> F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
const char *base(const char *path) {
  if (path == nullptr)
    return "";
  const char *s = strrchr(path, '/');
  return s ? s + 1 : path;
}
enum Verdict { GO, DIE, TEAR, REFUSE };
Verdict point(const char *op, const char *path, bool data) {
  if (!armed.load(std::memory_order_relaxed) || shared == nullptr)
    return GO;
  int mode = shared->mode.load();
  if ((mode == FAIL || mode == FAIL_FROM) && data_only && !data)
    return GO;
  uint64_t n = ++shared->ops, t = shared->target.load();
  if (n == t) {
    snprintf(shared->what, sizeof shared->what, "%s %s", op, base(path));
  }
  if (n != t && !(mode == FAIL_FROM && t != 0 && n > t))
    return GO;
  switch (mode) {
  case KILL:
    shared->struck++;
    return DIE;
  case TORN:
    shared->struck++;
    return TEAR;
  case FAIL:
  case FAIL_FROM:
    shared->struck++;
    return REFUSE;
  }
  return GO;
}
[[noreturn]] void die() {
  armed = false;
  kill(getpid(), SIGKILL);
  for (;;)
    pause();
}
int refuse() {
  errno = shared->errno_value.load();
  return -1;
}
} // namespace
} // namespace io
using namespace io;

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
  static auto f = real<ssize_t (*)(int, const void *, size_t)>("write");
  if (fd > 2)
    switch (point("write", "", true)) {
    case GO:
      break;
    case TEAR:
      if (n > 1)
        f(fd, b, n / 2);
      die();
    case DIE:
      die();
    case REFUSE:
      return refuse();
    }
  return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static auto f = real<ssize_t (*)(int, const struct iovec *, int)>("writev");
  if (fd > 2)
    switch (point("write", "", true)) {
    case GO:
      break;
    case TEAR:
      if (c > 1)
        f(fd, v, 1);
      die();
    case DIE:
      die();
    case REFUSE:
      return refuse();
    }
  return f(fd, v, c);
}
static FILE *open_hook(FILE *(*f)(const char *, const char *), const char *p, const char *m) {
  if (strpbrk(m, "wa+") != nullptr)
    switch (point("create", p, true)) {
    case GO:
      break;
    case TEAR:
    case DIE:
      die();
    case REFUSE:
      refuse();
      return nullptr;
    }
  return f(p, m);
}
FILE *fopen(const char *p, const char *m) {
  static auto f = real<FILE *(*)(const char *, const char *)>("fopen");
  return open_hook(f, p, m);
}
FILE *fopen64(const char *p, const char *m) {
  static auto f = real<FILE *(*)(const char *, const char *)>("fopen64");
  return open_hook(f, p, m);
}
#define HOOK1(name, type, decl, path, ...)                                                                                      \
  int name decl {                                                                                                               \
    static auto f = real<type>(#name);                                                                                          \
    switch (point(#name, path, false)) {                                                                                        \
    case GO:                                                                                                                    \
      break;                                                                                                                    \
    case TEAR:                                                                                                                  \
    case DIE:                                                                                                                   \
      die();                                                                                                                    \
    case REFUSE:                                                                                                                \
      return refuse();                                                                                                          \
    }                                                                                                                           \
    return f(__VA_ARGS__);                                                                                                      \
  }
typedef int (*P1)(const char *);
typedef int (*P2)(const char *, const char *);
typedef int (*PM)(const char *, mode_t);
typedef int (*PO)(const char *, off_t);
typedef int (*FO)(int, off_t);
HOOK1(rename, P2, (const char *a, const char *b) noexcept, b, a, b)
HOOK1(link, P2, (const char *a, const char *b) noexcept, b, a, b)
HOOK1(symlink, P2, (const char *a, const char *b) noexcept, b, a, b)
HOOK1(unlink, P1, (const char *a) noexcept, a, a)
HOOK1(remove, P1, (const char *a) noexcept, a, a)
HOOK1(rmdir, P1, (const char *a) noexcept, a, a)
HOOK1(mkdir, PM, (const char *a, mode_t m) noexcept, a, a, m)
HOOK1(chmod, PM, (const char *a, mode_t m) noexcept, a, a, m)
HOOK1(truncate, PO, (const char *a, off_t m) noexcept, a, a, m)
HOOK1(truncate64, PO, (const char *a, off_t m) noexcept, a, a, m)
HOOK1(ftruncate, FO, (int a, off_t m) noexcept, "", a, m)
HOOK1(ftruncate64, FO, (int a, off_t m) noexcept, "", a, m)

int system(const char *cmd) {
  static auto f = real<int (*)(const char *)>("system");
  if (cmd == nullptr)
    return f(cmd);
  std::string c = cmd;
  bool script = c.find("/commit.") != std::string::npos;
  switch (point("system", script ? "commit-script" : c.find("rm -f") != std::string::npos ? "rm" : "other", false)) {
  case GO:
    break;
  case TEAR:
    if (script) {
      // the shell dies half way through the script
      std::string path = c;
      while (!path.empty() && (path.front() == '\'' || path.front() == '"'))
        path.erase(0, 1);
      while (!path.empty() && (path.back() == '\'' || path.back() == '"'))
        path.pop_back();
      FILE *s = real<FILE *(*)(const char *, const char *)>("fopen")(path.c_str(), "r");
      std::string head;
      if (s != nullptr) {
        std::string all;
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, s)) > 0)
          all.append(b, n);
        fclose(s);
        // cut at a command boundary somewhere in the middle
        size_t want = shared->target.load() * 7919 % (all.size() + 1), cut = 0;
        for (size_t i = 0; i < all.size() && i < want; i++)
          if (all[i] == '\n' || all[i] == ';')
            cut = i + 1;
        head = all.substr(0, cut);
      }
      f(head.c_str());
    }
    die();
  case DIE:
    die();
  case REFUSE:
    break;
  }
  return f(cmd);
}
}
