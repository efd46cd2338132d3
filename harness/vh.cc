#include "vh.h"
#include <thread>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vh {
namespace {
struct Mode {
  CaseFn fn;
  bool dir;
};
std::map<std::string, Mode> &modes() {
  static std::map<std::string, Mode> m;
  return m;
}
std::mutex mu;
std::map<std::string, uint64_t> counters, maxima;
std::vector<std::string> samples;
std::set<uint64_t> hashes;
uint64_t violations = 0, done = 0, skipped = 0;
FILE *out = nullptr;
volatile uint64_t *status = nullptr;

std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
} // namespace

Reg::Reg(const char *mode, CaseFn fn, bool want_dir) { modes()[mode] = Mode{fn, want_dir}; }

std::string fmt(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char buf[8192];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
std::string show(const std::string &s, size_t limit) {
  std::string r;
  for (unsigned char c : s) {
    if (r.size() > limit) {
      r += "...";
      break;
    }
    if (c == '\\')
      r += "\\\\";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
void rmrf(const std::string &dir) {
  // only ever called on scratch paths containing "/vpscratch"
  if (dir.find("/vpscratch") == std::string::npos)
    abort();
  DIR *d = opendir(dir.c_str());
  if (d) {
    while (dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..")
        continue;
      std::string p = dir + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rmrf(p);
      else
        unlink(p.c_str());
    }
    closedir(d);
    rmdir(dir.c_str());
  }
}
std::string slurp(const std::string &file) {
  std::string r;
  FILE *f = fopen(file.c_str(), "rb");
  if (!f)
    return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    r.append(b, n);
  fclose(f);
  return r;
}
void spit(const std::string &file, const std::string &content) {
  FILE *f = fopen(file.c_str(), "wb");
  if (!f)
    abort();
  fwrite(content.data(), 1, content.size(), f);
  fclose(f);
}
std::vector<std::string> list_dir(const std::string &dir) {
  std::vector<std::string> r;
  DIR *d = opendir(dir.c_str());
  if (d) {
    while (dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..")
        r.push_back(n);
    }
    closedir(d);
  }
  std::sort(r.begin(), r.end());
  return r;
}
bool exists(const std::string &path) { return access(path.c_str(), F_OK) == 0; }
void copy_dir(const std::string &from, const std::string &to) {
  mkdir(to.c_str(), 0755);
  for (auto &n : list_dir(from)) {
    struct stat st;
    std::string p = from + "/" + n;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      copy_dir(p, to + "/" + n);
    else
      spit(to + "/" + n, slurp(p));
  }
}

// A reading of the task directory can miss threads when one ends just then.
size_t thread_count() {
  size_t most = 0;
  for (int i = 0; i < 3; i++) {
    DIR *d = opendir("/proc/self/task");
    if (d == nullptr)
      return 0;
    size_t n = 0;
    while (auto *e = readdir(d))
      if (e->d_name[0] != '.')
        n++;
    closedir(d);
    most = std::max(most, n);
  }
  return most;
}
namespace {
size_t baseline = 1;
}
size_t base_threads() { return baseline; }

void Ctx::report(const std::string &sig, const std::string &msg) {
  std::lock_guard<std::mutex> g(mu);
  violations++;
  fprintf(out, "{\"t\":\"viol\",\"case\":%" PRIu64 ",\"sig\":\"%s\",\"msg\":\"%s\"}\n", id,
          esc(sig).c_str(), esc(msg.substr(0, 4000)).c_str());
  fflush(out);
}
void Ctx::fail(const std::string &sig, const std::string &msg) {
  if (probe != nullptr) {
    *probe = sig + ": " + msg;
    throw CaseFail();
  }
  report(sig, msg);
  throw CaseFail();
}
void Ctx::nontrivial(uint64_t h) {
  std::lock_guard<std::mutex> g(mu);
  hashes.insert(h);
}
void Ctx::count(const std::string &k, uint64_t n) {
  if (mute)
    return;
  std::lock_guard<std::mutex> g(mu);
  counters[k] += n;
}
void Ctx::maxof(const std::string &k, uint64_t n) {
  if (mute)
    return;
  std::lock_guard<std::mutex> g(mu);
  maxima[k] = std::max(maxima[k], n);
}
void Ctx::sample(const std::string &s) {
  std::lock_guard<std::mutex> g(mu);
  if (samples.size() < 3)
    samples.push_back(s.substr(0, 600));
}
void Ctx::trace(const char *f, ...) {
  if (!verbose)
    return;
  va_list ap;
  va_start(ap, f);
  vfprintf(stderr, f, ap);
  va_end(ap);
  fputc('\n', stderr);
}
} // namespace vh

int main(int argc, char **argv) {
  using namespace vh;
  std::string mode, scratch = "/tmp", status_file, hash_file, out_file, opt;
  uint64_t seed = 1, start = 0, count = 1, stride = 1;
  int effort = 0;
  bool verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--mode")
      mode = val();
    else if (a == "--seed")
      seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--start")
      start = strtoull(val().c_str(), 0, 10);
    else if (a == "--count")
      count = strtoull(val().c_str(), 0, 10);
    else if (a == "--stride")
      stride = strtoull(val().c_str(), 0, 10);
    else if (a == "--scratch")
      scratch = val();
    else if (a == "--status")
      status_file = val();
    else if (a == "--hashes")
      hash_file = val();
    else if (a == "--out")
      out_file = val();
    else if (a == "--opt")
      opt = val();
    else if (a == "--effort")
      effort = atoi(val().c_str());
    else if (a == "--verbose")
      verbose = true;
    else if (a == "--list") {
      for (auto &m : modes())
        printf("%s\n", m.first.c_str());
      return 0;
    }
  }
  out = out_file.empty() ? stdout : fopen(out_file.c_str(), "ab");
  if (!out)
    return 3;
  auto it = modes().find(mode);
  if (it == modes().end()) {
    fprintf(stderr, "unknown mode %s\n", mode.c_str());
    return 3;
  }
  uint64_t dummy[2];
  status = dummy;
  if (!status_file.empty()) {
    int fd = open(status_file.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 16) != 0)
      return 3;
    status = (volatile uint64_t *)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  if (scratch.find("vpscratch") == std::string::npos) {
    scratch += "/vpscratch";
    mkdir(scratch.c_str(), 0755);
  }
  FILE *hf = hash_file.empty() ? nullptr : fopen(hash_file.c_str(), "wb");
  if (getuid() == 0 && !getenv("VH_STAY_ROOT")) {
    // Whatever the code under test deletes or overwrites, it does so as an
    // unprivileged user who owns nothing but this scratch directory.
    if (chown(scratch.c_str(), 65534, 65534) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
      fprintf(stderr, "note: could not drop privileges\n");
  }
  std::thread([] {}).join(); // sanitizer runtimes start their own thread with the first one
#if defined(__SANITIZE_THREAD__)
  const size_t own = 2;
#else
  const size_t own = 1;
#endif
  baseline = thread_count();
  for (int i = 0; i < 5000 && baseline > own; i++) { // the joined thread may take a moment to disappear
    usleep(1000);
    baseline = std::min(baseline, thread_count());
  }
  std::string base = scratch + "/c" + std::to_string(getpid());
  if (chdir(scratch.c_str()) != 0)
    return 3;
  for (uint64_t n = 0; n < count; n++) {
    uint64_t id = start + n * stride;
    status[0] = id;
    status[1] = 1;
    Ctx c;
    c.id = id;
    c.seed = seed;
    c.verbose = verbose;
    c.effort = effort;
    c.opt = opt;
    c.rng = Rng(mix(seed * 1000003ull) ^ mix(id) ^ hash_str(mode));
    if (it->second.dir) {
      c.dir = base + "_" + std::to_string(id);
      mkdir(c.dir.c_str(), 0755);
    }
    try {
      it->second.fn(c);
    } catch (const CaseFail &) {
    } catch (const CaseSkip &) {
      skipped++;
    }
    done++;
    if (it->second.dir)
      rmrf(c.dir);
  }
  status[1] = 2;
  fprintf(out, "{\"t\":\"stat\",\"done\":%" PRIu64 ",\"skipped\":%" PRIu64 ",\"viol\":%" PRIu64, done,
          skipped, violations);
  fprintf(out, ",\"counters\":{");
  bool first = true;
  for (auto &k : counters) {
    fprintf(out, "%s\"%s\":%" PRIu64, first ? "" : ",", esc(k.first).c_str(), k.second);
    first = false;
  }
  fprintf(out, "},\"maxima\":{");
  first = true;
  for (auto &k : maxima) {
    fprintf(out, "%s\"%s\":%" PRIu64, first ? "" : ",", esc(k.first).c_str(), k.second);
    first = false;
  }
  fprintf(out, "},\"samples\":[");
  first = true;
  for (auto &s : samples) {
    fprintf(out, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
    first = false;
  }
  fprintf(out, "]}\n");
  fflush(out);
  if (hf) {
    for (uint64_t h : hashes)
      fwrite(&h, 8, 1, hf);
    fclose(hf);
  }
  fflush(stdout);
  fflush(stderr);
  _exit(0); // skip static destruction: detached library threads may be alive
}
