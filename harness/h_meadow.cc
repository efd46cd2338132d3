// Loading files into a meadow (L01) and the statistics foraged from it (L02).
#include <filesystem>
#include "pack.h"
#include "io_hook.h"
#include "io_hook.inc"
#include "rank.h"
#include "meadowlark/forager.h"
#include "meadowlark/meadowlark.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/ranker.h"
#include <set>
#include <signal.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace cottontail;
using namespace cottontail::meadowlark;

namespace {
const char *PLAIN[] = {"owl", "mud", "bath", "pig", "mouse", "caf\xC3\xA9", "\xE4\xB8\xAD", "x1", "running", "Apple", "the"};
const char *ODD[] = {"-", "$", "\"", "\\", "(", ")", "<b>", "&amp;", "\xE2\x80\x94", ".", "'", ":"};

struct Rec {
  bool header = false;
  std::vector<std::string> fields; // as written
  std::string line;
};
struct File {
  std::string name;
  bool json = false, header = false, gz = false;
  std::string sep = "\t", text;
  std::vector<Rec> recs;
  std::vector<std::string> ids; // of documents
  size_t threads = 0;
  bool missing = false, bad = false;
};

std::shared_ptr<Tokenizer> utf8() {
  static std::shared_ptr<Tokenizer> t = Tokenizer::make("utf8", "");
  return t;
}
std::string toks(const std::string &text) {
  std::string s;
  for (auto &t : utf8()->split(text))
    s += t + " ";
  return s;
}
std::string squash(const std::string &s) {
  std::string r;
  for (char x : s)
    if (!isspace((unsigned char)x))
      r += x;
  return r;
}

std::string field(vh::Ctx &c, const std::string &sep) {
  std::string s;
  size_t n = c.rng.chance(0.1) ? 0 : 1 + c.rng.below(4);
  for (size_t i = 0; i < n; i++) {
    std::string w = c.rng.chance(0.2) ? ODD[c.rng.below(sizeof(ODD) / sizeof(*ODD))] : PLAIN[c.rng.below(sizeof(PLAIN) / sizeof(*PLAIN))];
    s += (i && sep != "" && c.rng.chance(0.8) ? " " : "") + w;
  }
  if (sep != "" && s.find(sep) != std::string::npos)
    return "z";
  return s;
}

std::vector<std::string> split(const std::string &line, const std::string &sep) {
  std::vector<std::string> v;
  if (sep == "") {
    std::string w;
    for (char x : line + " ") {
      if (isspace((unsigned char)x)) {
        if (w != "")
          v.push_back(w);
        w = "";
      } else {
        w += x;
      }
    }
    return v;
  }
  size_t at = 0, next;
  while ((next = line.find(sep, at)) != std::string::npos) {
    v.push_back(line.substr(at, next - at));
    at = next + sep.size();
  }
  v.push_back(line.substr(at));
  return v;
}

File gen_tsv(vh::Ctx &c, const std::string &name, size_t rows) {
  File f;
  f.name = name;
  f.sep = c.rng.chance(0.6) ? "\t" : c.rng.pick(std::vector<std::string>{",", "", "::", " "});
  f.header = c.rng.chance(0.4);
  f.threads = c.rng.below(5);
  for (size_t i = 0; i < rows; i++) {
    Rec r;
    size_t n = c.rng.chance(0.05) ? 0 : 1 + c.rng.below(5);
    for (size_t j = 0; j < n; j++)
      r.line += (j ? (f.sep == "" ? (c.rng.chance(0.8) ? "\t" : "  ") : f.sep) : "") + (j == 0 && c.rng.chance(0.7) ? vh::fmt("r%zu", i) : field(c, f.sep));
    f.text += r.line + (i + 1 < rows || c.rng.chance(0.7) ? (c.rng.chance(0.8) ? "\n" : c.rng.chance(0.5) ? "\r\n" : "\r") : "");
    r.fields = split(r.line, f.sep);
    r.header = f.header && i == 0;
    f.recs.push_back(r);
  }
  // a last line without anything in it and without an end isn't a line
  if (!f.recs.empty() && f.recs.back().line == "" && (f.text.empty() || (f.text.back() != '\n' && f.text.back() != '\r')))
    f.recs.pop_back();
  return f;
}

// "\r" followed by an empty line ended by "\n" would be one line end: reread it the slow way
void reread(File *f) {
  std::vector<std::string> lines;
  std::string line;
  bool any = false;
  for (size_t i = 0; i < f->text.size(); i++) {
    char x = f->text[i];
    if (x == '\n' || x == '\r') {
      if (x == '\r' && i + 1 < f->text.size() && f->text[i + 1] == '\n')
        i++;
      lines.push_back(line);
      line = "";
      any = false;
    } else {
      line += x;
      any = true;
    }
  }
  if (any)
    lines.push_back(line);
  f->recs.clear();
  for (size_t i = 0; i < lines.size(); i++) {
    Rec r;
    r.line = lines[i];
    r.header = f->header && i == 0;
    r.fields = split(r.line, f->sep);
    f->recs.push_back(r);
  }
}

std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (char x : s) {
    if (x == '"' || x == '\\')
      r += '\\';
    r += x;
  }
  return r + "\"";
}

File gen_jsonl(vh::Ctx &c, const std::string &name, size_t docs, size_t serial) {
  File f;
  f.name = name;
  f.json = true;
  f.threads = c.rng.below(6);
  std::vector<std::string> lines;
  for (size_t i = 0; i < docs; i++) {
    std::string id = vh::fmt("doc%zux%zu", serial, i);
    std::string s = "{\"id\":" + jstr(id);
    for (size_t j = c.rng.below(3); j; --j)
      s += vh::fmt(", \"k%zu\": ", j) + c.rng.pick(std::vector<std::string>{jstr(field(c, "\t")), "[1, 2, " + jstr(field(c, "\t")) + "]", "{\"a\": null, \"b\": true}", "17.5", "[]"});
    lines.push_back(s + "}");
    f.ids.push_back(id);
  }
  f.bad = c.rng.chance(0.2);
  if (f.bad)
    lines.insert(lines.begin() + (long)c.rng.below(lines.size() + 1), c.rng.pick(std::vector<std::string>{"{", "nope", "{\"id\": }", "[1e999]", "{\"a\":1} x"}));
  for (size_t i = 0; i < lines.size(); i++)
    f.text += lines[i] + (i + 1 < lines.size() || c.rng.chance(0.7) ? (c.rng.chance(0.9) ? "\n" : "\r\n") : "");
  return f;
}

bool load(std::shared_ptr<Warren> w, const File &f, std::string *error) {
  if (f.json)
    return append_jsonl(w, f.name, error, f.threads, false);
  return append_tsv(w, f.name, error, f.header, f.sep, f.threads);
}

// everything that is, or isn't, there
void check(vh::Ctx &c, std::shared_ptr<Warren> w, const std::vector<const File *> &there, const std::vector<const File *> &absent, const std::string &what, const std::string &sig) {
  std::string error;
  bool started = w->started();
  if (!started)
    w->start();
  auto list = [&](const std::string &name) {
    std::vector<std::pair<addr, addr>> v;
    auto h = w->idx()->hopper(w->featurizer()->featurize(name));
    addr p, q;
    if (h != nullptr)
      for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q))
        v.push_back({p, q});
    return v;
  };
  auto recorded = [&](const File *f) {
    bool yes = false;
    if (!already_appended(w, f->name, &yes, &error))
      c.fail(sig + "-recorded", what + ": can't tell if " + f->name + " is there: " + error);
    return yes;
  };
  for (auto f : absent) {
    if (recorded(f))
      c.fail(sig + "-recorded", what + ": " + f->name + " is recorded although it wasn't loaded");
    if (!list(f->name).empty())
      c.fail(sig + "-left", what + ": records of " + f->name + " although it wasn't loaded");
  }
  if (list("/").size() != there.size())
    c.fail(sig + "-files", what + vh::fmt(": %zu files are recorded, %zu were loaded", list("/").size(), there.size()));
  auto records = list(":"), headers = list("::");
  std::vector<std::vector<std::pair<addr, addr>>> columns;
  for (size_t j = 0; j < 12; j++)
    columns.push_back(list(vh::fmt(":%zu:", j)));
  std::set<addr> used;
  for (auto f : there) {
    if (!recorded(f))
      c.fail(sig + "-recorded", what + ": " + f->name + " was loaded but isn't recorded: " + [&] { std::string t; for (auto &x : list("/")) t += vh::fmt(" [%ld,%ld] ", (long)x.first, (long)x.second) + vh::show(w->txt()->translate(x.first, x.second), 200); return t; }());
    auto spans = list(f->name);
    auto inside = [&](std::pair<addr, addr> r) {
      for (auto &s : spans)
        if (s.first <= r.first && r.second <= s.second)
          return true;
      return false;
    };
    if (f->json) {
      std::multiset<std::string> got, want(f->ids.begin(), f->ids.end());
      for (auto &s : spans) {
        auto h = w->hopper_from_gcl("(<< :id: (>> : (# 1)))", &error);
        std::string t = w->txt()->translate(s.first, s.second);
        size_t i = t.find("doc");
        size_t e = i;
        while (e < t.size() && isalnum((unsigned char)t[e]))
          e++;
        got.insert(i == std::string::npos ? "?" : t.substr(i, e - i));
        used.insert(s.first);
        if (std::find(records.begin(), records.end(), s) == records.end())
          c.fail(sig + "-record", what + ": a document of " + f->name + " isn't a record");
      }
      if (got != want)
        c.fail(sig + "-documents", what + vh::fmt(": %zu documents of %s, expected %zu", got.size(), f->name.c_str(), want.size()));
      for (size_t i = 0; i < f->ids.size(); i += 1 + f->ids.size() / 20)
        if (list(f->ids[i]).size() != 1)
          c.fail(sig + "-word", what + vh::fmt(": %s appears %zu times", f->ids[i].c_str(), list(f->ids[i]).size()));
      c.count("documents_checked", want.size());
      continue;
    }
    std::vector<std::string> got, want;
    auto all = records;
    for (auto &h : headers) {
      if (!inside(h))
        continue;
      std::string s = "header";
      all.push_back(h);
    }
    std::sort(all.begin(), all.end());
    for (auto &r : all) {
      if (!inside(r))
        continue;
      used.insert(r.first);
      std::string s = std::find(headers.begin(), headers.end(), r) != headers.end() ? "header" : "record";
      addr at = r.first;
      for (size_t j = 0; j < columns.size(); j++) {
        auto i = std::lower_bound(columns[j].begin(), columns[j].end(), std::make_pair(r.first, minfinity));
        if (i == columns[j].end() || i->first > r.second)
          continue;
        if (i->second > r.second || i->first != at)
          c.fail(sig + "-field", what + vh::fmt(": field %zu [%ld,%ld] of the record [%ld,%ld] of %s isn't where it should be", j, (long)i->first, (long)i->second, (long)r.first, (long)r.second, f->name.c_str()));
        at = i->second + 1;
        s += vh::fmt("|%zu=", j) + toks(w->txt()->translate(i->first, i->second));
        if (i + 1 != columns[j].end() && (i + 1)->first <= r.second)
          c.fail(sig + "-field", what + vh::fmt(": field %zu appears twice in the record [%ld,%ld] of %s: [%ld,%ld] and [%ld,%ld], %s", j, (long)r.first, (long)r.second, f->name.c_str(), (long)i->first, (long)i->second, (long)(i + 1)->first, (long)(i + 1)->second, vh::show(w->txt()->translate(r.first, r.second), 300).c_str()));
        c.count("fields_checked");
      }
      if (at != r.second + 1)
        c.fail(sig + "-field", what + vh::fmt(": the fields of [%ld,%ld] end at %ld", (long)r.first, (long)r.second, (long)at));
      got.push_back(s);
    }
    for (auto &r : f->recs) {
      std::string s = r.header ? "header" : "record";
      bool any = false;
      for (size_t j = 0; j < r.fields.size(); j++) {
        std::string t = toks(r.fields[j]);
        if (t != "") {
          s += vh::fmt("|%zu=", j) + t;
          any = true;
        }
      }
      if (any)
        want.push_back(s);
    }
    c.count("records_checked", want.size());
    if (got.size() == want.size() && f->recs.size() > 60000) { // chunks may land in any order
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
    }
    for (size_t i = 0; i < std::max(got.size(), want.size()); i++)
      if (i >= got.size() || i >= want.size() || got[i] != want[i])
        c.fail(sig + "-records", what + vh::fmt(": record %zu of %s (%zu, expected %zu) is '%s', expected '%s'", i, f->name.c_str(), got.size(), want.size(), i < got.size() ? vh::show(got[i]).c_str() : "missing", i < want.size() ? vh::show(want[i]).c_str() : "none"));
  }
  for (auto &r : records)
    if (!used.count(r.first))
      c.fail(sig + "-extra", what + vh::fmt(": the record at %ld belongs to no file", (long)r.first));
  if (!started)
    w->end();
}

void quiet(std::shared_ptr<Warren> w) {
  auto b = std::dynamic_pointer_cast<Bigwig>(w);
  if (b == nullptr)
    return;
  b->merge(false);
  for (int i = 0; i < 20000 && vh::thread_count() > vh::base_threads(); i++)
    usleep(i < 200 ? 50 : 1000);
}

std::shared_ptr<Warren> make_meadow(vh::Ctx &c, std::string *what) {
  std::string error;
  std::shared_ptr<Warren> w;
  int kind = (int)c.rng.below(4);
  *what = "meadow";
  if (kind == 0) {
    auto f = Featurizer::make("json", freeze({{"name", "hashing"}, {"recipe", ""}}), &error);
    c.expect(f != nullptr, "load-make", error);
    w = Bigwig::make(nullptr, f, utf8(), &error);
    *what = "in memory";
    if (w != nullptr)
      c.expect(w->set_parameter("format", "meadowlark", &error), "load-make", error);
  } else if (kind == 1) {
    w = Bigwig::make(c.dir + "/m", "tokenizer:name:utf8 txt:json:yes featurizer@json", &error);
    *what = "meadow with JSON text";
    if (w != nullptr)
      c.expect(w->set_parameter("format", "meadowlark", &error), "load-make", error);
  } else {
    w = create_meadow(c.dir + "/m", &error);
  }
  c.expect(w != nullptr, "load-make", error);
  std::dynamic_pointer_cast<Bigwig>(w)->merge(c.rng.chance(0.7));
  return w;
}

// compressed, and maybe damaged or cut short
void pack(vh::Ctx &c, File *f) {
  f->gz = true;
  f->name += vh::packed_name(c.rng);
  if (f->missing)
    return;
  bool damaged = c.rng.chance(0.4);
  vh::packed(c, f->name, f->text, damaged);
  f->bad = f->bad || damaged;
}

std::vector<File> gen_files(vh::Ctx &c, size_t n, size_t limit) {
  std::vector<File> files;
  std::vector<std::string> names = {"a", "a b", "a.tsv", "a.tsv b", "ab", "a-b", "b a", "a:b", "\xC3\xA9t\xC3\xA9", "quo\"te", "back\\slash", "x(y)", "a.jsonl", "a.jsonl-1", " lead"};
  c.rng.shuffle(names);
  for (size_t i = 0; i < n && i < names.size(); i++) {
    std::string name = c.dir + "/" + names[i];
    File f = c.rng.chance(0.5) ? gen_tsv(c, name, c.rng.below(limit)) : gen_jsonl(c, name, c.rng.below(limit), i);
    if (!f.json)
      reread(&f);
    f.missing = c.rng.chance(0.05);
    if (c.rng.chance(0.15))
      pack(c, &f);
    else if (!f.missing && c.rng.chance(0.03))
      f.bad = std::filesystem::create_directory(f.name); // can be opened, not read
    else if (!f.missing)
      vh::spit(f.name, f.text);
    files.push_back(f);
  }
  return files;
}
} // namespace

// one file after another, or several at once
VH_MODE(load, true) {
  std::string what, error;
  auto w = make_meadow(c, &what);
  auto files = gen_files(c, 1 + c.rng.below(6), c.rng.chance(0.2) ? 200 : 25);
  std::vector<const File *> there, absent;
  bool at_once = c.rng.chance(0.3);
  what += at_once ? ", at once" : "";
  for (auto &f : files)
    absent.push_back(&f);
  auto landed = [&](const File *f) {
    there.push_back(f);
    absent.erase(std::find(absent.begin(), absent.end(), f));
  };
  if (at_once) {
    std::vector<std::thread> threads;
    std::vector<int> ok(files.size());
    std::vector<std::string> errors(files.size());
    std::vector<std::shared_ptr<Warren>> clones;
    for (size_t i = 0; i < files.size(); i++) {
      clones.push_back(w->clone(&error));
      c.expect(clones.back() != nullptr, "load-clone", error);
      files[i].threads = 1 + files[i].threads % 3;
    }
    for (size_t i = 0; i < files.size(); i++)
      threads.emplace_back([&, i] { ok[i] = load(clones[i], files[i], &errors[i]); });
    for (auto &t : threads)
      t.join();
    for (size_t i = 0; i < files.size(); i++) {
      bool want = !files[i].missing && !files[i].bad;
      if ((bool)ok[i] != want)
        c.fail("load-result", what + vh::fmt(": loading %s %s: %s", files[i].name.c_str(), ok[i] ? "succeeded" : "failed", errors[i].c_str()));
      if (!ok[i] && errors[i] == "")
        c.fail("load-error", what + ": no reason given for " + files[i].name);
      if (ok[i])
        landed(&files[i]);
    }
    clones.clear();
    check(c, w, there, absent, what, "load");
  } else {
    for (auto &f : files) {
      error = "";
      std::string which = what + (f.json ? ", JSON" : ", TSV") + vh::fmt(" '%s' with %zu threads", vh::show(f.sep).c_str(), f.threads);
      bool ok = load(w, f, &error), want = !f.missing && !f.bad;
      if (ok != want)
        c.fail("load-result", which + vh::fmt(": loading %s %s: %s", f.name.c_str(), ok ? "succeeded" : "failed", error.c_str()));
      if (!ok && error == "")
        c.fail("load-error", which + ": no reason given for " + f.name);
      if (w->started())
        c.fail("load-started", which + ": the store is left started");
      if (ok)
        landed(&f);
      c.count(ok ? "loads" : "loads_refused");
      check(c, w, there, absent, which, "load");
    }
  }
  if (vh::exists(c.dir + "/m/dna")) {
    quiet(w);
    w = nullptr;
    w = open_meadow(c.dir + "/m", &error);
    c.expect(w != nullptr, "load-open", error);
    check(c, w, there, absent, what + ", reopened", "load");
  }
  quiet(w);
  if (there.size() > 1)
    c.nontrivial(c.id);
  c.sample(what + vh::fmt(", %zu files of %zu", there.size(), files.size()));
}

// enough lines for several threads to share them
VH_MODE(load_big, true) {
  std::string what, error;
  auto w = make_meadow(c, &what);
  size_t rows = 65537 + c.rng.below(9000);
  File f;
  f.name = c.dir + "/big.tsv";
  f.header = c.rng.chance(0.5);
  f.threads = c.rng.chance(0.2) ? 0 : 2 + c.rng.below(7);
  for (size_t i = 0; i < rows; i++)
    f.text += vh::fmt("r%zu", i) + (i % 7 == 3 ? "" : vh::fmt("\tmud%s%zu", i % 3 ? " " : "\t", i % 100)) + "\n";
  reread(&f);
  vh::spit(f.name, f.text);
  bool ok = append_tsv(w, f.name, &error, f.header, "\t", f.threads);
  c.expect(ok, "load-result", what + ": " + error);
  check(c, w, {&f}, {}, what + vh::fmt(", %zu rows, %zu threads", rows, f.threads), "load");
  quiet(w);
  c.nontrivial(rows);
}

namespace {
void child(vh::Ctx &c, const std::string &what, std::function<void()> f) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0)
    throw vh::CaseSkip();
  if (pid == 0) {
    io::armed = true;
    try {
      f();
    } catch (const vh::CaseFail &) {
      _exit(7);
    }
    io::armed = false;
    kill(getpid(), SIGKILL);
    for (;;)
      pause();
  }
  int status = 0;
  for (int i = 0;; i++) {
    if (waitpid(pid, &status, WNOHANG) == pid)
      break;
    if (i > 120000) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      c.fail("load:hang", "the load did not finish within 60 s :: " + what);
    }
    usleep(i < 100 ? 100 : 500);
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 7)
    throw vh::CaseFail();
  if (!(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL))
    c.fail("load:died", vh::fmt("the load died with status 0x%x :: ", status) + what);
}
} // namespace

// killed at some file operation, or some of them fail: each file is there or it isn't
VH_MODE(load_crash, true) {
  vh::Rng &r = c.rng;
  std::string error, where = c.dir + "/m";
  auto shared = io::init();
  auto files = gen_files(c, 2 + r.below(3), 20);
  {
    auto w = create_meadow(where, &error);
    c.expect(w != nullptr, "load-make", error);
    quiet(w);
  }
  std::vector<int> result(files.size());
  auto work = [&](bool faults) {
    auto w = open_meadow(where, &error);
    c.expect(w != nullptr || faults, "load-open", error);
    if (w == nullptr)
      return;
    for (size_t i = 0; i < files.size(); i++) {
      shared->called = (int)i + 1;
      std::string e;
      bool ok = load(w, files[i], &e);
      shared->flags[i] = ok ? 1 : 2;
      shared->done = (int)i + 1;
      if (faults)
        c.expect(ok || e != "", "load-error", "no reason given");
    }
    quiet(w);
  };
  vh::copy_dir(where, c.dir + "/init");
  child(c, "dry run", [&] { work(false); });
  uint64_t total = shared->ops;
  c.count("file_operations", total);
  for (int run = 0; run < (c.effort ? 60 : 8); run++) {
    vh::rmrf(where);
    vh::copy_dir(c.dir + "/init", where);
    io::init();
    for (auto &f : shared->flags)
      f = 0;
    bool faults = r.chance(0.35);
    shared->target = 1 + r.below(total + 1);
    if (faults) {
      shared->mode = r.chance(0.5) ? io::FAIL : io::FAIL_FROM;
      shared->errno_value = ENOSPC;
      io::data_only = true;
    } else {
      shared->mode = r.chance(0.25) ? io::TORN : io::KILL;
    }
    std::string what = vh::fmt("%s at operation %lu of %lu", faults ? "failing" : "killed", (unsigned long)shared->target, (unsigned long)total);
    child(c, what, [&] { work(faults); });
    io::data_only = false;
    what += vh::fmt(" (%s), %d files called, %d done", shared->what, (int)shared->called, (int)shared->done);
    auto w = open_meadow(where, &error);
    c.expect(w != nullptr, "load-open", what + ": " + error);
    std::vector<const File *> there, absent;
    w->start();
    for (size_t i = 0; i < files.size(); i++) {
      bool yes = false;
      c.expect(already_appended(w, files[i].name, &yes, &error), "load-recorded", what + ": " + error);
      bool sound = !files[i].missing && !files[i].bad;
      if (shared->flags[i] == 1 && !yes)
        c.fail("load:lost", what + ": " + files[i].name + " was reported as loaded but isn't there");
      if (yes && (!sound || shared->flags[i] == 2))
        c.fail("load:refused", what + ": " + files[i].name + " was refused but is there");
      (yes ? there : absent).push_back(&files[i]);
      c.count(yes ? "files_survived" : "files_absent");
    }
    w->end();
    check(c, w, there, absent, what, "load:half");
    // whoever goes on loads what isn't there
    for (size_t i = 0; i < files.size(); i++) {
      File &f = files[i];
      if (f.missing || f.bad || std::find(there.begin(), there.end(), &f) != there.end())
        continue;
      c.expect(load(w, f, &error), "load:again", what + ": " + error);
      there.push_back(&f);
      absent.erase(std::find(absent.begin(), absent.end(), &f));
    }
    check(c, w, there, absent, what + ", continued", "load:again");
    quiet(w);
    w = nullptr;
    c.nontrivial(vh::mix((uint64_t)shared->target ^ vh::hash_str(shared->what)) ^ (uint64_t)shared->done);
    c.count(shared->struck ? "faults_delivered" : "faults_not_reached");
    if (shared->struck)
      c.sample(what);
  }
}

// statistics of what was foraged, against counting; rankings against scoring
namespace {
struct Foraged {
  Want want;
  size_t n = 0;
};
void forage_case(vh::Ctx &c, bool big) {
  std::string what, error;
  auto w = make_meadow(c, &what);
  std::string tag = c.rng.chance(0.5) ? "" : c.rng.pick(std::vector<std::string>{"x", "my tag", "a:b", "caf\xC3\xA9", "q\"uote"});
  std::map<std::string, std::string> par;
  std::string stem_name = "porter", token_name = "ascii";
  if (c.rng.chance(0.4))
    par["stemmer"] = stem_name = c.rng.chance(0.5) ? "null" : "porter";
  if (c.rng.chance(0.4))
    par["tokenizer"] = token_name = c.rng.chance(0.5) ? "utf8" : "ascii";
  auto stemmer = Stemmer::make(stem_name, "", &error);
  auto tokenizer = Tokenizer::make(token_name, "", &error);
  c.expect(stemmer != nullptr && tokenizer != nullptr, "forage-make", error);
  if (c.rng.chance(0.3))
    par["note"] = std::string("any\tthing \"at\" all\\\n") + c.rng.pick(std::vector<std::string>{"", "\x01", "caf\xC3\xA9", "{}"});
  std::string gcl = c.rng.chance(0.5) ? ":1:" : "(<< :1: :)";
  par["id"] = ":0:";
  if (c.rng.chance(0.3))
    par["container"] = ":";
  Foraged all;
  size_t rounds = big ? 1 : 1 + c.rng.below(3), serial = 0;
  addr from = minfinity;
  double length = 0;
  std::vector<Item> containers;
  std::multiset<std::pair<std::string, std::string>> ranges, recorded;
  auto range = [&](addr p, addr q) { ranges.insert({std::to_string(p), std::to_string(q)}); };
  for (size_t round = 0; round < rounds; round++) {
    File f;
    f.name = c.dir + vh::fmt("/f%zu", round);
    size_t rows = big ? 65537 + c.rng.below(3000) : 1 + c.rng.below(c.rng.chance(0.2) ? 100 : 25);
    for (size_t i = 0; i < rows; i++, serial++) {
      f.text += vh::fmt("D%zu", serial);
      if (!c.rng.chance(0.1)) {
        f.text += "\t";
        if (!c.rng.chance(0.05))
          for (size_t j = 1 + c.rng.below(big ? 3 : 15); j; --j)
            f.text += std::string(c.rng.chance(0.1) ? PLAIN[c.rng.below(sizeof(PLAIN) / sizeof(*PLAIN))] : VOCAB[(size_t)(c.rng.unit() * c.rng.unit() * 29)]) + (c.rng.chance(0.1) ? ", " : " ");
        if (c.rng.chance(0.3))
          f.text += "\tmore words";
      }
      f.text += "\n";
    }
    vh::spit(f.name, f.text);
    c.expect(append_tsv(w, f.name, &error, false, "\t", big ? 0 : 1 + c.rng.below(3)), "forage-load", error);
    // what there is to forage
    w->start();
    auto items = w->hopper_from_gcl(":1:", &error), recs = w->hopper_from_gcl(":", &error);
    c.expect(items != nullptr && recs != nullptr, "forage-gcl", error);
    addr p, q, last = minfinity;
    size_t fresh = 0, before = all.want.items.size();
    for (items->tau(from == minfinity ? minfinity + 1 : from, &p, &q); p < maxfinity; items->tau(p + 1, &p, &q)) {
      Item it, box;
      it.p = p, it.q = q;
      recs->rho(q, &it.cp, &it.cq);
      length += (double)(q - p + 1);
      for (auto &t : tokenizer->split(w->txt()->translate(p, q)))
        it.tf[stemmer->stem(t)]++;
      all.want.items.push_back(it);
      last = q;
      fresh++;
    }
    w->end();
    if (fresh == 0)
      continue;
    bool ok;
    size_t threads = big ? c.rng.below(6) : c.rng.below(4);
    if (rounds == 1 && c.rng.chance(0.5))
      ok = forage(w, gcl, "tf-idf", tag, par, &error, threads), range(all.want.items[before].p, last);
    else if (fresh > 1 && c.rng.chance(0.6)) {
      // in two ranges; an item belongs to one when it lies wholly within it
      auto &v = all.want.items;
      size_t k = v.size() - 1 - (1 + c.rng.below(fresh - 1));
      addr to = c.rng.range(v[k].q, v[k + 1].q - 1), next = c.rng.range(v[k].p + 1, v[k + 1].p);
      ok = forage(w, gcl, from, to, "tf-idf", tag, par, &error, threads) &&
           forage(w, gcl, next, c.rng.chance(0.5) ? last : maxfinity, "tf-idf", tag, par, &error, threads);
      c.count("forages");
      range(v[before].p, v[k].q), range(v[k + 1].p, last);
    } else
      ok = forage(w, gcl, from, last, "tf-idf", tag, par, &error, threads), range(all.want.items[before].p, last);
    if (!ok)
      c.fail("forage-failed", what + ": " + error);
    if (w->started())
      c.fail("forage-started", what + ": the store is left started");
    from = last + 1;
    c.count("forages");
  }
  if (all.want.items.empty()) {
    quiet(w);
    return;
  }
  for (auto &i : all.want.items)
    for (auto &t : i.tf)
      all.want.df[t.first]++;
  all.want.avgl = length / (double)all.want.items.size();
  what += vh::fmt(", %zu items, tag '%s', %s, %s, %zu rounds", all.want.items.size(), tag.c_str(), stem_name.c_str(), token_name.c_str(), rounds);
  if (vh::exists(c.dir + "/m/dna") && c.rng.chance(0.5)) {
    quiet(w);
    w = nullptr;
    w = open_meadow(c.dir + "/m", &error);
    c.expect(w != nullptr, "forage-open", error);
    what += ", reopened";
  }
  w->start();
  auto stats = Stats::make("tf-idf", tag, w, &error);
  if (stats == nullptr)
    { std::string t; addr p, q; auto h = w->idx()->hopper(w->featurizer()->featurize("@" + forager_label("tf-idf", tag))); h->tau(minfinity + 1, &p, &q); t = w->txt()->translate(p, q); c.fail("forage-stats", what + ": " + error + " " + vh::show(t, 500)); }
  if (tag == "") {
    auto s = Stats::make(w, &error);
    c.expect(s != nullptr && s->name() == "tf-idf", "forage-stats", what + ": the store's statistics aren't found: " + error);
  }
  Want &want = all.want;
  // records the parameters
  {
    auto h = w->idx()->hopper(w->featurizer()->featurize("@" + forager_label("tf-idf", tag)));
    addr p, q;
    size_t n = 0;
    for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q)) {
      std::string name, t;
      std::map<std::string, std::string> got;
      // up to the end of the label, whatever follows it
      std::string text = w->txt()->translate(p, q);
      bool read = false;
      for (size_t e = 0; !read && (e = text.find('}', e)) != std::string::npos;)
        read = json2forager(text.substr(0, ++e), &name, &t, &got, &error);
      if (!read)
        c.fail("forage-label", what + ": " + error + ": " + vh::show(w->txt()->translate(p, q), 400));
      bool same = name == "tf-idf" && t == tag && got["gcl"] == gcl;
      for (auto &x : par)
        same = same && got[x.first] == x.second;
      if (!same)
        c.fail("forage-label", what + ": recorded as " + vh::show(w->txt()->translate(p, q), 400));
      recorded.insert({got["start"], got["end"]});
      n++;
    }
    c.expect(recorded == ranges, "forage-range", what + vh::fmt(": %zu ranges recorded of %zu, or with other ends", n, ranges.size()));
  }
  if (!big) {
    std::set<std::string> extra;
    for (auto p : PLAIN)
      extra.insert(stemmer->stem(p));
    check_stats(c, what, want, stats, extra);
  } else {
    Want small = want;
    for (auto i = small.df.begin(); i != small.df.end();)
      i = c.rng.chance(0.1) ? std::next(i) : small.df.erase(i);
    if (!near(stats->avgl(), want.avgl))
      c.fail("stats-avgl", what + vh::fmt(": average length %.12g, expected %.12g", stats->avgl(), want.avgl));
    for (auto &t : small.df)
      if (!near(stats->rsj(t.first), want.rsj_of(t.first)) || !near(stats->idf(t.first), want.idf_of(t.first)))
        c.fail("stats-weight", what + vh::fmt(": '%s' has rsj %.12g idf %.12g, expected %.12g %.12g", t.first.c_str(), stats->rsj(t.first), stats->idf(t.first), want.rsj_of(t.first), want.idf_of(t.first)));
  }
  for (int i = 0; i < (big ? 3 : 8); i++) {
    std::map<std::string, double> query;
    std::string text;
    for (size_t j = 1 + c.rng.below(4); j; --j) {
      std::string t = VOCAB[c.rng.below(sizeof(VOCAB) / sizeof(*VOCAB))];
      text += t + " ";
      for (auto &x : tokenizer->split(t))
        query[stemmer->stem(x)]++;
    }
    double b = c.rng.unit(), k1 = c.rng.unit() * 2 + 0.01;
    b = (double)(float)b, k1 = (double)(float)k1;
    size_t depth = 1 + c.rng.below(12);
    std::string pipe = vh::fmt("b=%.9g k1=%.9g depth=%zu stem bm25", b, k1, depth);
    auto ranker = Ranker::from_pipeline(pipe, stats, &error);
    c.expect(ranker != nullptr, "forage-pipeline", error);
    auto got = (*ranker)(text);
    check_top(c, what + " " + pipe + show_query(query), bm25_all(want, query, b, k1), got, depth, "forage-bm25");
    for (auto &r : got)
      for (auto &x : want.items)
        if (x.p == r.p() && (r.container_p() != x.cp || r.container_q() != x.cq))
          c.fail("forage-container", what + vh::fmt(": container [%ld,%ld], expected [%ld,%ld]", (long)r.container_p(), (long)r.container_q(), (long)x.cp, (long)x.cq));
    c.count("queries");
  }
  w->end();
  // what can't be foraged is refused, and leaves nothing behind
  std::map<std::string, std::string> broken = par;
  std::string name = "tf-idf", bad = gcl;
  switch (c.rng.below(4)) {
  case 0: broken["stemmer"] = "nonsense"; break;
  case 1: broken["tokenizer"] = "nonsense"; break;
  case 2: name = "nonsense"; break;
  default: bad = "(<< :1:";
  }
  error = "";
  if (forage(w, bad, name, "broken", broken, &error))
    c.fail("forage-invalid", what + ": nonsense was accepted");
  c.expect(error != "", "forage-error", what + ": no reason given");
  w->start();
  c.expect(Stats::make("tf-idf", "broken", w) == nullptr, "forage-invalid", what + ": statistics from nonsense");
  w->end();
  stats = nullptr;
  quiet(w);
  if (want.items.size() > 2)
    c.nontrivial(c.id ^ want.items.size());
  c.sample(what);
}
} // namespace
VH_MODE(forage, true) { forage_case(c, false); }
VH_MODE(forage_big, true) { forage_case(c, true); }

// how a forager is written down
VH_MODE(label, false) {
  for (int i = 0; i < 40; i++) {
    auto any = [&] {
      std::string s;
      for (size_t n = c.rng.below(12); n; --n)
        s += c.rng.chance(0.4) ? (char)c.rng.below(256) : "\"\\{}[]:,\n\t u0"[c.rng.below(13)];
      return s;
    };
    std::string name = any(), tag = any(), n, t, error;
    std::map<std::string, std::string> par, got;
    for (size_t j = c.rng.below(4); j; --j)
      par[any()] = any();
    std::string json = forager2json(name, tag, par);
    if (!json2forager(json, &n, &t, &got, &error))
      c.fail("label-refused", vh::show(json, 300));
    if (n != name || t != tag || got != par)
      c.fail("label-differs", vh::show(json, 300));
    { // labels with more in them than is known today
      static const std::vector<std::string> other = {"1", "-17", "0.25", "1e9", "-2.5E-3", "true", "false", "null", "[]", "{}", "\"\"", "[1, \"a]\", {\"b\": [null]}]", "{\"name\": \"x\", \"tag\": [\"}\"]}", "[[[]]]", "\"\\\"\""};
      std::string more = json;
      size_t at = c.rng.chance(0.5) ? more.find('{') + 1 : more.rfind('}');
      std::string member = "\"" + c.rng.pick(std::vector<std::string>{"x", "Name", "", "tags", "version"}) + "\": " + c.rng.pick(other);
      more.insert(at, at < 3 ? member + "," : ", " + member + " ");
      std::string n2, t2;
      std::map<std::string, std::string> got2;
      if (!json2forager(more, &n2, &t2, &got2, &error))
        c.fail("label-refused", vh::show(more, 300));
      if (n2 != name || t2 != tag || got2 != par)
        c.fail("label-differs", vh::show(more, 300));
    }
    // damaged
    std::string hurt = json;
    size_t at = c.rng.below(hurt.size());
    if (c.rng.chance(0.5))
      hurt.erase(at, 1 + c.rng.below(3));
    else
      hurt[at] = (char)c.rng.below(256);
    json2forager(hurt, &n, &t, &got, &error);
    c.count("labels");
    c.nontrivial(vh::hash_str(json));
  }
}
