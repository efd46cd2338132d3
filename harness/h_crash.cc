// Kill the process at a chosen file operation and look at what a restart makes
// of the files (D07); also interposed write failures (D10).
#include "io_hook.h"
#include "io_hook.inc"
#include "world.h"
#include "src/bigwig.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/working.h"
#include <dirent.h>
#include <sys/wait.h>
using namespace cottontail;
using namespace world;

namespace {

struct TxPlan {
  std::shared_ptr<Tx> tx = std::make_shared<Tx>();
  std::vector<std::string> texts;
};
enum Kind { COMMIT, ABORT_EARLY, ABORT_LATE, MERGE_ON, MERGE_OFF, WAIT, PARAM, REOPEN };
struct Step {
  Kind kind;
  std::vector<TxPlan> txs;
  std::string key, value;
  std::string str() const {
    static const char *n[] = {"commit", "abort", "abort-readied", "merge-on", "merge-off", "wait", "param", "reopen"};
    std::string s = n[kind];
    if (kind == COMMIT) {
      s += "(";
      for (auto &t : txs)
        s += vh::fmt("%ld+%zu ", (long)t.tx->base, t.tx->n());
      s += ")";
    }
    return s;
  }
};

struct Plan {
  Gen g;
  std::string options, pc = "null", fc = "null", tc = "null";
  std::vector<std::shared_ptr<const Tx>> committed; // everything a full run commits, in step order
  std::vector<Step> steps;
  addr next_addr = 0;
  View view;
  int id = 0;

  TxPlan tx(vh::Rng &r, double erase) {
    TxPlan t;
    addr lo, hi;
    bool any = view.range(&lo, &hi);
    size_t apps = r.chance(0.85) || !any ? 1 + r.below(2) : 0;
    for (size_t i = 0; i < apps; i++)
      t.texts.push_back(gen_text(r, g, t.tx.get(), 1 + r.below(r.chance(0.05) ? 700 : 15)));
    if (t.tx->n() && t.tx->bytes.back().back() != '\n')
      t.tx->bytes.back() += "\n";
    addr n = t.tx->n();
    size_t anns = r.below(4) + (n == 0);
    for (size_t i = 0; i < anns; i++) {
      std::string tag = r.pick(g.tags);
      fval v = r.chance(0.5) ? 0 : (fval)r.range(1, 99);
      addr w = g.width[tag];
      if (n > 0 && (!any || r.chance(0.6))) {
        addr p = r.range(0, n - 1);
        if (p + w < n)
          t.tx->rel.push_back({tag, p, p + w, v});
      } else if (any) {
        addr p = r.range(lo, hi);
        t.tx->abs.push_back({tag, p, p + w, v});
      }
    }
    if (any && r.chance(erase)) {
      addr p = r.range(lo, hi), q = std::min(hi, p + r.range(0, 12));
      t.tx->eabs.emplace_back(p, q);
    }
    if (n == 0 && t.tx->abs.empty() && t.tx->eabs.empty() && any) {
      addr p = r.range(lo, hi);
      t.tx->abs.push_back({g.tags[0], p, p + g.width[g.tags[0]], 3.0});
    }
    return t;
  }
  void place(TxPlan *t) {
    t->tx->base = next_addr;
    next_addr += t->tx->n();
  }
  void step(vh::Rng &r, double erase, bool reopens) {
    Step s;
    int x = (int)r.below(100);
    if (x < 60) {
      s.kind = COMMIT;
      size_t k = r.chance(0.25) ? 2 + r.below(2) : 1;
      for (size_t i = 0; i < k; i++) {
        s.txs.push_back(tx(r, erase));
        place(&s.txs.back());
      }
      for (auto &t : s.txs) {
        committed.push_back(t.tx);
        view.add(t.tx);
      }
    } else if (x < 66) {
      s.kind = ABORT_EARLY;
      s.txs.push_back(tx(r, erase));
    } else if (x < 72) {
      s.kind = ABORT_LATE;
      s.txs.push_back(tx(r, erase));
      place(&s.txs.back());
    } else if (x < 78)
      s.kind = MERGE_ON;
    else if (x < 81)
      s.kind = MERGE_OFF;
    else if (x < 88)
      s.kind = WAIT;
    else if (x < 95 || !reopens) {
      s.kind = PARAM;
      s.key = vh::fmt("key%d", (int)r.below(2));
      s.value = vh::fmt("value%d", (int)r.below(1000));
    } else {
      s.kind = REOPEN;
      addr lo, hi;
      next_addr = view.range(&lo, &hi) ? hi + 1 : 0;
    }
    steps.push_back(s);
  }
};

struct State {
  View v;
  std::map<std::string, std::string> params;
};

struct Runner {
  vh::Ctx &c;
  std::string dir;
  Plan plan;
  std::shared_ptr<Bigwig> base;
  size_t base_threads;
  addr live_addr = -1; // next address, when the workload may fail
  Runner(vh::Ctx &c) : c(c) { base_threads = vh::base_threads(); }

  bool quiesce() {
    for (int i = 0; i < 20000; i++) {
      if (vh::thread_count() <= base_threads)
        return true;
      usleep(i < 200 ? 50 : 1000);
    }
    return false;
  }
  // 0 fine; otherwise the stage that reported a failure
  const char *prepare(const TxPlan &t, std::shared_ptr<Bigwig> *out, std::string *error) {
    auto w = std::dynamic_pointer_cast<Bigwig>(base->clone(error));
    if (w == nullptr)
      return "clone";
    if (!w->transaction(error))
      return "transaction";
    *out = w;
    addr p, q, stage = 0;
    bool first = true;
    for (auto &x : t.texts) {
      if (!w->appender()->append(x, &p, &q, error))
        return "append";
      if (first)
        stage = p;
      first = false;
    }
    auto f = w->featurizer();
    for (auto &a : t.tx->rel)
      if (!w->annotator()->annotate(f->featurize(a.f), stage + a.p, stage + a.q, a.v, error))
        return "annotate";
    for (auto &a : t.tx->abs)
      if (!w->annotator()->annotate(f->featurize(a.f), a.p, a.q, a.v, error))
        return "annotate";
    for (auto &e : t.tx->eabs)
      if (!w->annotator()->erase(e.first, e.second, error))
        return "erase";
    return nullptr;
  }
  // returns an error text, empty when all went well
  std::string exec(const Step &s, bool *reached_commit) {
    std::string error;
    switch (s.kind) {
    case COMMIT: {
      std::vector<std::shared_ptr<Bigwig>> ws;
      const char *bad = nullptr;
      for (auto &t : s.txs) {
        std::shared_ptr<Bigwig> w;
        bad = prepare(t, &w, &error);
        if (bad == nullptr) {
          if (live_addr >= 0) { // addresses are handed out when readied, even if that fails
            t.tx->base = live_addr;
            live_addr += t.tx->n();
          }
          if (!w->ready(&error))
            bad = "ready";
        }
        if (w != nullptr)
          ws.push_back(w);
        if (bad != nullptr)
          break;
      }
      if (bad != nullptr) {
        for (auto &w : ws)
          w->abort();
        return std::string(bad) + ": " + error;
      }
      *reached_commit = true;
      io::shared->phase = 1;
      if (ws.size() == 1) {
        ws[0]->commit();
      } else {
        std::vector<std::shared_ptr<Warren>> v(ws.begin(), ws.end());
        Warren::commit_all(v);
      }
      return "";
    }
    case ABORT_EARLY:
    case ABORT_LATE: {
      std::shared_ptr<Bigwig> w;
      const char *bad = prepare(s.txs[0], &w, &error);
      if (bad == nullptr && s.kind == ABORT_LATE) {
        if (live_addr >= 0)
          live_addr += s.txs[0].tx->n();
        if (!w->ready(&error))
          bad = "ready";
      }
      if (w != nullptr)
        w->abort();
      return bad ? std::string(bad) + ": " + error : "";
    }
    case MERGE_ON:
      base->merge(true);
      return "";
    case MERGE_OFF:
      base->merge(false);
      return "";
    case WAIT:
      base->merge(true);
      return quiesce() ? "" : "background merging did not stop";
    case PARAM:
      io::shared->phase = 1;
      return base->set_parameter(s.key, s.value, &error) ? "" : "set_parameter: " + error;
    case REOPEN:
      base->merge(false);
      if (!quiesce())
        return "background merging did not stop";
      base = nullptr;
      base = Bigwig::make(dir, &error);
      return base != nullptr ? "" : "reopen: " + error;
    }
    return "";
  }
  // the states a reader may find after the run stopped where the shared
  // memory says it did
  std::vector<State> candidates(const State &initial, int done, bool in_flight) {
    std::vector<State> r(1, initial);
    for (int i = 0; i < done; i++)
      apply(plan.steps[i], &r[0]);
    if (in_flight && done < (int)plan.steps.size()) {
      r.push_back(r[0]);
      apply(plan.steps[done], &r[1]);
    }
    return r;
  }
  void apply(const Step &s, State *st) {
    if (s.kind == COMMIT)
      for (auto &t : s.txs)
        st->v.add(t.tx);
    if (s.kind == PARAM)
      st->params[s.key] = s.value;
  }
  void check_state(const State &s, const std::string &sig, const std::string &what) {
    std::string error;
    auto w = base->clone(&error);
    c.expect(w != nullptr, sig + ":clone", error);
    w->start();
    try {
      world::check(c, w.get(), s.v, plan.g, transaction_tag, 0, sig, what);
      for (auto &p : s.params) {
        std::string v;
        c.expect(w->get_parameter(p.first, &v, &error) && v == p.second, sig + ":param",
                 "parameter " + p.first + " is '" + v + "' not '" + p.second + "' " + what);
      }
    } catch (...) {
      w->end();
      throw;
    }
    w->end();
  }
  // which candidate is it?
  int decide(const std::vector<State> &cand, const std::string &sig, const std::string &what) {
    std::string msgs;
    for (size_t i = 0; i < cand.size(); i++) {
      std::string m;
      c.probe = &m;
      bool ok = true;
      try {
        check_state(cand[i], sig, what);
      } catch (const vh::CaseFail &) {
        ok = false;
      }
      c.probe = nullptr;
      if (ok)
        return (int)i;
      msgs += vh::fmt(" | as %s: ", i == 0 ? "everything acknowledged" : "plus the transaction in flight") + m;
    }
    c.fail(sig + ":state", "after the restart the store matches no allowed state" + msgs + " :: " + what);
  }
  std::string log(int upto) const {
    std::string l;
    for (int i = 0; i <= upto && i < (int)plan.steps.size(); i++)
      l += plan.steps[i].str() + "; ";
    return l.size() > 700 ? ".." + l.substr(l.size() - 700) : l;
  }
  void make_plan(vh::Rng &r, size_t steps, double erase) {
    bool utf8 = r.chance(0.5);
    plan.g = make_gen(r, utf8, true);
    plan.options = std::string("tokenizer:name:") + (utf8 ? "utf8" : "ascii");
    static const char *pcs[] = {"null", "post", "zlib"}, *fcs[] = {"null", "zlib"};
    if (r.chance(0.6)) {
      plan.pc = pcs[r.below(3)];
      plan.fc = fcs[r.below(2)];
      plan.tc = fcs[r.below(2)];
      plan.options +=
          " idx:posting_compressor:" + plan.pc + " idx:fvalue_compressor:" + plan.fc + " txt:compressor:" + plan.tc;
    }
    for (size_t i = 0; i < steps; i++)
      plan.step(r, erase, true);
  }
  void hazelize(vh::Rng &r, int k) {
    std::string error;
    bool mixed = r.chance(0.2); // shards that cannot be merged with each other
    for (auto &f : vh::list_dir(dir)) {
      if (f.compare(0, 6, "fiver.") || (k != 3 && r.chance(0.25 * k)))
        continue;
      auto wk = Working::make(dir, &error);
      auto fiver = Fiver::unpickle(dir + "/" + f, wk, Featurizer::make("hashing", ""),
                                   Tokenizer::make(plan.g.utf8 ? "utf8" : "ascii", ""), &error, Compressor::make(plan.pc, ""),
                                   Compressor::make(plan.fc, ""), Compressor::make(plan.tc, ""));
      c.expect(fiver != nullptr, "crash:prelude", error);
      fiver->start();
      auto hz = fiver->hazel(&error, mixed ? 1 + r.below(200) : 64 * 1024);
      c.expect(hz != nullptr, "crash:prelude", error);
      hz = nullptr;
      fiver->end();
      fiver->discard();
      c.count("hazels_written");
    }
  }
  // The addresses the remaining steps will get
  void rebase(View v) {
    addr lo, hi;
    addr next = v.range(&lo, &hi) ? hi + 1 : 0;
    for (auto &s : plan.steps) {
      if (s.kind == COMMIT || s.kind == ABORT_LATE)
        for (auto &t : s.txs) {
          if (t.tx->base != next)
            c.count("transactions_rebased");
          t.tx->base = next;
          next += t.tx->n();
          // erase only what is there already
          addr top = v.range(&lo, &hi) ? hi : -1;
          auto &e = t.tx->eabs;
          for (size_t i = 0; i < e.size();)
            if (e[i].second > top)
              e.erase(e.begin() + i);
            else
              i++;
        }
      if (s.kind == COMMIT)
        for (auto &t : s.txs)
          v.add(t.tx);
      if (s.kind == REOPEN)
        next = v.range(&lo, &hi) ? hi + 1 : 0;
    }
  }
  // Build the initial store: the first steps of the plan, without faults
  State prelude(vh::Rng &r) {
    State st;
    std::string error;
    base = Bigwig::make(dir, plan.options, &error);
    c.expect(base != nullptr, "crash:prelude", error);
    base->merge(false);
    quiesce();
    size_t k = r.below(plan.steps.size() / 2);
    if (r.chance(0.15))
      k = 0;
    bool wait = r.chance(0.3);
    bool large = plan.steps.size() >= 9 && r.chance(0.8);
    if (large) { // several large shards waiting to be merged
      k = plan.steps.size() - 1 - r.below(plan.steps.size() / 2);
      wait = false;
    }
    for (size_t i = 0; i < k; i++) {
      Step &s = plan.steps[i];
      if (s.kind == MERGE_ON || (s.kind == WAIT && !wait))
        s.kind = MERGE_OFF;
      bool reached;
      std::string e = exec(s, &reached);
      c.expect(e == "", "crash:prelude", e + " " + log(i));
      apply(s, &st);
    }
    plan.steps.erase(plan.steps.begin(), plan.steps.begin() + k);
    base->merge(false);
    quiesce();
    base = nullptr;
    if (large || r.chance(0.5))
      hazelize(r, large && r.chance(0.6) ? 0 : (int)r.below(4));
    // the first thing the workload does is to open the store: addresses restart there
    rebase(st.v);
    return st;
  }
};

// "create temp.00000007" -> "create-temp", "link fiver.0.1" -> "link-fiver"
std::string kind(const char *what) {
  std::string s;
  for (const char *p = what; *p && *p != '.'; p++)
    s += *p == ' ' ? '-' : *p;
  return s;
}

bool wait_child(pid_t pid, int *status, double seconds) {
  for (int i = 0; i < seconds * 2000; i++) {
    if (waitpid(pid, status, WNOHANG) == pid)
      return true;
    usleep(i < 100 ? 100 : 500);
  }
  kill(pid, SIGKILL);
  waitpid(pid, status, 0);
  return false;
}

// Runs f in a child with file operations watched. Returns true if the child
// was killed by the injected fault (or reached the end and was killed there).
template <class F> void in_child(vh::Ctx &c, const std::string &sig, const std::string &what, F f) {
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0)
    throw vh::CaseSkip();
  if (pid == 0) {
    io::armed = true;
    try {
      f();
    } catch (const vh::CaseFail &) {
      _exit(7);
    }
    io::armed = false;
    kill(getpid(), SIGKILL);
    for (;;)
      pause();
  }
  int status;
  if (!wait_child(pid, &status, 60))
    c.fail(sig + ":hang", "the workload did not finish within 60 s :: " + what);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 7)
    throw vh::CaseFail();
  if (!(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL))
    c.fail(sig + ":died", vh::fmt("the workload died with status 0x%x (%s) :: ", status, io::shared->note) + what);
}
} // namespace

VH_MODE(crash, true) {
  vh::Rng &r = c.rng;
  Runner run(c);
  auto shared = io::init();
  std::string init = c.dir + "/init";
  run.dir = init;
  run.make_plan(r, 5 + r.below(12), r.chance(0.4) ? 0.3 : 0.0);
  State initial = run.prelude(r);
  if (run.plan.steps.empty())
    return;
  uint64_t seed = r.next();
  auto workload = [&] {
    std::string error;
    run.base = Bigwig::make(run.dir, &error);
    c.expect(run.base != nullptr, "crash:open", error);
    if (seed & 1)
      run.base->merge(seed & 2);
    for (size_t i = 0; i < run.plan.steps.size(); i++) {
      shared->phase = 0;
      shared->called = (int)i + 1;
      bool reached;
      std::string e = run.exec(run.plan.steps[i], &reached);
      c.expect(e == "", "crash:workload", e + " " + run.log(i));
      shared->done = (int)i + 1;
    }
    if (seed & 4) { // let the rest of the merging happen too
      run.base->merge(true);
      run.quiesce();
    }
  };
  // how many operations are there?
  run.dir = c.dir + "/dry";
  vh::copy_dir(init, run.dir);
  in_child(c, "crash", "dry run " + run.log(99), workload);
  uint64_t total = shared->ops;
  c.count("scripts");
  c.count("file_operations", total);
  vh::rmrf(run.dir);
  std::set<uint64_t> points;
  size_t want = c.effort ? 150 : 12;
  if (total <= want * 2 && c.effort)
    for (uint64_t i = 1; i <= total + 1; i++)
      points.insert(i);
  else
    for (size_t i = 0; i < want; i++)
      points.insert(1 + r.below(total + 1));
  for (uint64_t at : points) {
    io::init();
    run.dir = c.dir + "/run";
    vh::copy_dir(init, run.dir);
    shared->target = at;
    shared->mode = r.chance(0.25) ? io::TORN : io::KILL;
    in_child(c, "crash", vh::fmt("operation %lu of %lu ", at, total) + run.log(99), workload);
    int done = shared->done, called = shared->called, phase = shared->phase;
    std::string what = vh::fmt("killed at operation %lu of %lu (%s) in step %d of: ", at, total, shared->what, called) +
                       run.plan.options + " init=" + initial.v.str() + " :: " + run.log(called - 1);
    if (shared->struck)
      c.count("killed_at_" + kind(shared->what));
    else
      c.count("killed_at_end");
    auto cand = run.candidates(initial, done, called > done && phase == 1);
    // sometimes the recovery is killed as well
    int again = r.chance(0.35) ? 1 + (int)r.below(3) : 0;
    for (int k = 0; k < again; k++) {
      int keep_called = shared->called;
      (void)keep_called;
      io::init();
      shared->target = 1 + r.below(r.chance(0.5) ? 4 : 20);
      shared->mode = r.chance(0.25) ? io::TORN : io::KILL;
      in_child(c, "crash", "recovery of " + what, [&] {
        std::string error;
        auto b = Bigwig::make(run.dir, &error);
        c.expect(b != nullptr, "crash:reopen", "recovery failed: " + error + " " + what);
        b->merge(true);
        run.quiesce();
      });
      c.count(shared->struck ? "recovery_killed" : "recovery_done");
      what = vh::fmt("(recovery killed at %s) ", shared->what) + what;
    }
    std::string error;
    bool merge = r.chance(0.5);
    run.base = Bigwig::make(run.dir, &error);
    c.expect(run.base != nullptr, "crash:reopen", error + " :: " + what);
    if (!merge) {
      run.base->merge(false);
      c.expect(run.quiesce(), "crash:quiesce", what);
    }
    int which = run.decide(cand, "crash", what);
    c.count(which ? "in_flight_survived" : cand.size() > 1 ? "in_flight_lost" : "nothing_in_flight");
    State st = cand[which];
    if (cand.size() > 1 && cand[0].params != cand[1].params)
      st.params.clear();
    // life goes on
    addr lo, hi;
    addr next = st.v.range(&lo, &hi) ? hi + 1 : 0;
    Plan more;
    more.g = run.plan.g;
    more.view = st.v;
    more.next_addr = next;
    for (int k = 0; k < 2; k++) {
      Step s;
      s.kind = COMMIT;
      s.txs.push_back(more.tx(r, 0.1));
      more.place(&s.txs.back());
      more.view.add(s.txs.back().tx);
      bool reached;
      std::string e = run.exec(s, &reached);
      c.expect(e == "", "crash:continue", e + " :: " + what);
      run.apply(s, &st);
      if (k == 0)
        run.check_state(st, "crash:continue", "one more transaction after " + what);
    }
    run.base->merge(true);
    c.expect(run.quiesce(), "crash:quiesce", what);
    run.check_state(st, "crash:merged", "after merging, " + what);
    run.base->merge(false);
    run.quiesce();
    run.base = nullptr;
    for (auto &f : vh::list_dir(run.dir))
      c.expect(f == "dna" || f.compare(0, 6, "fiver.") == 0 || f.compare(0, 6, "hazel.") == 0, "crash:litter",
               "unexpected file left in the closed store: " + f + " :: " + what);
    run.base = Bigwig::make(run.dir, &error);
    c.expect(run.base != nullptr, "crash:reopen", "second restart: " + error + " :: " + what);
    run.base->merge(false);
    run.quiesce();
    run.check_state(st, "crash:again", "second restart after " + what);
    run.base = nullptr;
    vh::rmrf(run.dir);
    c.nontrivial(vh::mix(vh::hash_str(shared->what) ^ vh::mix(at) ^ cand[0].v.hash() * 31 ^ which));
    c.count("restarts_checked");
    if (shared->struck && done > 0)
      c.sample(what);
  }
}

// D10: writing fails for a while; the child checks as it goes
VH_MODE(fault, true) {
  vh::Rng &r = c.rng;
  Runner run(c);
  auto shared = io::init();
  io::data_only = true;
  std::string init = c.dir + "/init";
  run.dir = init;
  run.make_plan(r, 5 + r.below(12), r.chance(0.4) ? 0.3 : 0.0);
  State initial = run.prelude(r);
  if (run.plan.steps.empty())
    return;
  uint64_t seed = r.next();
  uint64_t total = 0;
  size_t want = c.effort ? 100 : 10;
  for (size_t k = 0; k <= want; k++) {
    run.dir = c.dir + "/run";
    vh::copy_dir(init, run.dir);
    io::init();
    if (k > 0) {
      if (total == 0)
        return;
      shared->target = 1 + r.below(total);
      shared->mode = r.chance(0.5) ? io::FAIL : io::FAIL_FROM;
      static const int en[] = {ENOSPC, EIO, EDQUOT};
      shared->errno_value = en[r.below(3)];
    }
    uint64_t lift = shared->target + 1 + r.below(20); // the disk has space again
    std::string what = vh::fmt("%s from data operation %lu of %lu: ", shared->mode == io::FAIL ? "one failure" : "failures",
                               shared->target.load(), total) +
                       run.plan.options + " init=" + initial.v.str() + " :: " + run.log(99);
    in_child(c, "fault", what, [&] {
      std::string error;
      io::armed = false;
      run.base = Bigwig::make(run.dir, &error);
      c.expect(run.base != nullptr, "fault:open", error);
      addr lo, hi;
      State st = initial;
      run.live_addr = st.v.range(&lo, &hi) ? hi + 1 : 0;
      io::armed = true;
      if (seed & 1)
        run.base->merge(seed & 2);
      std::set<std::string> loose;
      for (size_t i = 0; i < run.plan.steps.size(); i++) {
        Step &s = run.plan.steps[i];
        if (shared->ops >= lift)
          shared->mode = io::COUNT;
        shared->called = (int)i + 1;
        bool faulty = shared->mode != io::COUNT;
        if (s.kind == REOPEN) { // opening itself is not under test here
          io::armed = false;
        }
        uint64_t struck0 = shared->struck;
        bool reached = false;
        std::string e = run.exec(s, &reached);
        io::armed = true;
        if (s.kind == REOPEN) {
          c.expect(e == "", "fault:reopen", e + " " + what);
          run.live_addr = st.v.range(&lo, &hi) ? hi + 1 : 0;
        }
        bool hit = shared->struck > struck0;
        c.expect(e == "" || (faulty && hit), "fault:spurious", "failed although no write failed: " + e + " " + run.log(i) + what);
        if (e == "")
          run.apply(s, &st);
        else if (s.kind == PARAM)
          loose.insert(s.key);
        if (s.kind == PARAM && e == "")
          loose.erase(s.key);
        if (e != "")
          shared->flags[0]++;
        for (auto &l : loose)
          st.params.erase(l);
        std::string where = vh::fmt("in step %zu ", i + 1) + (e == "" ? "" : "(reported: " + e + ") ") + run.log(i) + " :: ";
        run.check_state(st, "fault:live", where + what);
        shared->done = (int)i + 1;
      }
      io::armed = false;
      for (int round = 0; round < 2; round++) {
        run.base->merge(round == 0);
        c.expect(run.quiesce(), "fault:quiesce", what);
        run.check_state(st, "fault:after", what);
      }
      run.base = nullptr;
      run.base = Bigwig::make(run.dir, &error);
      c.expect(run.base != nullptr, "fault:restart", error + " :: " + what);
      run.check_state(st, "fault:restart", what);
      run.base->merge(true);
      c.expect(run.quiesce(), "fault:quiesce", what);
      run.check_state(st, "fault:restart", what);
    });
    if (k == 0)
      total = shared->ops;
    else {
      c.count("fault_runs");
      c.count("faults_delivered", shared->struck);
      c.count("failures_reported", shared->flags[0]);
      if (shared->struck) {
        c.count("first_fault_at_" + kind(shared->what));
        c.nontrivial(vh::mix(shared->target * 77 + shared->struck) ^ initial.v.hash() ^ vh::mix(seed));
        c.sample(what);
      } else
        c.count("silent_runs");
    }
    vh::rmrf(run.dir);
  }
}

namespace {
std::vector<std::string> hazels_in(const std::string &dir) {
  std::vector<std::string> v;
  for (auto &f : vh::list_dir(dir))
    if (f.compare(0, 6, "hazel.") == 0)
      v.push_back(f);
  std::sort(v.begin(), v.end());
  return v;
}
std::string joined(const std::vector<std::string> &v) { // name of the shard covering them
  return "hazel." + v.front().substr(6, 20) + "." + v.back().substr(27, 20);
}
} // namespace

// D08: merging large shards in any grouping, interrupted anywhere
VH_MODE(hazel_merge, true) {
  vh::Rng &r = c.rng;
  Runner run(c);
  auto shared = io::init();
  run.dir = c.dir + "/store";
  std::string error;
  bool erasures = r.chance(0.4);
  run.make_plan(r, 0, 0);
  run.base = Bigwig::make(run.dir, run.plan.options, &error);
  c.expect(run.base != nullptr, "hazel:create", error);
  run.base->merge(false);
  c.expect(run.quiesce(), "hazel:quiesce", "");
  State st;
  std::vector<std::shared_ptr<Tx>> txs;
  size_t n = 2 + r.below(r.chance(0.2) ? 14 : 6);
  for (size_t i = 0; i < n; i++) {
    Step s;
    bool lost = i > 0 && i + 1 < n && r.chance(0.1);
    s.kind = lost ? ABORT_LATE : COMMIT;
    s.txs.push_back(run.plan.tx(r, erasures ? 0.4 : 0));
    run.plan.place(&s.txs.back());
    bool reached;
    std::string e = run.exec(s, &reached);
    c.expect(e == "", "hazel:create", e);
    run.apply(s, &st);
    if (!lost) {
      run.plan.view.add(s.txs[0].tx);
      txs.push_back(s.txs[0].tx);
    }
  }
  if (r.chance(0.3)) {
    c.expect(run.base->set_parameter("k", "v", &error), "hazel:create", error);
    st.params["k"] = "v";
  }
  run.base = nullptr;
  // turn every shard into a large shard with one chunk size
  addr chunk = r.chance(0.5) ? 1 + r.below(60) : r.chance(0.5) ? 1 + r.below(3000) : 64 * 1024;
  for (auto &f : vh::list_dir(run.dir)) {
    if (f.compare(0, 6, "fiver."))
      continue;
    auto wk = Working::make(run.dir, &error);
    auto fiver = Fiver::unpickle(run.dir + "/" + f, wk, Featurizer::make("hashing", ""),
                                 Tokenizer::make(run.plan.g.utf8 ? "utf8" : "ascii", ""), &error,
                                 Compressor::make(run.plan.pc, ""), Compressor::make(run.plan.fc, ""),
                                 Compressor::make(run.plan.tc, ""));
    c.expect(fiver != nullptr, "hazel:unpickle", error);
    fiver->start();
    auto hz = fiver->hazel(&error, chunk);
    c.expect(hz != nullptr, "hazel:convert", error);
    hz = nullptr;
    fiver->end();
    fiver->discard();
  }
  auto names = hazels_in(run.dir);
  c.expect(names.size() == txs.size(), "hazel:convert",
           vh::fmt("%zu shards for %zu transactions", names.size(), txs.size()));
  std::string what = run.plan.options + vh::fmt(" chunk=%ld ", (long)chunk) + st.v.str() + " :: ";
  // one shard holds exactly its transaction
  std::map<std::string, std::pair<size_t, size_t>> covers;
  for (size_t i = 0; i < names.size(); i++)
    covers[names[i]] = {i, i};
  auto standalone = [&](const std::string &name, const std::string &sig) {
    State part;
    for (size_t i = covers[name].first; i <= covers[name].second; i++)
      part.v.add(txs[i]);
    if (!part.v.erased().empty())
      return; // erasures are applied by the store, not by a lone shard
    auto w = Warren::make(run.dir + "/" + name, &error);
    c.expect(w != nullptr, sig + ":open", name + " " + error);
    w->start();
    world::check(c, w.get(), part.v, run.plan.g, transaction_tag, world::LIGHT, sig, "shard " + name + " of " + what);
    std::set<addr> features; // one index entry each, however often the merge was restarted
    for (auto &l : part.v.lists(transaction_tag))
      if (!l.second.empty())
        features.insert(w->featurizer()->featurize(l.first));
    if (part.v.tokens() > 0)
      features.insert(w->featurizer()->featurize(text_chunk_tag));
    c.expect(w->idx()->vocab() == (addr)features.size(), sig + ":vocab",
             vh::fmt("%ld index entries for %zu features ", (long)w->idx()->vocab(), features.size()) + name + " of " + what);
    w->end();
    c.count("shards_checked");
  };
  for (auto &x : names)
    standalone(x, "hazel:shard");
  auto open = [&](const std::vector<std::string> &v) {
    std::vector<std::shared_ptr<Hazel>> h;
    for (auto &x : v) {
      auto w = std::dynamic_pointer_cast<Hazel>(Warren::make(run.dir + "/" + x, &error));
      c.expect(w != nullptr, "hazel:open", x + " " + error);
      h.push_back(w);
    }
    return h;
  };
  auto merge = [&](const std::vector<std::string> &v, int how, std::string *error) -> bool {
    if (how == 0) {
      auto wk = Working::make(run.dir, error);
      return wk != nullptr && Hazel::merge(wk, v, "", error);
    }
    return Hazel::merge(open(v), run.dir + "/" + joined(v), nullptr, error) != nullptr;
  };
  size_t rounds = 1 + r.below(4);
  std::string log;
  for (size_t round = 0; round < rounds && names.size() >= 2; round++) {
    size_t a = r.below(names.size() - 1);
    size_t b = r.chance(0.4) ? a + 1 : a + 1 + r.below(names.size() - a - 1);
    // an aborted transaction leaves a gap no merge may cross
    size_t e = a;
    while (e < b && std::stol(names[e].substr(27)) + 1 == std::stol(names[e + 1].substr(6, 20)))
      e++;
    if (e == a)
      continue;
    b = e;
    std::vector<std::string> group(names.begin() + a, names.begin() + b + 1);
    std::string target = joined(group);
    log += vh::fmt("merge %zu of %zu; ", group.size(), names.size());
    if (group.size() < names.size() && r.chance(0.15)) { // not contiguous, or in the wrong order
      auto bad = names;
      if (names.size() > 2 && r.chance(0.5))
        bad.erase(bad.begin() + 1 + r.below(bad.size() - 2));
      else
        std::swap(bad[0], bad[1]);
      bool ok = Hazel::merge(open(bad), run.dir + "/hazel.00000000000000009990.00000000000000009999", nullptr, &error) != nullptr;
      c.expect(!ok, "hazel:noncontiguous", "shards that are not neighbours in order were merged " + what);
      for (auto &f : vh::list_dir(run.dir))
        c.expect(f.find("9999") == std::string::npos, "hazel:noncontiguous", "left " + f + " after refusing to merge");
      c.count("bad_merges_refused");
    }
    size_t interruptions = r.chance(0.6) ? 1 + r.below(3) : 0;
    for (size_t k = 0; k < interruptions; k++) {
      io::init();
      io::data_only = false;
      if (k == 0 && r.chance(0.5)) { // how long is it?
        vh::copy_dir(run.dir, c.dir + "/dry");
        std::string keep = run.dir;
        run.dir = c.dir + "/dry";
        in_child(c, "hazel", what, [&] { merge(group, 1, nullptr); });
        run.dir = keep;
        vh::rmrf(c.dir + "/dry");
        uint64_t total = shared->ops;
        io::init();
        shared->target = 1 + r.below(total + 1);
      } else
        shared->target = 1 + r.below(r.chance(0.5) ? 12 : 40);
      int m = (int)r.below(3);
      shared->mode = m == 0 ? io::TORN : m == 1 ? io::KILL : io::FAIL_FROM;
      shared->errno_value = ENOSPC;
      io::data_only = m == 2;
      bool existed = vh::exists(run.dir + "/" + target);
      in_child(c, "hazel", what + log, [&] {
        std::string e;
        bool ok = merge(group, (int)(shared->target % 2), &e);
        io::armed = false;
        if (m == 2 && !shared->struck)
          c.expect(ok, "hazel:merge", e + " " + what + log);
      });
      io::data_only = false;
      if (shared->struck)
        c.count(std::string("interrupted_") + (m == 2 ? "failing_" : "") + kind(shared->what));
      else
        c.count("interruption_missed");
      log += vh::fmt("(stopped at %s) ", shared->struck ? shared->what : "end");
      c.expect(!existed || vh::exists(run.dir + "/" + target), "hazel:lost", "a finished shard vanished " + what + log);
      // a crash may also leave less of the progress files than was written
      if (r.chance(0.3))
        for (const char *pre : {"pst.", "dct."}) {
          std::string f = run.dir + "/" + pre + target;
          if (vh::exists(f) && r.chance(0.6)) {
            auto bytes = vh::slurp(f);
            bytes.resize(r.below(bytes.size() + 1));
            vh::spit(f, bytes);
            c.count("progress_file_cut");
          }
        }
    }
    if (r.chance(0.2)) { // let the store resume it
      log += "reopen; ";
      run.base = Bigwig::make(run.dir, &error);
      c.expect(run.base != nullptr, "hazel:reopen", error + " " + what + log);
      run.base->merge(r.chance(0.5));
      c.expect(run.quiesce(), "hazel:quiesce", what + log);
      run.check_state(st, "hazel:resumed", what + log);
      run.base->merge(false);
      c.expect(run.quiesce(), "hazel:quiesce", what + log);
      run.base = nullptr;
      std::vector<std::string> now;
      for (auto &x : hazels_in(run.dir)) {
        std::vector<std::string> in;
        for (auto &y : names)
          if (y.substr(6, 20) >= x.substr(6, 20) && y.substr(27, 20) <= x.substr(27, 20))
            in.push_back(y);
        c.expect(!in.empty(), "hazel:resumed", "unexpected shard " + x + " " + what + log);
        covers[x] = {covers[in.front()].first, covers[in.back()].second};
        now.push_back(x);
      }
      names = now;
      continue;
    }
    bool ok = merge(group, (int)r.below(2), &error);
    c.expect(ok, "hazel:merge", error + " " + what + log);
    c.expect(vh::exists(run.dir + "/" + target), "hazel:merge", "no shard written " + what + log);
    for (auto &f : vh::list_dir(run.dir))
      c.expect(f.size() < 4 || f.substr(4) != target, "hazel:litter", f + " left after " + what + log);
    covers[target] = {covers[group.front()].first, covers[group.back()].second};
    standalone(target, "hazel:merged");
    // the sources are removed now or left for the next start
    bool remove = r.chance(0.7);
    for (auto &x : group)
      if (remove)
        unlink((run.dir + "/" + x).c_str());
    if (r.chance(0.3)) { // doing it again is harmless: it is there already
      if (!remove) {
        c.expect(merge(group, 1, &error), "hazel:again", error + what);
        standalone(target, "hazel:again");
      }
    }
    names.erase(names.begin() + a, names.begin() + b + 1);
    names.insert(names.begin() + a, target);
    c.count("merges", 1);
    c.maxof("merge_width", group.size());
  }
  run.base = Bigwig::make(run.dir, &error);
  c.expect(run.base != nullptr, "hazel:reopen", error + " " + what + log);
  run.base->merge(false);
  c.expect(run.quiesce(), "hazel:quiesce", what + log);
  run.check_state(st, "hazel:store", what + log);
  run.base = nullptr;
  c.nontrivial(vh::mix(st.v.hash() ^ vh::hash_str(log)));
  c.sample(what + log);
}
