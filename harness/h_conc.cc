// Concurrent writers, readers and background merging on the dynamic store.
// Threads only record; an offline checker decides afterwards what every reader
// was allowed and obliged to see (D02 snapshots, D03 appends, D09 races).
#include "vh.h"
#include "vh_sched.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/owsla.h"
#include <algorithm>
#include <atomic>
#include <dirent.h>
#include <map>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace cottontail;

namespace {

enum { PENDING, COMMITTED, ABORTED };
struct Rec {
  int id;
  std::vector<std::string> words;
  std::vector<size_t> mine;   // positions of the unique word
  std::vector<size_t> common; // positions of the shared word
  int fate;                   // planned: 0 commit, 1 abort before ready, 2 abort after ready
  int erases = -1;            // id of an earlier transaction whose second half this one erases
  bool group = false;         // committed together with the next one
  std::string text;
  std::atomic<uint64_t> call{0}, ret{0};
  std::atomic<int> state{PENDING};
  std::string unique() const { return "u" + std::to_string(id) + "z"; }
};
std::atomic<uint64_t> g_clock{1};
uint64_t tick() { return g_clock.fetch_add(1, std::memory_order_relaxed); }

struct Seen {
  addr p, q;
  std::vector<addr> mine;
  std::string text;
  bool operator==(const Seen &o) const { return p == o.p && q == o.q && mine == o.mine && text == o.text; }
};
struct Obs {
  uint64_t call, ret;
  std::map<int, Seen> seen;
  std::vector<addr> common;
  std::map<int, size_t> ghosts; // unique-word hits of ids without a head
  addr tokens = 0, lo = 0, hi = -1;
  std::string error;
  bool same(const Obs &o) const {
    return seen == o.seen && common == o.common && ghosts == o.ghosts && tokens == o.tokens && lo == o.lo && hi == o.hi;
  }
};

void observe(Warren *w, const std::vector<int> &all, Obs *o) {
  o->seen.clear();
  o->common.clear();
  o->ghosts.clear();
  addr p, q;
  fval v;
  auto h = w->idx()->hopper(w->featurizer()->featurize("head:"));
  for (h->tau(minfinity + 1, &p, &q, &v); p < maxfinity; h->tau(p + 1, &p, &q, &v)) {
    Seen s;
    s.p = p;
    s.q = q;
    s.text = w->txt()->translate(p, q);
    o->seen[(int)v] = s;
  }
  for (int id : all) {
    auto u = w->idx()->hopper(w->featurizer()->featurize("u" + std::to_string(id) + "z"));
    auto it = o->seen.find(id);
    for (u->tau(minfinity + 1, &p, &q); p < maxfinity; u->tau(p + 1, &p, &q))
      if (it == o->seen.end())
        o->ghosts[id]++;
      else
        it->second.mine.push_back(p);
  }
  auto cm = w->idx()->hopper(w->featurizer()->featurize("the"));
  for (cm->tau(minfinity + 1, &p, &q); p < maxfinity; cm->tau(p + 1, &p, &q))
    o->common.push_back(p);
  o->tokens = w->txt()->tokens();
  if (!w->txt()->range(&o->lo, &o->hi))
    o->lo = 0, o->hi = -1;
}

struct World {
  vh::Ctx &c;
  std::string sig;
  bool disk;
  std::string dir, options, pc = "null", fc = "null", tc = "null";
  std::shared_ptr<Bigwig> base;
  std::shared_ptr<Tokenizer> base_tokenizer;
  std::vector<std::unique_ptr<Rec>> recs;
  std::vector<std::vector<Rec *>> plan;
  std::vector<int> all;
  std::mutex lock;
  std::vector<Obs> log;
  std::vector<std::string> errors;
  int level = 0;
  World(vh::Ctx &c, const std::string &sig, bool disk) : c(c), sig(sig), disk(disk) {}
  void err(const std::string &s) {
    std::lock_guard<std::mutex> _(lock);
    errors.push_back(s);
  }

  // returns false if something is wrong (already recorded)
  bool prepare(std::shared_ptr<Bigwig> w, Rec *r, vh::Rng &rng) {
    std::string error;
    if (!w->transaction(&error)) {
      err("transaction: " + error);
      return false;
    }
    addr first = 0, p, q;
    size_t at = 0;
    // appended in pieces
    while (at < r->words.size()) {
      size_t k = std::min<size_t>(r->words.size() - at, 1 + rng.below(12));
      std::string t;
      for (size_t i = 0; i < k; i++)
        t += r->words[at + i] + " ";
      if (!w->appender()->append(t, &p, &q, &error)) {
        err("append: " + error);
        return false;
      }
      if (at == 0)
        first = p;
      if (p != first + (addr)at || q != p + (addr)k - 1) {
        err("append returned addresses that do not continue the transaction");
        return false;
      }
      at += k;
    }
    if (!w->annotator()->annotate(w->featurizer()->featurize("head:"), first, first + (addr)r->words.size() - 1,
                                  (fval)r->id, &error)) {
      err("annotate: " + error);
      return false;
    }
    return true;
  }
  bool find(int id, addr *p, addr *q) {
    auto w = base->clone();
    w->start();
    fval v;
    bool ok = false;
    auto h = w->idx()->hopper(w->featurizer()->featurize("head:"));
    for (h->tau(minfinity + 1, p, q, &v); *p < maxfinity; h->tau(*p + 1, p, q, &v))
      if ((int)v == id) {
        ok = true;
        break;
      }
    w->end();
    return ok;
  }
  void writer(size_t t, uint64_t seed) {
    vh::Rng rng(seed);
    std::string error;
    for (size_t i = 0; i < plan[t].size(); i++) {
      Rec *r = plan[t][i];
      auto w = std::dynamic_pointer_cast<Bigwig>(base->clone());
      if (!prepare(w, r, rng))
        return;
      if (r->erases >= 0) {
        addr p, q;
        if (!find(r->erases, &p, &q)) {
          err("a transaction's own earlier commit is not visible to its thread");
          return;
        }
        if (!w->annotator()->erase(p + (q - p + 1) / 2, q, &error)) {
          err("erase: " + error);
          return;
        }
      }
      if (r->fate == 1) {
        w->abort();
        r->state.store(ABORTED);
        continue;
      }
      if (!w->ready(&error)) {
        err("ready: " + error);
        return;
      }
      if (r->fate == 2) {
        w->abort();
        r->state.store(ABORTED);
        continue;
      }
      std::vector<std::shared_ptr<Bigwig>> group = {w};
      std::vector<Rec *> rs = {r};
      while (rs.back()->group && i + 1 < plan[t].size()) {
        Rec *n = plan[t][++i];
        auto wn = std::dynamic_pointer_cast<Bigwig>(base->clone());
        if (!prepare(wn, n, rng))
          return;
        if (!wn->ready(&error)) {
          err("ready: " + error);
          return;
        }
        group.push_back(wn);
        rs.push_back(n);
      }
      for (auto x : rs)
        x->call.store(tick());
      if (group.size() == 1) {
        w->commit();
      } else {
        std::vector<std::shared_ptr<Warren>> ws;
        for (auto &g : group)
          ws.push_back(g);
        Warren::commit_all(ws);
      }
      for (auto x : rs) {
        x->ret.store(tick());
        x->state.store(COMMITTED);
      }
      if (rng.chance(0.3))
        std::this_thread::yield();
    }
  }
  void reader(uint64_t seed, int rounds) {
    vh::Rng rng(seed);
    for (int k = 0; k < rounds; k++) {
      auto w = base->clone();
      Obs o, again;
      o.call = tick();
      w->start();
      o.ret = tick();
      if (rng.chance(0.3)) {
        // two threads on one snapshot
        auto w2 = w->clone();
        Obs o2;
        std::thread th([&] { observe(w2.get(), all, &o2); });
        observe(w.get(), all, &o);
        th.join();
        if (!o.same(o2))
          err("two readers sharing one snapshot saw different contents");
        w2->end();
      } else {
        observe(w.get(), all, &o);
      }
      if (rng.chance(0.5))
        usleep(rng.below(300));
      observe(w.get(), all, &again);
      if (!o.same(again))
        err(vh::fmt("a reader's snapshot changed while it was open: %zu then %zu transactions, %ld then %ld tokens, %zu then %zu shared words",
                    o.seen.size(), again.seen.size(), (long)o.tokens, (long)again.tokens, o.common.size(), again.common.size()));
      w->end();
      std::lock_guard<std::mutex> _(lock);
      log.push_back(o);
    }
  }
  std::vector<addr> expect_mine(const Rec *r, addr base, const std::vector<std::pair<addr, addr>> &erased) const {
    std::vector<addr> m;
    for (size_t x : r->mine) {
      bool gone = false;
      for (auto &e : erased)
        gone |= e.first <= base + (addr)x && base + (addr)x <= e.second;
      if (!gone)
        m.push_back(base + x);
    }
    return m;
  }
  void check_obs(const Obs &o, std::map<int, addr> *bases, const char *what) {
    std::string ids;
    for (auto &s : o.seen)
      ids += std::to_string(s.first) + " ";
    std::vector<std::pair<addr, addr>> erased;
    for (auto &s : o.seen) {
      c.expect(s.first >= 0 && s.first < (int)recs.size(), sig + ":unknown", "a reader saw a transaction nobody wrote");
      Rec *r = recs[s.first].get();
      if (r->erases >= 0 && o.seen.count(r->erases)) {
        auto &t = o.seen.at(r->erases);
        erased.emplace_back(t.p + (t.q - t.p + 1) / 2, t.q);
      }
      c.expect(r->erases < 0 || o.seen.count(r->erases), sig + ":order",
               vh::fmt("transaction %d visible without %d, which its thread had committed before it", r->id, r->erases));
    }
    addr total = 0, last = -1;
    std::map<addr, int> byaddr;
    for (auto &s : o.seen) {
      Rec *r = recs[s.first].get();
      c.expect(r->state.load() != ABORTED, sig + ":aborted", vh::fmt("aborted transaction %d is visible (%s)", s.first, what));
      c.expect(s.second.q - s.second.p + 1 == (addr)r->words.size(), sig + ":length",
               vh::fmt("transaction %d has %zu tokens but spans [%ld,%ld]", s.first, r->words.size(), (long)s.second.p,
                       (long)s.second.q));
      auto it = bases->find(s.first);
      if (it == bases->end())
        (*bases)[s.first] = s.second.p;
      else
        c.expect(it->second == s.second.p, sig + ":address",
                 vh::fmt("transaction %d seen at %ld and at %ld", s.first, (long)it->second, (long)s.second.p));
      byaddr[s.second.p] = s.first;
      std::string t = s.second.text;
      // each piece ends in a space and a line end
      t.erase(std::remove(t.begin(), t.end(), '\n'), t.end());
      c.expect(t == r->text && s.second.text.back() == '\n', sig + ":text",
               vh::fmt("transaction %d reads back as '%s', written '%s' (%s)", s.first, vh::show(t, 120).c_str(),
                       vh::show(r->text, 120).c_str(), what));
      auto want = expect_mine(r, s.second.p, erased);
      c.expect(s.second.mine == want, sig + ":partial",
               vh::fmt("transaction %d: %zu of its own words found, %zu expected (%s; visible: %s)", s.first,
                       s.second.mine.size(), want.size(), what, ids.c_str()));
      total += r->words.size();
    }
    for (auto &g : o.ghosts)
      c.fail(sig + ":partial", vh::fmt("%zu words of transaction %d visible without the rest of it (%s; visible: %s)", g.second,
                                       g.first, what, ids.c_str()));
    std::vector<addr> common;
    for (auto &b : byaddr) {
      Rec *r = recs[b.second].get();
      c.expect(b.first > last, sig + ":overlap", vh::fmt("transaction %d overlaps its predecessor at %ld", b.second, (long)b.first));
      last = b.first + r->words.size() - 1;
      for (size_t x : r->common) {
        addr a = b.first + x;
        bool gone = false;
        for (auto &e : erased)
          gone |= e.first <= a && a <= e.second;
        if (!gone)
          common.push_back(a);
      }
    }
    c.expect(o.common == common, sig + ":common",
             vh::fmt("the shared word has %zu occurrences, %zu expected (%s; visible: %s)", o.common.size(), common.size(), what,
                     ids.c_str()));
    c.expect(o.tokens == total, sig + ":tokens",
             vh::fmt("%ld tokens, expected %ld (%s; visible: %s)", (long)o.tokens, (long)total, what, ids.c_str()));
    if (!byaddr.empty())
      c.expect(o.lo == byaddr.begin()->first && o.hi == last, sig + ":range",
               vh::fmt("range [%ld,%ld], expected [%ld,%ld] (%s)", (long)o.lo, (long)o.hi, (long)byaddr.begin()->first, (long)last, what));
    for (auto &r : recs) {
      if (r->state.load() != COMMITTED)
        continue;
      if (r->ret.load() < o.call)
        c.expect(o.seen.count(r->id), sig + ":lost",
                 vh::fmt("transaction %d committed before the reader started but is missing (%s; visible: %s)", r->id, what, ids.c_str()));
      if (r->call.load() > o.ret)
        c.expect(!o.seen.count(r->id), sig + ":early",
                 vh::fmt("transaction %d visible to a reader that started before it committed (%s)", r->id, what));
    }
  }
  void quiesce(size_t base_threads) {
    for (int i = 0; i < 30000; i++) {
      if (vh::thread_count() <= base_threads)
        return;
      usleep(i < 200 ? 50 : 1000);
    }
    c.fail(sig + ":quiesce", "background merging did not stop within 30 s");
  }

  void hazelize(vh::Rng &rng) {
    std::string error;
    bool mixed = rng.chance(0.2); // shards that cannot be merged with each other
    int k = (int)rng.below(4); // which shards become large ones
    for (auto &f : vh::list_dir(dir)) {
      if (f.compare(0, 6, "fiver.") || (k != 3 && rng.chance(0.25 * k)))
        continue;
      auto wk = Working::make(dir, &error);
      auto fiver =
          Fiver::unpickle(dir + "/" + f, wk, Featurizer::make("hashing", ""), base_tokenizer, &error, Compressor::make(pc, ""),
                          Compressor::make(fc, ""), Compressor::make(tc, ""));
      c.expect(fiver != nullptr, sig + ":unpickle", error);
      fiver->start();
      auto hz = fiver->hazel(&error, mixed ? 1 + rng.below(200) : 64 * 1024);
      c.expect(hz != nullptr, sig + ":hazel", f + " " + error);
      hz = nullptr;
      fiver->end();
      fiver->discard();
      c.count("hazels_written");
    }
  }
  void run(int max_tx, bool hazels = false) {
    size_t base_threads = vh::base_threads();
    vh::Rng &rng = c.rng;
    std::string error;
    if (disk) {
      dir = c.dir + "/burrow";
      static const char *pcs[] = {"null", "post", "zlib"}, *fcs[] = {"null", "zlib"};
      options = std::string("tokenizer:name:") + (rng.chance(0.5) ? "utf8" : "ascii");
      if (rng.chance(0.6)) {
        pc = pcs[rng.below(3)];
        fc = fcs[rng.below(2)];
        tc = fcs[rng.below(2)];
        options += " idx:posting_compressor:" + pc + " idx:fvalue_compressor:" + fc + " txt:compressor:" + tc;
      }
      base = Bigwig::make(dir, options, &error);
    } else {
      base = Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make(rng.chance(0.5) ? "utf8" : "ascii", ""), &error);
    }
    c.expect(base != nullptr, sig + ":make", error);
    base_tokenizer = base->tokenizer();
    bool merging = rng.chance(0.8);
    base->merge(merging);
    size_t writers = 1 + rng.below(4), readers = rng.below(4);
    bool prelude = hazels;
    bool toggler = rng.chance(0.4);
    int id = 0;
    plan.resize(writers + prelude);
    for (size_t t = 0; t < writers + prelude; t++) {
      int n = 1 + rng.below(max_tx);
      if (t == writers)
        n += 3;
      std::vector<Rec *> done;
      for (int i = 0; i < n; i++) {
        auto r = std::make_unique<Rec>();
        r->id = id++;
        int len = 1 + rng.below(rng.chance(0.1) ? 900 : 30);
        for (int k = 0; k < len; k++) {
          int z = rng.below(6);
          if (z == 0 || k == 0) {
            r->mine.push_back(k);
            r->words.push_back(r->unique());
          } else if (z == 1) {
            r->common.push_back(k);
            r->words.push_back("the");
          } else
            r->words.push_back("w" + std::to_string(rng.below(40)));
          r->text += r->words.back() + " ";
        }
        r->fate = rng.chance(0.15) ? 1 : rng.chance(0.12) ? 2 : 0;
        bool in_group = !plan[t].empty() && plan[t].back()->group;
        if (in_group)
          r->fate = 0;
        if (r->fate == 0 && disk && i + 1 < n && rng.chance(0.15))
          r->group = true;
        else if (r->fate == 0 && !in_group && !done.empty() && rng.chance(0.25)) {
          // a later transaction of the same thread erases the second half of an
          // earlier one (committed by then: not one of the same group)
          Rec *victim = done[rng.below(done.size())];
          r->erases = victim->id;
        }
        plan[t].push_back(r.get());
        if (r->fate == 0 && r->words.size() >= 2)
          done.push_back(r.get());
        recs.push_back(std::move(r));
      }
    }
    for (auto &r : recs)
      all.push_back(r->id);
    if (prelude) {
      base->merge(false);
      quiesce(base_threads);
      writer(writers, rng.next());
      if (!errors.empty())
        c.fail(sig + ":prelude", errors[0]);
      base = nullptr;
      hazelize(rng);
      base = Bigwig::make(dir, &error);
      c.expect(base != nullptr, sig + ":make", error);
      base->merge(merging);
    }
    level = (int)rng.below(4);
    vh::sched_perturb(rng.next(), level);
    uint64_t p0 = vh::sched_points();
    std::vector<std::thread> ts;
    std::atomic<bool> stop{false};
    for (size_t t = 0; t < writers; t++) {
      uint64_t s = rng.next();
      ts.emplace_back([this, t, s] { writer(t, s); });
    }
    std::vector<std::thread> rs;
    for (size_t t = 0; t < readers; t++) {
      uint64_t s = rng.next();
      int rounds = 2 + rng.below(6);
      rs.emplace_back([this, s, rounds] { reader(s, rounds); });
    }
    std::thread tog;
    if (toggler) {
      uint64_t s = rng.next();
      tog = std::thread([this, s, &stop] {
        vh::Rng r(s);
        while (!stop.load()) {
          base->merge(r.chance(0.6));
          std::string v;
          base->set_parameter("k", std::to_string(r.below(5)));
          base->get_parameter("k", &v);
          usleep(r.below(200));
        }
      });
    }
    for (auto &t : ts)
      t.join();
    for (auto &t : rs)
      t.join();
    stop = true;
    if (toggler)
      tog.join();
    vh::sched_perturb(0, 0);
    c.count("lock_points", vh::sched_points() - p0);
    if (!errors.empty())
      c.fail(sig + ":live", errors[0]);
    // offline
    std::map<int, addr> bases;
    auto final_obs = [&](const char *what) {
      auto w = base->clone();
      Obs o;
      o.call = tick();
      w->start();
      o.ret = tick();
      observe(w.get(), all, &o);
      w->end();
      check_obs(o, &bases, what);
    };
    for (auto &o : log)
      check_obs(o, &bases, "concurrent reader");
    for (auto &a : log)
      for (auto &b : log)
        if (a.ret < b.call)
          for (auto &s : a.seen)
            c.expect(b.seen.count(s.first), sig + ":backwards", "a later reader lost a transaction an earlier reader saw");
    size_t partial = 0, committed = 0;
    for (auto &r : recs)
      committed += r->state.load() == COMMITTED;
    for (auto &o : log)
      partial += o.seen.size() > 0 && o.seen.size() < committed;
    c.count("snapshots", log.size());
    c.count("snapshots_mid_history", partial);
    c.count("commits", committed);
    final_obs("after all threads");
    base->merge(true);
    quiesce(base_threads);
    final_obs("after merging");
    if (disk) {
      base->merge(false);
      quiesce(base_threads);
      base = nullptr;
      for (auto &f : vh::list_dir(dir))
        c.expect(f == "dna" || f.compare(0, 6, "fiver.") == 0 || f.compare(0, 6, "hazel.") == 0, sig + ":litter",
                 "unexpected file left in the closed store: " + f);
      base = Bigwig::make(dir, &error);
      c.expect(base != nullptr, sig + ":reopen", error);
      final_obs("after reopening");
      base->merge(false);
      quiesce(base_threads);
    }
    uint64_t h = 7;
    std::map<uint64_t, int> order;
    for (auto &r : recs)
      if (r->state.load() == COMMITTED)
        order[r->call.load()] = r->id;
    for (auto &x : order)
      h = vh::mix(h ^ x.second);
    for (auto &o : log) {
      h = vh::mix(h ^ 0x55);
      for (auto &s : o.seen)
        h = vh::mix(h ^ s.first ^ (s.second.p << 12));
    }
    if (committed > 1 && partial > 0)
      c.nontrivial(h);
    std::string sm;
    for (auto &x : order)
      sm += std::to_string(x.second) + " ";
    c.sample(vh::fmt("writers=%zu readers=%zu delay-level=%d commit order ", writers, readers, level) + sm);
    base = nullptr;
    quiesce(base_threads);
  }
};
} // namespace

VH_MODE(conc_mem, false) {
  World w(c, "conc", false);
  w.run(8);
}
VH_MODE(conc_disk, true) {
  World w(c, "conc", true);
  w.run(6);
}
VH_MODE(conc_hazel, true) {
  World w(c, "conc", true);
  w.run(5, true);
}
