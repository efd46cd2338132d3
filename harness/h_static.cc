// Static collections: built in one go (S01), then extended by transactions
// and recovered after a crash (S02).
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define VH_NO_IO_HOOK // the sanitizers interpose the same calls
#else
#include "io_hook.h"
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include "io_hook.inc"
#endif
#include "world.h"
#include "src/annotator.h"
#include "src/appender.h"
#include "src/builder.h"
#include "src/dna.h"
#include "src/fastid_txt.h"
#include "src/ranking.h"
#include "src/recipe.h"
#include "src/simple.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
#include "src/working.h"
#include <sys/wait.h>
#include <thread>
using namespace cottontail;
using namespace world;

namespace {

// One run of appends and annotations, applied alike to the model and the code
struct Op {
  enum Kind { TEXT, ANN } kind;
  std::string text;
  addr p = 0, q = 0; // addresses append must return
  Ann a;             // absolute
};

struct Config {
  bool utf8 = false;
  std::string pc, fc, tc, options;
  size_t tok = 0, ann = 0;
  bool by_options = false;
  std::string str() const {
    return by_options ? "options '" + options + "'"
                      : vh::fmt("utf8=%d pc=%s fc=%s tc=%s tok=%zu ann=%zu", utf8, pc.c_str(), fc.c_str(), tc.c_str(), tok, ann);
  }
};

Config make_config(vh::Ctx &c) {
  Config k;
  static const std::vector<std::string> pcs = {"post", "zlib", "null", "tfdf", "bad"}, tcs = {"zlib", "null", "bad"};
  k.utf8 = c.rng.chance(0.3);
  k.pc = pcs[c.rng.below(3)];
  k.fc = c.rng.chance(0.5) ? "zlib" : "null";
  k.tc = c.rng.pick(tcs);
  k.by_options = c.rng.chance(0.4);
  if (k.by_options) {
    k.options = k.utf8 ? "tokenizer:name:utf8" : "tokenizer:noxml";
    if (c.rng.chance(0.5))
      k.options += " idx:posting_compressor:" + k.pc;
    if (c.rng.chance(0.5))
      k.options += " idx:fvalue_compressor:" + k.fc;
    if (c.rng.chance(0.5))
      k.options += " txt:compressor:" + k.tc;
    k.tok = k.ann = 1 << 20;
  } else {
    k.tok = c.rng.chance(0.3) ? 1 << 20 : c.rng.below(c.rng.chance(0.5) ? 20 : 600);
    k.ann = c.rng.chance(0.4) ? 1 << 20 : 3 + c.rng.below(c.rng.chance(0.5) ? 4 : 60);
  }
  return k;
}

std::shared_ptr<Builder> make_builder(vh::Ctx &c, const Config &k, std::shared_ptr<Working> working) {
  std::string error;
  std::shared_ptr<SimpleBuilder> b;
  if (k.by_options) {
    b = SimpleBuilder::make(working, k.options, &error);
  } else {
    auto f = Featurizer::make("hashing", "", &error);
    auto t = Tokenizer::make(k.utf8 ? "utf8" : "ascii", k.utf8 ? "" : "noxml", &error);
    c.expect(f != nullptr && t != nullptr, "static:make", error);
    b = SimpleBuilder::make(working, f, t, &error, k.tok, k.ann, k.pc, "", k.fc, "", k.tc, "");
  }
  c.expect(b != nullptr, "static:make", k.str() + " " + error);
  return b;
}

// What a sequence of appends does to the stored text. The separators a text
// starts with, and texts without any token, belong to the token before them.
struct Maker {
  vh::Ctx &c;
  Gen &g;
  addr next;        // next address
  bool ordered;     // annotations of one tag come in order and do not nest
  std::shared_ptr<Tx> tx = std::make_shared<Tx>();
  std::string *last = nullptr; // bytes of the token before
  std::string before;          // appended to the last token of the transaction before
  std::map<std::string, std::pair<addr, addr>> at;
  std::vector<Op> ops;
  Maker(vh::Ctx &c_, Gen &g_, addr next_, bool ordered_) : c(c_), g(g_), next(next_), ordered(ordered_) { tx->base = next; }
  void junk(const std::string &s) {
    if (tx->bytes.empty())
      before += s;
    else
      tx->bytes.back() += s;
  }
  void text(size_t n, size_t pad) {
    vh::Rng &r = c.rng;
    Op o;
    o.kind = Op::TEXT;
    if (n == 0) {
      o.text = r.chance(0.3) ? "" : r.chance(0.5) ? sep(r) : r.chance(0.5) ? "..." : "-- --";
      o.p = next + 1;
      o.q = next;
      std::string s = o.text;
      if (s.size() && !separator(s.back()))
        s += "\n";
      junk(s);
      ops.push_back(o);
      return;
    }
    std::string lead = r.chance(0.15) ? sep(r) : "";
    junk(lead);
    size_t had = tx->word.size();
    o.text = lead + gen_text(r, g, tx.get(), n);
    if (pad) {
      // widen the last token's separator
      std::string &b = tx->bytes.back();
      std::string space(pad, ' ');
      if (!separator(o.text.back()))
        b.pop_back();
      b += space;
      o.text += space;
      if (!separator(o.text.back()))
        b += '\n';
    }
    o.p = next;
    o.q = next + (tx->word.size() - had) - 1;
    next = o.q + 1;
    ops.push_back(o);
  }
  void annotate(addr lo, addr hi) {
    vh::Rng &r = c.rng;
    Op o;
    o.kind = Op::ANN;
    o.a.f = r.pick(g.tags);
    o.a.v = r.chance(0.5) ? 0.0 : r.chance(0.5) ? (fval)r.range(-5, 99) : r.unit();
    if (ordered) {
      auto i = at.find(o.a.f);
      addr p0 = i == at.end() ? lo : i->second.first + 1;
      addr q0 = i == at.end() ? lo : i->second.second + 1;
      o.a.p = p0 + r.below(4);
      o.a.q = std::max(o.a.p, q0) + r.below(6);
      if (o.a.q > hi + 5)
        return;
      at[o.a.f] = {o.a.p, o.a.q};
    } else {
      o.a.p = r.range(lo, hi);
      o.a.q = o.a.p + r.below(r.chance(0.3) ? 1 : 30);
      if (r.chance(0.05)) {
        o.a.p = r.range(-3, 3);
        o.a.q = r.range(-3, 3);
      }
    }
    ops.push_back(o);
    if (o.a.p >= 0 && o.a.p <= o.a.q)
      tx->abs.push_back(o.a);
  }
};

template <class AddText, class AddAnn>
void apply(vh::Ctx &c, const std::vector<Op> &ops, AddText text, AddAnn ann, const std::string &what) {
  for (size_t i = 0; i < ops.size(); i++) {
    const Op &o = ops[i];
    std::string error;
    if (o.kind == Op::TEXT) {
      addr p = -7, q = -7;
      c.expect(text(o.text, &p, &q, &error), "static:append", what + error);
      c.expect(p == o.p && q == o.q, "static:address",
               vh::fmt("text %zu '%s' got [%ld,%ld] want [%ld,%ld] ", i, vh::show(o.text, 60).c_str(), (long)p, (long)q, (long)o.p,
                       (long)o.q) +
                   what);
    } else {
      c.expect(ann(o.a, &error), "static:annotate", what + error);
    }
  }
}

void check_all(vh::Ctx &c, const std::string &burrow, const View &v, const Gen &g, const std::string &what, bool clones) {
  std::string error;
  auto w = c.rng.chance(0.5) ? Warren::make("simple", burrow, &error) : Warren::make(burrow, &error);
  c.expect(w != nullptr, "static:open", error + " " + what);
  w->start();
  check(c, w.get(), v, g, "", 0, "static", what);
  // every stored feature and no other
  addr want = 0;
  for (auto &l : v.lists(""))
    want += !l.second.empty();
  c.expect(w->idx()->vocab() == want, "static:vocab", vh::fmt("vocab()=%ld want %ld ", (long)w->idx()->vocab(), (long)want) + what);
  for (auto &l : v.lists("")) {
    addr n = w->idx()->count(w->featurizer()->featurize(l.first));
    c.expect(n == (addr)l.second.size(), "static:count",
             vh::fmt("count(%s)=%ld want %zu ", l.first.c_str(), (long)n, l.second.size()) + what);
  }
  if (clones) {
    auto x = w->clone(&error);
    c.expect(x != nullptr, "static:clone", error);
    if (!x->started())
      x->start();
    check(c, x.get(), v, g, "", LIGHT, "static:clone", what);
    x->end();
  }
  w->end();
}

View view_of(std::shared_ptr<Tx> t) {
  View v;
  v.add(t);
  return v;
}

std::shared_ptr<Tx> build(vh::Ctx &c, Gen &g, const Config &k, const std::string &burrow, std::shared_ptr<Working> working,
                          size_t texts, bool big) {
  auto b = make_builder(c, k, working);
  Maker m(c, g, 0, k.ann < (1 << 20));
  for (size_t i = 0; i < texts; i++) {
    size_t n = c.rng.chance(0.15) ? 0 : c.rng.chance(0.08) ? 900 + c.rng.below(2500) : 1 + c.rng.below(40);
    size_t pad = 0;
    if (big && c.rng.chance(0.3))
      pad = c.rng.chance(0.3) ? 1000000 + c.rng.below(2000000) : 200000 + c.rng.below(900000);
    m.text(n, pad);
    if (m.next > 0 && c.rng.chance(0.7))
      for (size_t j = c.rng.below(6); j > 0; j--)
        m.annotate(m.ordered ? 0 : std::max((addr)0, m.next - 1 - c.rng.range(0, 60)), m.next - 1);
  }
  apply(
      c, m.ops, [&](const std::string &t, addr *p, addr *q, std::string *e) { return b->add_text(t, p, q, e); },
      [&](const Ann &a, std::string *e) {
        return c.rng.chance(0.5) ? b->add_annotation(a.f, a.p, a.q, a.v, e)
                                 : b->add_annotation(b->featurizer()->featurize(a.f), a.p, a.q, a.v, e);
      },
      k.str());
  std::string error;
  if (m.next == 0)
    m.tx->abs.clear();
  c.expect(b->finalize(&error), "static:finalize", error + " " + k.str());
  return m.tx;
}

VH_MODE(build, true) {
  Gen g;
  Config k = make_config(c);
  g = make_gen(c.rng, k.utf8, false);
  std::string burrow = c.dir + "/b", error;
  auto working = Working::mkdir(burrow, &error);
  c.expect(working != nullptr, "static:mkdir", error);
  bool big = c.rng.chance(0.06);
  auto tx = build(c, g, k, burrow, working, c.rng.below(c.rng.chance(0.1) ? 80 : 25), big);
  View v = view_of(tx);
  check_all(c, burrow, v, g, k.str(), true);
  if (c.rng.chance(0.2)) {
    // preload, and the token identifiers of the fast reader, change nothing
    auto w = Warren::make("simple", burrow, &error);
    c.expect(w != nullptr && w->set_parameter("preload", "on", &error), "static:parameter", error);
    std::string value;
    c.expect(w->get_parameter("preload", &value, &error) && value == "on", "static:parameter", value);
    check_all(c, burrow, v, g, k.str() + " preloaded", false);
  }
  if (tx->n() > 1)
    c.nontrivial(v.hash());
  c.maxof("tokens", tx->n());
  if (k.tok < tx->n())
    c.count("builds_with_several_token_runs");
  if (k.ann < tx->abs.size())
    c.count("builds_with_several_annotation_runs");
  if (tx->n() > 1024)
    c.count("builds_over_one_text_block");
  if (big)
    c.count("builds_over_one_chunk");
}

// --- identifier table and many readers -------------------------------------

// identifiers: the intervals of some query, kept for quick reading
void make_fastid(vh::Ctx &c, const std::string &burrow, const View &v, const Gen &g, const std::string &what) {
  std::string error, id;
  auto lists = v.lists("");
  std::vector<std::string> names;
  for (auto &l : lists)
    if (l.second.size() && l.first.find_first_of("\"\\") == std::string::npos)
      names.push_back(l.first);
  if (names.empty() || c.rng.chance(0.07))
    id = c.rng.chance(0.5) ? "neverseen" : "(^ neverseen neversaw)";
  else if (c.rng.chance(0.6))
    id = "\"" + c.rng.pick(names) + "\"";
  else
    id = "(+ \"" + c.rng.pick(names) + "\" \"" + c.rng.pick(names) + "\")";
  if (c.rng.chance(0.7)) // tags are not words
    for (auto &t : g.tags)
      if (lists.count(t) && lists[t].size() && c.rng.chance(0.5))
        id = t;
  auto w = Warren::make("simple", burrow, &error);
  c.expect(w != nullptr && w->set_parameter("id", id, &error), "static:parameter", error);
  w = Warren::make("simple", burrow, &error);
  c.expect(w != nullptr, "static:open", error);
  w->start();
  c.expect(fastid(w, &error), "static:fastid", id + ": " + error + " " + what);
  if (c.rng.chance(0.5))
    check(c, w.get(), v, g, "", LIGHT, "static:fastid", what);
  w->end();
  w = Warren::make("simple", burrow, &error);
  c.expect(w != nullptr, "static:open", "with fastid " + error);
  w->start();
  auto h = w->hopper_from_gcl(id, &error);
  c.expect(h != nullptr, "static:hopper", error);
  addr p, q;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q)) {
    c.count("identifiers_read");
    for (int k = 0; k < 4; k++) {
      addr a = p + (k == 1) - (k == 3), b = q + (k == 2);
      std::string got = w->txt()->translate(a, b), want = v.translate(a, b);
      size_t d = 0;
      while (d < got.size() && d < want.size() && got[d] == want[d])
        d++;
      c.expect(got == want, "static:fastid",
               vh::fmt("identifiers %s: translate(%ld,%ld) differs at byte %zu of %zu (%zu wanted): gave '%s' want '%s' ", id.c_str(), (long)a, (long)b,
                       d, got.size(), want.size(), vh::show(got.substr(d), 60).c_str(), vh::show(want.substr(d), 60).c_str()) + what);
    }
  }
  w->end();
}

VH_MODE(fastid, true) {
  Gen g;
  Config k = make_config(c);
  g = make_gen(c.rng, k.utf8, false);
  std::string burrow = c.dir + "/b", error;
  auto working = Working::mkdir(burrow, &error);
  c.expect(working != nullptr, "static:mkdir", error);
  auto tx = build(c, g, k, burrow, working, c.rng.below(25), false);
  View v = view_of(tx);
  make_fastid(c, burrow, v, g, k.str());
  check_all(c, burrow, v, g, k.str() + " with identifiers", true);
  if (c.rng.chance(0.3)) { // made again
    make_fastid(c, burrow, v, g, k.str() + " again");
    check_all(c, burrow, v, g, k.str() + " with identifiers again", true);
  }
  if (tx->n() > 1)
    c.nontrivial(v.hash());
}

// Threads reading one collection through copies, or through one handle
VH_MODE(readers, true) {
  Gen g;
  Config k = make_config(c);
  g = make_gen(c.rng, k.utf8, false);
  std::string burrow = c.dir + "/b", error;
  auto working = Working::mkdir(burrow, &error);
  c.expect(working != nullptr, "static:mkdir", error);
  auto tx = build(c, g, k, burrow, working, 1 + c.rng.below(c.rng.chance(0.15) ? 80 : 20), false);
  View v = view_of(tx);
  std::string what = k.str();
  bool ids = c.rng.chance(0.3);
  if (ids) {
    make_fastid(c, burrow, v, g, k.str());
    what += " identifiers";
  }
  if (c.rng.chance(0.3)) {
    auto w = Warren::make("simple", burrow, &error);
    c.expect(w != nullptr && w->set_parameter("preload", "on", &error), "static:parameter", error);
    what += " preload";
  }
  auto w = Warren::make("simple", burrow, &error);
  c.expect(w != nullptr, "static:open", error + " " + what);
  w->start();
  size_t rounds = 1 + c.rng.below(3);
  for (size_t r = 0; r < rounds; r++) {
    size_t n = 2 + c.rng.below(5);
    bool shared = c.rng.chance(0.4), nested = c.rng.chance(0.3);
    std::string how = what + vh::fmt(" %zu readers, %s", n, shared ? "shared" : "copies");
    std::vector<std::string> wrong(n);
    std::vector<vh::Ctx> cs(n, c);
    std::vector<std::thread> ts;
    std::atomic<size_t> gate{0};
    for (size_t i = 0; i < n; i++) {
      cs[i].rng = vh::Rng(c.rng.next());
      cs[i].mute = true;
      cs[i].probe = &wrong[i];
      bool copy = !shared || c.rng.chance(0.3), early = c.rng.chance(0.5);
      std::shared_ptr<Warren> mine = copy && early ? w->clone(&error) : nullptr;
      ts.emplace_back([&, i, copy, mine] {
        gate.fetch_add(1, std::memory_order_relaxed);
        while (gate.load(std::memory_order_relaxed) < n)
          ;
        try {
          std::string error;
          std::shared_ptr<Warren> x = !copy ? w : mine != nullptr ? mine : w->clone(&error);
          cs[i].expect(x != nullptr, "readers:clone", error);
          if (!x->started())
            x->start();
          check(cs[i], x.get(), v, g, "", cs[i].rng.chance(0.5) ? LIGHT : 0, "readers", how);
          if (nested && copy) { // a copy of the copy outlives it
            auto y = x->clone(&error);
            cs[i].expect(y != nullptr, "readers:clone", error);
            x->end();
            x = y;
            if (!x->started())
              x->start();
            check(cs[i], x.get(), v, g, "", LIGHT, "readers", how + ", copy of a copy");
          }
          if (copy)
            x->end();
        } catch (vh::CaseFail &) {
        }
      });
    }
    for (auto &t : ts)
      t.join();
    for (auto &x : wrong)
      if (x != "")
        c.fail("readers:" + x.substr(0, x.find(": ")), x);
    c.count(shared ? "rounds_with_a_shared_handle" : "rounds_with_copies");
    c.count("concurrent_readers", n);
    if (c.rng.chance(0.3)) { // caches start out empty again
      w->end();
      w = Warren::make("simple", burrow, &error);
      c.expect(w != nullptr, "static:open", error + " " + what);
      w->start();
    }
  }
  w->end();
  if (tx->n() > 1)
    c.nontrivial(v.hash());
}

// --- transactions on a static collection ---------------------------------

void set_batch(vh::Ctx &c, std::shared_ptr<Working> working) {
  std::string dna, error;
  c.expect(read_dna(working, &dna, &error), "static:dna", error);
  std::map<std::string, std::string> a, b, r;
  c.expect(cook(dna, &a) && cook(a["idx"], &b) && cook(b["recipe"], &r), "static:dna", dna);
  r["add_file_size"] = std::to_string(60 + c.rng.below(400)); // every batch is a thread
  b["recipe"] = freeze(r);
  a["idx"] = freeze(b);
  c.expect(write_dna(working, freeze(a), &error), "static:dna", error);
}

struct Plan {
  Config k;
  Gen g;
  std::shared_ptr<Tx> base;
  struct Step {
    std::vector<Op> ops;
    std::shared_ptr<Tx> after; // everything stored once it commits
    int fate;                  // 0 commit, 1 abort, 2 abort after ready
  };
  std::vector<Step> steps;
};

Plan::Step plan_step(vh::Ctx &c, Plan &p, const std::shared_ptr<Tx> &now, int fate) {
  Maker m(c, p.g, now->n(), false);
  size_t texts = c.rng.below(5);
  for (size_t i = 0; i < texts; i++)
    m.text(c.rng.chance(0.15) ? 0 : c.rng.chance(0.12) ? 900 + c.rng.below(2500) : 1 + c.rng.below(40),
           c.rng.chance(0.02) ? 600000 + c.rng.below(900000) : 0);
  for (size_t j = c.rng.below(12); j > 0; j--) {
    addr hi = m.next;
    if (hi > 0)
      m.annotate(c.rng.chance(0.5) ? 0 : std::max((addr)0, hi - 50), hi - 1);
  }
  Plan::Step s;
  s.ops = m.ops;
  s.fate = fate;
  auto t = std::make_shared<Tx>(*now);
  if (t->n())
    t->bytes.back() += m.before;
  t->word.insert(t->word.end(), m.tx->word.begin(), m.tx->word.end());
  t->bytes.insert(t->bytes.end(), m.tx->bytes.begin(), m.tx->bytes.end());
  for (auto &u : m.tx->upper)
    t->upper.emplace_back(u.first + now->n(), u.second);
  t->abs.insert(t->abs.end(), m.tx->abs.begin(), m.tx->abs.end());
  s.after = t;
  return s;
}

void apply_step(vh::Ctx &c, Warren *w, const Plan::Step &s, const std::string &what) {
  apply(
      c, s.ops, [&](const std::string &t, addr *p, addr *q, std::string *e) { return w->appender()->append(t, p, q, e); },
      [&](const Ann &a, std::string *e) { return w->annotator()->annotate(w->featurizer()->featurize(a.f), a.p, a.q, a.v, e); },
      what);
}

VH_MODE(extend, true) {
  Plan p;
  p.k = make_config(c);
  p.g = make_gen(c.rng, p.k.utf8, false);
  std::string burrow = c.dir + "/b", error;
  auto working = Working::mkdir(burrow, &error);
  c.expect(working != nullptr, "static:mkdir", error);
  auto now = build(c, p.g, p.k, burrow, working, c.rng.chance(0.2) ? 0 : c.rng.below(10), c.rng.chance(0.02));
  if (c.rng.chance(0.5))
    set_batch(c, working);
  std::string trail = p.k.str() + vh::fmt(" built %zu tokens;", now->n());
  std::shared_ptr<Warren> w;
  size_t steps = 1 + c.rng.below(5), committed = 0;
  for (size_t i = 0; i < steps; i++) {
    int fate = c.rng.chance(0.65) ? 0 : 1 + c.rng.below(2);
    auto s = plan_step(c, p, now, fate);
    trail += vh::fmt(" %s to %zu;", fate == 0 ? "commit" : fate == 1 ? "abort" : "abort-readied", s.after->n());
    if (w == nullptr || c.rng.chance(0.5)) {
      w = Warren::make("simple", burrow, &error);
      c.expect(w != nullptr, "static:open", error + " " + trail);
    }
    bool ok = w->transaction(&error), disturbed = false;
    c.expect(ok, "static:transaction", error + " " + trail);
    if (c.rng.chance(0.3)) {
      disturbed = true;
      // only one at a time
      auto x = Warren::make("simple", burrow, &error);
      c.expect(x != nullptr, "static:open", "second " + error);
      c.expect(!x->transaction(&error), "static:exclusive", "two transactions at once " + trail);
      c.count("second_transactions_refused");
    }
    apply_step(c, w.get(), s, trail);
    // a reader opened meanwhile sees the state before
    if (c.rng.chance(0.4)) {
      disturbed = true;
      check_all(c, burrow, view_of(now), p.g, trail + " reader during", false);
      c.count("readers_during_transaction");
    }
    if (fate != 1) {
      ok = w->ready(&error);
      // opening a directory sweeps the temporary files there, and a
      // transaction that lost its own has to say so
      c.expect(ok || disturbed, "static:ready", error + " " + trail);
      if (!ok) {
        fate = 1;
        trail += " ready refused;";
        c.count("ready_refused_after_sweep");
      }
      if (c.rng.chance(0.3))
        check_all(c, burrow, view_of(now), p.g, trail + " reader after ready", false);
    }
    if (fate == 0) {
      w->commit();
      now = s.after;
      committed++;
    } else
      w->abort();
    check_all(c, burrow, view_of(now), p.g, trail, c.rng.chance(0.3));
  }
  if (committed > 0 && now->n() > 1)
    c.nontrivial(view_of(now).hash());
  c.count("transactions_committed", committed);
  c.count("transactions_aborted", steps - committed);
  if (now->n() > 1024)
    c.count("collections_over_one_text_block");
}

#ifndef VH_NO_IO_HOOK
// Killed at a file operation; the owner then rolls back, or forward if it had
// been told that the transaction was ready.
// One write, or every write from one on, fails while a collection is built or
// extended: the operation says so, or the program ends, or everything is there.
VH_MODE(static_fault, true) {
  enum { WHOLE = 0, REPORTED = 40, RETRIED = 41, UNOPENED = 42 };
  io::Shared *sh = io::init();
  Plan p;
  p.k = make_config(c);
  p.g = make_gen(c.rng, p.k.utf8, false);
  bool building = c.rng.chance(0.45);
  std::string burrow = c.dir + "/b", trial = c.dir + "/trial", error;
  size_t texts = c.rng.chance(0.1) ? 0 : c.rng.below(building ? 16 : 8);
  bool big = building && c.rng.chance(0.03);
  vh::Rng before = c.rng;
  Gen g0 = p.g;
  auto working = Working::mkdir(burrow, &error);
  c.expect(working != nullptr, "static:mkdir", error);
  auto now = build(c, p.g, p.k, burrow, working, texts, big);
  working = nullptr;
  Plan::Step s;
  if (!building)
    s = plan_step(c, p, now, 0);
  auto catching = [&](vh::Ctx &q, std::string *probe, auto f) {
    q.mute = true;
    q.probe = probe;
    try {
      f(q);
    } catch (vh::CaseFail &) {
      snprintf(sh->note, sizeof sh->note, "%s", probe->c_str());
      // an address that is wrong isn't a report
      if (probe->compare(0, 14, "static:address") == 0)
        _exit(3);
      return false;
    }
    return true;
  };
  auto run = [&](bool again) {
    pid_t pid = fork();
    if (pid != 0) {
      int st = 0;
      waitpid(pid, &st, 0);
      return st;
    }
    alarm(60);
    prctl(PR_SET_DUMPABLE, 0);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 2); // assertions
    io::data_only = true;
    std::string e, probe;
    vh::Ctx q = c;
    if (building) {
      q.rng = before;
      Gen g = g0;
      auto w = Working::mkdir(trial, &e);
      if (w == nullptr)
        _exit(4);
      io::armed = true;
      bool ok = catching(q, &probe, [&](vh::Ctx &x) { build(x, g, p.k, trial, w, texts, big); });
      io::armed = false;
      _exit(ok ? WHOLE : REPORTED);
    }
    auto w = Warren::make("simple", trial, &e);
    if (w == nullptr)
      _exit(4);
    auto step = [&] {
      if (!w->transaction(&e)) {
        snprintf(sh->note, sizeof sh->note, "transaction: %s", e.c_str());
        return UNOPENED;
      }
      bool ok = catching(q, &probe, [&](vh::Ctx &x) { apply_step(x, w.get(), s, ""); });
      if (ok && !(ok = w->ready(&e)))
        snprintf(sh->note, sizeof sh->note, "ready: %s", e.c_str());
      sh->phase = 2;
      io::armed = false;
      if (ok)
        w->commit();
      else
        w->abort();
      return ok ? WHOLE : REPORTED;
    };
    io::armed = true;
    int r = step();
    io::armed = false;
    // the same handle goes on, or says that it can't
    if (again && r != WHOLE && step() == WHOLE)
      r = RETRIED;
    w = nullptr;
    _exit(r);
  };
  auto reset = [&] {
    vh::rmrf(trial);
    if (!building)
      vh::copy_dir(burrow, trial);
    io::init();
  };
  std::string kind = building ? "build" : "extend";
  reset();
  sh->mode = io::COUNT;
  int st = run(false);
  c.expect(WIFEXITED(st) && WEXITSTATUS(st) == WHOLE, "static:fault:setup", vh::fmt("dry run of %s status %x %s %s", kind.c_str(), st, p.k.str().c_str(), sh->note));
  uint64_t total = sh->ops;
  c.count("file_operations", total);
  View pre = view_of(now), post = building ? pre : view_of(s.after);
  size_t faults = std::min<uint64_t>(total, c.effort ? 30 : 5);
  for (size_t i = 0; i < faults; i++) {
    reset();
    bool again = c.rng.chance(0.4);
    sh->mode = c.rng.chance(0.5) ? io::FAIL : io::FAIL_FROM;
    sh->errno_value = c.rng.chance(0.7) ? ENOSPC : EIO;
    uint64_t t = 1 + c.rng.below(total);
    sh->target = t;
    st = run(again);
    std::string where = vh::fmt("%s op %lu/%lu %s (%s) struck %lu phase %d: ", p.k.str().c_str(), (unsigned long)t, (unsigned long)total,
                                sh->mode == io::FAIL ? "once" : "from there on", sh->what, (unsigned long)sh->struck.load(), sh->phase.load()) +
                        sh->note + " ";
    if (sh->struck == 0) {
      c.count("faults_not_reached");
      continue;
    }
    c.count("faults_delivered");
    bool stopped = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
#ifdef NDEBUG
    stopped = stopped && building; // nothing but an assertion would stop it
#endif
    int r = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    c.expect(stopped || r == WHOLE || r == REPORTED || r == RETRIED || r == UNOPENED, "static:fault:" + kind + ":ended", vh::fmt("status %x ", st) + where);
    c.count(kind + (stopped ? "_stopped" : r == WHOLE ? "_whole" : r == RETRIED ? "_retried" : "_reported"));
    c.nontrivial(vh::hash_str(sh->what, pre.hash() ^ vh::mix(post.hash() + (uint64_t)r)));
    if (building) {
      if (r == WHOLE)
        check_all(c, trial, post, p.g, where + "built in spite of a failure", false);
      continue;
    }
    if (stopped) {
      auto wk = Working::make(trial, &error);
      c.expect(wk != nullptr, "static:fault:open", error + where);
      std::string dna;
      std::map<std::string, std::string> a, txt, idx;
      c.expect(read_dna(wk, &dna, &error) && cook(dna, &a) && cook(a["txt"], &txt) && cook(a["idx"], &idx), "static:fault:dna", where);
      // not ready, so there is only one way
      c.expect(Appender::recover(txt["name"], txt["recipe"], false, &error, wk), "static:fault:recover", error + where);
      c.expect(Annotator::recover(idx["name"], idx["recipe"], false, &error, wk), "static:fault:recover", error + where);
    }
    bool there = r == WHOLE || r == RETRIED;
    auto base = there ? s.after : now;
    check_all(c, trial, there ? post : pre, p.g, where + (there ? "committed in spite of a failure" : "as it was"), false);
    if (c.rng.chance(0.5)) {
      auto n = plan_step(c, p, base, 0);
      auto w = Warren::make("simple", trial, &error);
      c.expect(w != nullptr && w->transaction(&error), "static:fault:transaction", error + " " + where);
      apply_step(c, w.get(), n, where + " next");
      c.expect(w->ready(&error), "static:fault:ready", error + where);
      w->commit();
      check_all(c, trial, view_of(n.after), p.g, where + " next", false);
      c.count("continued_after_failure");
    }
  }
}

VH_MODE(static_crash, true) {
  Plan p;
  p.k = make_config(c);
  p.g = make_gen(c.rng, p.k.utf8, false);
  std::string burrow = c.dir + "/b", error;
  auto working = Working::mkdir(burrow, &error);
  c.expect(working != nullptr, "static:mkdir", error);
  auto now = build(c, p.g, p.k, burrow, working, c.rng.chance(0.15) ? 0 : c.rng.below(8), false);
  if (c.rng.chance(0.5))
    set_batch(c, working);
  int fate = c.rng.chance(0.7) ? 0 : 1 + c.rng.below(2);
  auto s = plan_step(c, p, now, fate);
  io::Shared *sh = io::init();
  uint64_t seed = c.rng.next();
  auto workload = [&](const std::string &b) {
    // child only; phases: 1 transaction opened, 2 readied, 3 finished
    std::string e;
    auto w = Warren::make("simple", b, &e);
    if (w == nullptr)
      _exit(3);
    io::armed = true;
    if (!w->transaction(&e)) {
      snprintf(sh->note, sizeof sh->note, "%s", e.c_str());
      _exit(4);
    }
    sh->phase = 1;
    vh::Ctx quiet;
    std::string probe;
    quiet.probe = &probe;
    try {
      apply_step(quiet, w.get(), s, "");
    } catch (...) {
      _exit(5);
    }
    if (fate != 1) {
      if (!w->ready(&e))
        _exit(6);
      sh->phase = 2;
    }
    if (fate == 0) {
      sh->called = 1;
      w->commit();
    } else {
      sh->called = 2;
      w->abort();
    }
    sh->phase = 3;
    io::armed = false;
    _exit(0);
  };
  (void)seed;
  auto fork_it = [&](const std::string &b) {
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      workload(b);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return st;
  };
  std::string trial = c.dir + "/trial";
  vh::copy_dir(burrow, trial);
  sh->mode = io::COUNT;
  int st = fork_it(trial);
  c.expect(WIFEXITED(st) && WEXITSTATUS(st) == 0, "static:crash:setup", vh::fmt("dry run status %x %s", st, p.k.str().c_str()));
  uint64_t total = sh->ops;
  c.count("file_operations", total);
  View pre = view_of(now), post = view_of(s.after);
  size_t kills = std::min<uint64_t>(total, c.effort ? 40 : 6);
  for (size_t i = 0; i < kills; i++) {
    vh::rmrf(trial);
    vh::copy_dir(burrow, trial);
    io::init();
    sh->mode = c.rng.chance(0.3) ? io::TORN : io::KILL;
    // half of the time near the end, where the transaction is published
    uint64_t t = c.rng.chance(0.5) ? 1 + c.rng.below(total) : total - std::min<uint64_t>(total - 1, c.rng.below(24));
    sh->target = t;
    st = fork_it(trial);
    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
      c.expect(WIFEXITED(st) && WEXITSTATUS(st) == 0, "static:crash:setup", vh::fmt("status %x at %lu %s", st, (unsigned long)t, sh->note));
      continue;
    }
    std::string where = vh::fmt("%s op %lu/%lu (%s) phase %d called %d fate %d ", p.k.str().c_str(), (unsigned long)t,
                                (unsigned long)total, sh->what, sh->phase.load(), sh->called.load(), fate);
    c.count(sh->phase >= 2 ? "kills_after_ready" : "kills_before_ready");
    // forward only when told that it was ready and no abort had begun; back
    // only when no commit had begun
    bool can_forward = sh->phase >= 2 && sh->called != 2, can_back = sh->called != 1;
    bool forward = can_forward && (!can_back || c.rng.chance(0.5));
    // the restart opens the directory, which sweeps its temporary files
    for (int round = 0; round < 2; round++) {
      auto wk = Working::make(trial, &error);
      c.expect(wk != nullptr, "static:crash:open", error + where);
      std::string dna;
      std::map<std::string, std::string> a, txt, idx;
      c.expect(read_dna(wk, &dna, &error) && cook(dna, &a) && cook(a["txt"], &txt) && cook(a["idx"], &idx), "static:crash:dna",
               where);
      c.expect(Appender::recover(txt["name"], txt["recipe"], forward, &error, wk), "static:crash:recover", error + where);
      c.expect(Annotator::recover(idx["name"], idx["recipe"], forward, &error, wk), "static:crash:recover", error + where);
      check_all(c, trial, forward ? post : pre, p.g, where + (forward ? "recovered forward" : "recovered back"), false);
      c.count(forward ? "recovered_forward" : "recovered_back");
      if (c.rng.chance(0.6))
        break;
      where += "again ";
    }
    // and it can go on
    if (c.rng.chance(0.5)) {
      auto base = forward ? s.after : now;
      auto n = plan_step(c, p, base, 0);
      auto w = Warren::make("simple", trial, &error);
      c.expect(w != nullptr && w->transaction(&error), "static:crash:transaction", error + where);
      apply_step(c, w.get(), n, where + " next");
      bool ok = w->ready(&error);
      c.expect(ok, "static:crash:ready", error + where);
      w->commit();
      check_all(c, trial, view_of(n.after), p.g, where + " next", false);
      c.count("continued_after_recovery");
    }
    c.nontrivial(vh::hash_str(sh->what, pre.hash() ^ vh::mix(post.hash() + forward)));
  }
}
#endif
} // namespace
