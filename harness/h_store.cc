// The dynamic store: random transaction histories against the World model
// (atomicity D01, snapshots D02, appends D03, erasure D04, merging D05,
// reopening D06), in memory and on disk.
#include "world.h"
#include "src/bigwig.h"
#include "src/fiver.h"
#include "src/fluffle.h"
#include "src/hazel.h"
#include "src/working.h"
#include <dirent.h>
#include <unistd.h>
using namespace cottontail;
using namespace world;

namespace {
// background work is done when the process is back to its initial threads
void quiesce(vh::Ctx &c, size_t base) {
  for (int i = 0; i < 20000; i++) {
    if (vh::thread_count() <= base)
      return;
    usleep(i < 200 ? 50 : 1000);
  }
  c.fail("liveness:quiesce", "background merging did not stop within 20 s");
}

struct Weights {
  int tx = 10, inter = 4, check = 6, snap = 4, merge = 3, wait = 3, reopen = 0, hazel = 0, param = 1;
  double abort = 0.15, erase = 0.0, text_prob = 0.85;
  bool big = false;
  int steps = 14;
};

struct Open {
  std::shared_ptr<Bigwig> w;
  std::shared_ptr<Tx> tx;
  addr stage = 0; // first staging address
  bool readied = false;
};

struct Hist {
  vh::Ctx &c;
  std::string sig;
  Weights wt;
  bool disk;
  Gen g;
  std::string dir, options;
  std::shared_ptr<Featurizer> featurizer;
  std::shared_ptr<Tokenizer> tokenizer;
  std::shared_ptr<Bigwig> base;
  std::shared_ptr<Working> working;
  std::vector<std::shared_ptr<const Tx>> committed;
  std::vector<Open> open;
  struct Snap {
    std::shared_ptr<Warren> w;
    View v;
  };
  std::vector<Snap> snaps;
  std::map<std::string, std::string> params;
  addr next_addr = 0;
  size_t base_threads;
  std::string log;
  int commits = 0, aborts = 0, merges_seen = 0;
  bool mixed_chunks = false; // large shards of different chunk sizes are never merged
  std::shared_ptr<Compressor> pc, fc, tc;

  Hist(vh::Ctx &c, const std::string &sig, bool disk, const Weights &wt) : c(c), sig(sig), wt(wt), disk(disk) {
    base_threads = vh::base_threads();
    bool utf8 = c.rng.chance(0.5);
    g = make_gen(c.rng, utf8, wt.erase > 0);
    g.loose = c.rng.chance(0.2);
    mixed_chunks = c.rng.chance(0.3);
    std::string error;
    featurizer = Featurizer::make("hashing", "");
    tokenizer = Tokenizer::make(utf8 ? "utf8" : "ascii", c.rng.chance(0.3) && !utf8 ? "xml" : "");
    c.expect(featurizer && tokenizer, "setup", "components");
    if (!disk) {
      base = Bigwig::make(nullptr, featurizer, tokenizer, &error);
      c.expect(base != nullptr, sig + ":make", error);
    } else {
      dir = c.dir + "/burrow";
      options = std::string("tokenizer:name:") + (utf8 ? "utf8" : "ascii");
      static const char *pcs[] = {"null", "post", "zlib", "tfdf"}, *fcs[] = {"null", "zlib", "tfdf"}, *tcs[] = {"null", "zlib"};
      if (c.rng.chance(0.7)) {
        options += std::string(" idx:posting_compressor:") + pcs[c.rng.below(3)];
        options += std::string(" idx:fvalue_compressor:") + fcs[c.rng.below(2)];
        options += std::string(" txt:compressor:") + tcs[c.rng.below(2)];
      }
      base = Bigwig::make(dir, options, &error);
      c.expect(base != nullptr, sig + ":make", options + " : " + error);
      tokenizer = base->tokenizer();
      featurizer = base->featurizer();
      working = base->working();
    }
    if (c.rng.chance(0.4))
      base->merge(false);
    else
      base->merge(true);
  }
  ~Hist() {
    snaps.clear();
    for (auto &o : open)
      o.w->abort();
    open.clear();
    if (base)
      base->merge(false);
    base = nullptr;
    working = nullptr;
    for (int i = 0; i < 20000 && vh::thread_count() > base_threads; i++)
      usleep(i < 200 ? 50 : 1000);
  }
  void note(const std::string &s) {
    log += s + "; ";
    c.trace("%s", s.c_str());
  }
  View view() const {
    View v;
    for (auto &t : committed)
      v.add(t);
    return v;
  }
  std::string what() const {
    std::string l = log.size() > 600 ? ".." + log.substr(log.size() - 600) : log;
    return std::string(disk ? "disk " : "mem ") + options + " :: " + l;
  }
  void begin() {
    Open o;
    std::string error;
    o.w = std::dynamic_pointer_cast<Bigwig>(base->clone(&error));
    c.expect(o.w != nullptr, sig + ":clone", error);
    o.tx = std::make_shared<Tx>();
    c.expect(o.w->transaction(&error), sig + ":transaction", error);
    c.expect(!o.w->transaction(), sig + ":transaction", "second transaction on one warren accepted");
    View v = view();
    size_t apps = c.rng.chance(wt.text_prob) ? 1 + c.rng.below(3) : 0;
    bool first = true;
    if (g.loose && c.rng.chance(0.3)) {
      addr p = 0, q = 0;
      std::string none = sep(c.rng) + sep(c.rng);
      c.expect(o.w->appender()->append(none, &p, &q, &error) && q == p - 1, sig + ":append",
               "text without tokens addressed tokens");
      c.count("tokenless_texts");
    }
    for (size_t i = 0; i < apps; i++) {
      size_t n = c.rng.chance(0.08) && wt.big ? 500 + c.rng.below(1500) : 1 + c.rng.below(c.rng.chance(0.2) ? 120 : 20);
      addr p = 0, q = 0;
      size_t at = o.tx->n();
      std::string text = gen_text(c.rng, g, o.tx.get(), n);
      c.expect(o.w->appender()->append(text, &p, &q, &error), sig + ":append", error);
      if (first)
        o.stage = p;
      first = false;
      c.expect(p == o.stage + (addr)at && q == p + (addr)n - 1, sig + ":append",
               vh::fmt("append of %zu tokens returned [%ld,%ld], previous %zu tokens in this transaction", n, (long)(p - o.stage),
                       (long)(q - o.stage), at));
      if (c.rng.chance(0.1)) {
        // text without tokens: nothing is addressed
        static const char *none[] = {"", " ", ", ", "...\n"};
        std::string t = none[c.rng.below(4)];
        c.expect(o.w->appender()->append(t, &p, &q, &error) && q == p - 1, sig + ":append", "empty text addressed tokens");
        if (t != "" && !o.tx->bytes.empty()) {
          o.tx->bytes.back() += t;
          if (!separator(t.back()))
            o.tx->bytes.back() += "\n";
        }
      }
    }
    if (o.tx->n() && o.tx->bytes.back().back() != '\n')
      o.tx->bytes.back() += "\n";
    size_t n = o.tx->n();
    addr lo, hi;
    bool any = v.range(&lo, &hi);
    size_t anns = c.rng.below(8);
    if (n == 0 && anns == 0)
      anns = 1;
    for (size_t i = 0; i < anns; i++) {
      std::string tag = c.rng.pick(g.tags);
      fval val = c.rng.chance(0.3) ? 0.0 : c.rng.chance(0.5) ? (fval)c.rng.range(-9, 99) : c.rng.unit() * 1e6;
      bool here = n > 0 && (!any || c.rng.chance(0.7));
      if (!here && !any)
        continue;
      if (here && any && !g.erasures && c.rng.chance(0.1)) { // from committed text into our own
        addr p = c.rng.range(lo, hi), q = c.rng.range(0, n - 1);
        c.expect(o.w->annotator()->annotate(featurizer->featurize(tag), p, o.stage + q, val, &error), sig + ":annotate", error);
        o.tx->span.push_back({tag, p, q, val});
        c.count("spanning_annotations");
        continue;
      }
      if (here && c.rng.chance(0.05)) { // an empty interval is never indexed
        std::string odd = c.rng.chance(0.5) ? tag : "empty:";
        addr p = c.rng.range(1, n);
        c.expect(o.w->annotator()->annotate(featurizer->featurize(odd), o.stage + p, o.stage + p - 1, val, &error), sig + ":annotate", error);
        c.count("empty_annotations");
        continue;
      }
      addr w = g.erasures ? g.width[tag] : c.rng.chance(0.3) ? 0 : c.rng.range(0, c.rng.chance(0.3) ? 60 : 8);
      if (here) {
        addr p = c.rng.range(0, n - 1), q = std::min<addr>(p + w, n - 1);
        if (g.erasures && q != p + w)
          continue;
        c.expect(o.w->annotator()->annotate(featurizer->featurize(tag), o.stage + p, o.stage + q, val, &error), sig + ":annotate",
                 error);
        o.tx->rel.push_back({tag, p, q, val});
      } else {
        addr p = c.rng.range(lo, hi), q = g.erasures ? p + w : std::min<addr>(p + w, hi);
        c.expect(o.w->annotator()->annotate(featurizer->featurize(tag), p, q, val, &error), sig + ":annotate", error);
        o.tx->abs.push_back({tag, p, q, val});
      }
    }
    if (any && c.rng.chance(wt.erase)) {
      size_t k = 1 + c.rng.below(3);
      for (size_t i = 0; i < k; i++) {
        // erased regions may nest, overlap, repeat, and cover this transaction's own text
        addr span = c.rng.range(0, c.rng.chance(0.3) ? hi - lo : 15);
        if (n > 0 && c.rng.chance(0.25)) {
          addr p = c.rng.range(0, n - 1), q = std::min<addr>(p + span, n - 1);
          c.expect(o.w->annotator()->erase(o.stage + p, o.stage + q, &error), sig + ":erase", error);
          o.tx->erel.emplace_back(p, q);
        } else {
          auto es = v.erased();
          addr p, q;
          if (!es.empty() && c.rng.chance(0.3)) { // inside, around or equal to an older erasure
            auto x = c.rng.pick(es);
            p = std::max(lo, x.first + c.rng.range(-3, 3)), q = std::min(hi, x.second + c.rng.range(-3, 3));
          } else {
            p = c.rng.range(lo, hi), q = std::min(hi, p + span);
          }
          if (p > q)
            continue;
          c.expect(o.w->annotator()->erase(p, q, &error), sig + ":erase", error);
          o.tx->eabs.emplace_back(p, q);
        }
        c.count("erasures");
      }
    }
    note(vh::fmt("begin(%zu tok,%zu+%zu ann,%zu era)", n, o.tx->rel.size(), o.tx->abs.size(), o.tx->eabs.size()));
    open.push_back(o);
  }
  bool trivial(const Open &o) {
    return o.tx->n() == 0 && o.tx->rel.empty() && o.tx->abs.empty() && o.tx->span.empty() && o.tx->erel.empty() && o.tx->eabs.empty();
  }
  void ready(Open &o) {
    std::string error;
    c.expect(o.w->ready(&error), sig + ":ready", error);
    c.expect(o.w->ready(&error), sig + ":ready", "second ready() on a readied transaction failed");
    o.readied = true;
    o.tx->base = next_addr;
    next_addr += o.tx->n();
    note("ready");
  }
  void commit(size_t i) {
    Open o = open[i];
    open.erase(open.begin() + i);
    o.w->commit();
    committed.push_back(o.tx);
    commits++;
    c.count("commits");
    note("commit@" + std::to_string(o.tx->base));
  }
  void abort(size_t i) {
    Open o = open[i];
    open.erase(open.begin() + i);
    o.w->abort();
    aborts++;
    c.count(o.readied ? "aborts_after_ready" : "aborts_before_ready");
    note(o.readied ? "abort-readied" : "abort");
  }
  void step_open(size_t i) {
    if (c.rng.chance(wt.abort * 0.5)) {
      abort(i);
      return;
    }
    if (!open[i].readied) {
      ready(open[i]);
      if (c.rng.chance(0.5))
        return;
    }
    if (c.rng.chance(wt.abort * 0.6))
      abort(i);
    else
      commit(i);
  }
  void finish_open() {
    while (!open.empty()) {
      size_t i = c.rng.below(open.size());
      if (!open[i].readied && c.rng.chance(1 - wt.abort))
        ready(open[i]);
      if (!open[i].readied || c.rng.chance(wt.abort * 0.5))
        abort(i);
      else
        commit(i);
    }
  }
  void check_now(int flags, const char *tag) {
    std::string error;
    auto w = base->clone(&error);
    c.expect(w != nullptr, sig + ":clone", error);
    w->start();
    world::check(c, w.get(), view(), g, transaction_tag, flags, sig + ":" + tag, what());
    w->end();
    c.count("views_checked");
  }
  void snap() {
    Snap s;
    auto w = base->clone();
    w->start();
    if (c.rng.chance(0.3)) {
      auto w2 = w->clone(); // a clone of a started warren shares its snapshot
      w->end();
      w = w2;
    }
    s.w = w;
    s.v = view();
    snaps.push_back(s);
    note("snap");
  }
  void check_snaps(bool drop) {
    for (auto &s : snaps) {
      if (c.rng.chance(0.3)) { // a copy made later still shows the same moment
        auto w = s.w->clone();
        c.expect(w != nullptr && w->started(), sig + ":clone", "clone of an open snapshot");
        if (c.rng.chance(0.5))
          std::swap(w, s.w);
        world::check(c, w.get(), s.v, g, transaction_tag, LIGHT, sig + ":snapshot-copy", what());
        w->end();
        c.count("snapshots_copied");
      }
      world::check(c, s.w.get(), s.v, g, transaction_tag, LIGHT, sig + ":snapshot", what());
      c.count("snapshots_rechecked");
      c.maxof("commits_behind", committed.size() - s.v.txs.size() - s.v.empties.size());
    }
    if (drop || snaps.size() > 4) {
      for (auto &s : snaps)
        s.w->end();
      snaps.clear();
    }
  }
  std::vector<std::string> shards() {
    std::vector<std::string> s;
    for (auto &f : vh::list_dir(dir))
      if (f.compare(0, 6, "fiver.") == 0 || f.compare(0, 6, "hazel.") == 0)
        s.push_back(f);
    return s;
  }
  void close() {
    finish_open();
    check_snaps(true);
    base->merge(false);
    quiesce(c, base_threads);
    base = nullptr;
    working = nullptr;
  }
  void reopen(bool hazelize) {
    bool was = c.rng.chance(0.6);
    close();
    std::string error;
    auto files = vh::list_dir(dir);
    for (auto &f : files) {
      bool ok = f == "dna" || f.compare(0, 6, "fiver.") == 0 || f.compare(0, 6, "hazel.") == 0;
      c.expect(ok, sig + ":litter", "unexpected file left in the closed store: " + f + " " + what());
    }
    if (hazelize) {
      for (auto &f : files) {
        if (f.compare(0, 6, "fiver.") || !c.rng.chance(0.6))
          continue;
        auto wk = Working::make(dir, &error);
        auto pcz = pick(0), fcz = pick(1), tcz = pick(2);
        auto fiver = Fiver::unpickle(dir + "/" + f, wk, featurizer, tokenizer, &error, opc(), ofc(), otc());
        c.expect(fiver != nullptr, sig + ":unpickle", error);
        fiver->start();
        static const addr chunk[] = {1, 16, 100, 1000, 65536};
        auto hz = fiver->hazel(&error, mixed_chunks ? chunk[c.rng.below(5)] : 65536);
        c.expect(hz != nullptr, sig + ":hazel", f + " " + error);
        hz = nullptr;
        fiver->end();
        if (c.rng.chance(0.8)) // sometimes the source is still there: as after a crash
          fiver->discard();
        c.count("hazels_written");
      }
      note("hazelize");
    }
    auto before = shards();
    base = Bigwig::make(dir, &error);
    c.expect(base != nullptr, sig + ":reopen", error + " " + what());
    tokenizer = base->tokenizer();
    featurizer = base->featurizer();
    working = base->working();
    for (auto &p : params) {
      std::string v;
      c.expect(base->get_parameter(p.first, &v, &error) && v == p.second, sig + ":param",
               "parameter " + p.first + " came back as '" + v + "' not '" + p.second + "'");
    }
    note(vh::fmt("reopen(%zu shards)", before.size()));
    c.count("reopens");
    // addresses continue after the last committed token
    addr lo, hi;
    next_addr = view().range(&lo, &hi) ? hi + 1 : 0;
    check_now(0, "reopened");
    base->merge(was);
  }
  // compressors named in the options
  std::string optval(const std::string &k) {
    size_t i = options.find(k);
    if (i == std::string::npos)
      return "null";
    i += k.size();
    return options.substr(i, options.find(' ', i) - i);
  }
  std::shared_ptr<Compressor> opc() { return Compressor::make(optval("posting_compressor:"), ""); }
  std::shared_ptr<Compressor> ofc() { return Compressor::make(optval("fvalue_compressor:"), ""); }
  std::shared_ptr<Compressor> otc() { return Compressor::make(optval("txt:compressor:"), ""); }
  std::shared_ptr<Compressor> pick(int) { return nullptr; }

  void run() {
    for (int s = 0; s < wt.steps; s++) {
      int total = wt.tx + wt.inter + wt.check + wt.snap + wt.merge + wt.wait + wt.reopen + wt.hazel + wt.param;
      int x = (int)c.rng.below(total);
      auto take = [&](int k) {
        x -= k;
        return x < 0;
      };
      if (take(wt.tx)) {
        begin();
        size_t i = open.size() - 1;
        while (i < open.size() && open.size() == i + 1 && c.rng.chance(0.9))
          step_open(i);
      } else if (take(wt.inter)) {
        if (open.size() < 3)
          begin();
        if (!open.empty())
          step_open(c.rng.below(open.size()));
      } else if (take(wt.check)) {
        check_now(0, "now");
      } else if (take(wt.snap)) {
        if (c.rng.chance(0.6))
          snap();
        else
          check_snaps(c.rng.chance(0.3));
      } else if (take(wt.merge)) {
        base->merge(c.rng.chance(0.7));
        note("merge toggle");
      } else if (take(wt.wait)) {
        base->merge(true);
        quiesce(c, base_threads);
        note("merged");
        c.count("merge_rounds");
        check_now(0, "merged");
      } else if (take(wt.reopen)) {
        if (disk)
          reopen(false);
      } else if (take(wt.hazel)) {
        if (disk)
          reopen(true);
      } else {
        std::string k = vh::fmt("key%d", (int)c.rng.below(3)), v = vh::fmt("value%d", (int)c.rng.below(99)), error;
        c.expect(base->set_parameter(k, v, &error), sig + ":param", error);
        params[k] = v;
        std::string got;
        auto w = base->clone();
        c.expect(w->get_parameter(k, &got) && got == v, sig + ":param", "clone does not see the parameter");
      }
    }
    finish_open();
    check_now(0, "final");
    check_snaps(true);
    base->merge(true);
    quiesce(c, base_threads);
    check_now(0, "finalmerged");
    if (disk && (wt.reopen || wt.hazel)) {
      reopen(false);
      base->merge(true);
      quiesce(c, base_threads);
      check_now(0, "lastmerged");
    }
    if (committed.size() >= 2)
      c.nontrivial(view().hash());
    if (committed.size() > 2)
      c.sample(view().str() + " :: " + log.substr(0, 300));
    c.maxof("transactions_in_history", committed.size());
  }
};
} // namespace

// D01: interleaved transactions, aborts at every stage
VH_MODE(atomic_mem, false) {
  Weights w;
  w.inter = 14;
  w.abort = 0.45;
  w.tx = 4;
  Hist h(c, "atomic", false, w);
  h.run();
}
VH_MODE(atomic_disk, true) {
  Weights w;
  w.inter = 12;
  w.abort = 0.45;
  w.tx = 4;
  w.reopen = 3;
  w.steps = 10;
  Hist h(c, "atomic", true, w);
  h.run();
}
// D02: snapshots kept across commits, aborts and merges
VH_MODE(snap_mem, false) {
  Weights w;
  w.snap = 14;
  w.check = 2;
  w.wait = 4;
  w.steps = 18;
  if (c.rng.chance(0.4))
    w.erase = 0.4;
  Hist h(c, "snap", false, w);
  h.run();
}
VH_MODE(snap_disk, true) {
  Weights w;
  w.snap = 14;
  w.check = 2;
  w.wait = 4;
  w.hazel = 2;
  w.steps = 14;
  if (c.rng.chance(0.4))
    w.erase = 0.4;
  Hist h(c, "snap", true, w);
  h.run();
}
// D04: erasures
VH_MODE(erase_mem, false) {
  Weights w;
  w.erase = 0.6;
  w.steps = 16;
  w.abort = 0.1;
  Hist h(c, "erase", false, w);
  h.run();
}
VH_MODE(erase_disk, true) {
  Weights w;
  w.erase = 0.6;
  w.abort = 0.1;
  w.hazel = 4;
  Hist h(c, "erase", true, w);
  h.run();
}
// D05: merging
VH_MODE(merge_mem, false) {
  Weights w;
  w.big = true;
  w.merge = 6;
  w.wait = 6;
  w.tx = 16;
  w.steps = 24;
  if (c.rng.chance(0.3))
    w.erase = 0.3;
  Hist h(c, "merge", false, w);
  h.run();
}
VH_MODE(merge_disk, true) {
  Weights w;
  w.big = true;
  w.merge = 4;
  w.wait = 4;
  w.tx = 14;
  w.steps = 16;
  w.hazel = 4;
  if (c.rng.chance(0.3))
    w.erase = 0.3;
  Hist h(c, "merge", true, w);
  h.run();
}
// D06 (without crashes): everything committed is there after reopening
VH_MODE(reopen, true) {
  Weights w;
  w.reopen = 6;
  w.hazel = 2;
  w.steps = 14;
  w.big = c.rng.chance(0.1);
  Hist h(c, "reopen", true, w);
  h.run();
}
