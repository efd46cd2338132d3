// Collections to rank, built in each kind of store
#ifndef VP_COLL_H
#define VP_COLL_H
#include "rank.h"
#include "src/appender.h"
#include "src/bigwig.h"
#include "src/builder.h"
#include "src/cottontail.h"
#include "src/eval.h"
#include "src/ranker.h"
#include "src/ranking.h"
#include "src/scribe.h"
#include "src/simple_builder.h"
#include "src/stats.h"
#include "src/working.h"
#include <algorithm>
#include <cmath>
#include <set>
#include <unistd.h>
namespace cottontail { extern std::vector<std::string> cast2019_stopwords; }
using namespace cottontail;


namespace {

struct Doc {
  addr p, q;            // container
  addr cp, cq;          // content within it
  std::vector<std::string> words; // of the container
  addr f0p, f0q, f1p, f1q; // fields, within the container (f0q < f0p: none)
  std::string id;
};

struct Coll {
  vh::Ctx &c;
  int kind = 0; // 0 static, 1 durable, 2 in memory
  std::shared_ptr<Warren> w;
  std::vector<Doc> docs;
  addr end = 0;
  std::string error, what;
  bool gaps = false;
  std::string prefix = "D"; // of the names of documents
  size_t longest = 120;
  bool broken = false; // separators that aren't text in any encoding
  Coll(vh::Ctx &c) : c(c) {}

  std::string word() {
    size_t n = sizeof(VOCAB) / sizeof(*VOCAB);
    return VOCAB[std::min<size_t>(n - 1, (size_t)(std::pow(c.rng.unit(), 2.2) * (double)n))];
  }

  void build(size_t n, int k, size_t filler, const std::string &stemmer) {
    kind = k;
    std::shared_ptr<Scribe> scribe;
    std::shared_ptr<Builder> builder;
    std::string where = c.dir + "/r";
    if (kind == 0) {
      auto working = Working::mkdir(where, &error);
      builder = SimpleBuilder::make(working, "tokenizer:name:ascii tokenizer:noxml", &error);
      if (builder == nullptr)
        builder = SimpleBuilder::make(working, "", &error);
      c.expect(builder != nullptr, "rank-build", error);
      scribe = Scribe::make(builder, &error);
    } else {
      auto b = kind == 1 ? Bigwig::make(where, "tokenizer:name:ascii tokenizer:noxml", &error)
                         : Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make("ascii", "noxml"), &error);
      c.expect(b != nullptr, "rank-build", error);
      b->merge(c.rng.chance(0.7));
      w = b;
      scribe = Scribe::make(w, &error);
    }
    c.expect(scribe != nullptr, "rank-build", error);
    auto f = scribe->featurizer();
    size_t made = 0, tx = 0;
    addr p, q;
    while (made < n || made == 0) {
      c.expect(scribe->transaction(&error), "rank-build", error);
      std::vector<Doc> fresh;
      addr first = -1;
      size_t m = 1 + c.rng.below(std::max<size_t>(1, std::min<size_t>(n - made, 8)));
      if (filler) {
        std::string text;
        for (size_t i = 0; i < filler; i++)
          text += "z ";
        c.expect(scribe->appender()->append(text, &p, &q, &error), "rank-build", error);
        first = p;
      }
      for (size_t i = 0; i < m; i++) {
        Doc d;
        d.id = vh::fmt("%s%zu", prefix.c_str(), made + i);
        d.words.push_back(d.id);
        size_t len = c.rng.below(c.rng.chance(0.1) ? longest : 25);
        size_t b0 = c.rng.below(len + 1);
        std::string text = d.id + " ";
        for (size_t j = 0; j < len; j++) {
          d.words.push_back(word());
          text += d.words.back() + (broken && c.rng.chance(0.1) ? " \xff\xc3 " : c.rng.chance(0.1) ? "\n" : " ");
        }
        c.expect(scribe->appender()->append(text, &p, &q, &error), "rank-build", error);
        c.expect(q - p + 1 == (addr)d.words.size(), "rank-build", "words");
        d.p = p;
        d.q = q;
        d.cp = len ? p + 1 : p;
        d.cq = q;
        d.f0p = p;
        d.f0q = p + (addr)b0 - (c.rng.chance(0.2) ? 1 : 0);
        d.f1p = p + (addr)b0 + 1;
        d.f1q = c.rng.chance(0.1) ? d.f1p - 1 : q;
        if (first < 0)
          first = p;
        c.expect(scribe->annotator()->annotate(f->featurize("doc:"), d.p, d.q, &error) &&
                     scribe->annotator()->annotate(f->featurize("id:"), d.p, d.p, &error) &&
                     scribe->annotator()->annotate(f->featurize("content:"), d.cp, d.cq, &error),
                 "rank-build", error);
        if (d.f0q >= d.f0p)
          c.expect(scribe->annotator()->annotate(f->featurize("f0:"), d.f0p, d.f0q, &error), "rank-build", error);
        if (d.f1q >= d.f1p)
          c.expect(scribe->annotator()->annotate(f->featurize("f1:"), d.f1p, d.f1q, &error), "rank-build", error);
        fresh.push_back(d);
        if (c.rng.chance(0.3)) { // outside of any document
          std::string junk;
          for (size_t j = 1 + c.rng.below(5); j; --j)
            junk += word() + " ";
          c.expect(scribe->appender()->append(junk, &p, &q, &error), "rank-build", error);
        }
      }
      if (kind != 0 && c.rng.chance(0.15)) {
        bool readied = c.rng.chance(0.7);
        if (readied) {
          c.expect(scribe->ready(&error), "rank-build", error);
          end += q - first + 1; // its addresses stay unused
          gaps = true;
        }
        scribe->abort();
        continue;
      }
      c.expect(scribe->ready(&error), "rank-build", error);
      scribe->commit();
      for (auto &d : fresh) {
        addr s = kind == 0 ? 0 : end - first;
        for (addr *x : {&d.p, &d.q, &d.cp, &d.cq, &d.f0p, &d.f0q, &d.f1p, &d.f1q})
          *x += s;
        docs.push_back(d);
      }
      if (kind == 0)
        end = q + 1;
      else
        end += q - first + 1;
      made += m;
      tx++;
    }
    if (kind == 0) {
      c.expect(scribe->finalize(&error), "rank-build", error);
      scribe = nullptr;
      builder = nullptr;
      w = Warren::make(where, &error);
      c.expect(w != nullptr, "rank-build", error);
    }
    scribe = nullptr;
    w->start();
    c.expect(w->set_default_container("doc:", &error) && w->set_parameter("id", "id:", &error), "rank-build", error);
    if (stemmer != "")
      c.expect(w->set_stemmer(Stemmer::make(stemmer, "", &error), &error), "rank-build", error);
    w->end();
    what = vh::fmt("%s, %zu documents%s%s", kind == 0 ? "static" : kind == 1 ? "durable" : "in memory", docs.size(), gaps ? ", gaps" : "", stemmer == "" ? "" : (", " + stemmer).c_str());
  }
  void quiet() {
    if (kind != 0) {
      std::dynamic_pointer_cast<Bigwig>(w)->merge(false);
      for (int i = 0; i < 20000 && vh::thread_count() > vh::base_threads(); i++)
        usleep(i < 200 ? 50 : 1000);
    }
  }
  ~Coll() {
    if (w != nullptr && w->started())
      w->end();
    if (w != nullptr)
      quiet();
  }
};

} // namespace
#endif
