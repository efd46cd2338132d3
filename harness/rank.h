// What statistics and rankings should be, by counting and scoring everything.
#ifndef VH_RANK_H_
#define VH_RANK_H_
#include "vh.h"
#include "src/core.h"
#include "src/ranking.h"
#include "src/stats.h"
#include <algorithm>
#include <cmath>
#include <set>
namespace {
using namespace cottontail;
const char *VOCAB[] = {"a",      "the",   "cat",    "cats",  "running", "run",   "runs",  "apple", "apples", "banana",
                       "carrot", "relational", "relate", "w1", "w2",      "w3",    "w4",    "w5",    "w6",     "w7",
                       "w8",     "w9",    "w10",    "w11",   "w12",     "w13",   "w14",   "w15",   "rare1",  "rare2"};

struct Item {
  addr p, q, cp, cq;
  std::map<std::string, double> tf;
};

struct Want {
  std::vector<Item> items;
  double avgl = 0;
  std::map<std::string, double> df;
  bool rsj = true, idf = true, unstemmed = true;
  double rsj_of(const std::string &t) const {
    auto i = df.find(t);
    if (i == df.end() || i->second == 0)
      return 0;
    return std::max(0.0, std::log(((double)items.size() - i->second + 0.5) / (i->second + 0.5)));
  }
  double idf_of(const std::string &t) const {
    auto i = df.find(t);
    if (i == df.end() || i->second == 0)
      return 0;
    return std::log((double)items.size() / i->second);
  }
};

bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

std::string lower(std::string s) {
  for (auto &x : s)
    x = (char)tolower(x);
  return s;
}

void check_stats(vh::Ctx &c, const std::string &what, const Want &want, std::shared_ptr<Stats> s, std::set<std::string> words = {}) {
  if (!near(s->avgl(), want.avgl))
    c.fail("stats-avgl", what + vh::fmt(": average length %.12g, expected %.12g", s->avgl(), want.avgl));
  if (s->name() == "idf" && (s->have("unstemmed") != want.unstemmed || s->have("idf") != want.idf || s->have("rsj") != want.rsj))
    c.fail("stats-have", what + ": what statistics there are isn't known");
  for (auto &d : want.df)
    words.insert(d.first);
  words.insert("absent");
  for (auto v : VOCAB)
    words.insert(v);
  for (auto &t : words) {
    double rsj = want.rsj ? want.rsj_of(t) : 0, idf = want.idf ? want.idf_of(t) : 0;
    if (!near(s->rsj(t), rsj) || !near(s->idf(t), idf))
      c.fail("stats-weight", what + vh::fmt(": '%s' has rsj %.12g idf %.12g, expected %.12g %.12g (in %g of %zu)", t.c_str(), s->rsj(t), s->idf(t), rsj, idf, want.df.count(t) ? want.df.at(t) : 0.0, want.items.size()));
    auto h = s->tf_hopper(t);
    addr p, q, at = minfinity + 1;
    fval v;
    for (size_t i = 0; i <= want.items.size(); i++) {
      if (i < want.items.size() && !want.items[i].tf.count(t))
        continue;
      h->tau(at, &p, &q, &v);
      if (i == want.items.size()) {
        // fields without weight may still be listed, with no frequency
        while (p < maxfinity && v == 0) {
          at = p + 1;
          h->tau(at, &p, &q, &v);
        }
        if (p != maxfinity)
          c.fail("stats-tf", what + vh::fmt(": '%s' is also counted at [%ld,%ld]", t.c_str(), (long)p, (long)q));
        break;
      }
      auto &it = want.items[i];
      while (p < it.p && v == 0) {
        at = p + 1;
        h->tau(at, &p, &q, &v);
      }
      if (p != it.p || q != it.q || v != it.tf.at(t))
        c.fail("stats-tf", what + vh::fmt(": '%s' is counted %g times at [%ld,%ld], expected %g at [%ld,%ld]", t.c_str(), v, (long)p, (long)q, it.tf.at(t), (long)it.p, (long)it.q));
      at = p + 1;
      c.count("frequencies_checked");
    }
  }
  c.count("statistics_checked", words.size());
}

// Is this what scoring every item would have given?
void check_top(vh::Ctx &c, const std::string &what, const std::map<addr, std::pair<addr, double>> &all, const std::vector<RankingResult> &got, size_t depth, const std::string &sig) {
  std::vector<double> best;
  for (auto &a : all)
    best.push_back(a.second.second);
  std::sort(best.rbegin(), best.rend());
  if (best.size() > depth)
    best.resize(depth);
  if (got.size() != best.size())
    c.fail(sig + "-size", what + vh::fmt(": %zu results, expected %zu", got.size(), best.size()));
  std::set<addr> seen;
  for (size_t i = 0; i < got.size(); i++) {
    auto a = all.find(got[i].p());
    if (a == all.end() || a->second.first != got[i].q())
      c.fail(sig + "-item", what + vh::fmt(": result %zu [%ld,%ld] isn't an item with a score", i, (long)got[i].p(), (long)got[i].q()));
    if (!seen.insert(got[i].p()).second)
      c.fail(sig + "-twice", what + vh::fmt(": result %zu [%ld,%ld] appears twice", i, (long)got[i].p(), (long)got[i].q()));
    if (!near(got[i].score(), a->second.second))
      c.fail(sig + "-score", what + vh::fmt(": result %zu has score %.12g, expected %.12g", i, got[i].score(), a->second.second));
    if (!near(got[i].score(), best[i]))
      c.fail(sig + "-order", what + vh::fmt(": result %zu has score %.12g, there should be one with %.12g", i, got[i].score(), best[i]));
    c.count("results_checked");
  }
  c.count("items_scored", all.size());
}

std::map<addr, std::pair<addr, double>> bm25_all(const Want &want, const std::map<std::string, double> &query, double b, double k1) {
  std::map<addr, std::pair<addr, double>> all;
  for (auto &i : want.items) {
    double s = 0, l = (double)(i.q - i.p + 1);
    for (auto &t : query) {
      auto f = i.tf.find(t.first);
      double w = want.rsj ? t.second * want.rsj_of(t.first) : 0;
      if (f != i.tf.end() && w > 0)
        s += f->second * w / (k1 * ((1.0 - b) + b * (l / want.avgl)) + f->second);
    }
    if (s > 0)
      all[i.p] = {i.q, s};
  }
  return all;
}

std::string show_query(const std::map<std::string, double> &q) {
  std::string s;
  for (auto &t : q)
    s += vh::fmt(" %s=%.3g", t.first.c_str(), t.second);
  return s;
}
} // namespace
#endif
