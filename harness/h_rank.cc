// Ranking against exhaustive scoring (R01), statistics against counting (R02),
// evaluation measures against their definitions (R03).
#include "coll.h"

namespace {

// annotate the collection for ranking; say what the statistics should be
Want annotate(vh::Ctx &c, Coll &k, int which) {
  Want want;
  auto stemmer = [&] {
    k.w->start();
    auto s = k.w->stemmer();
    k.w->end();
    return s;
  }();
  double length = 0;
  for (auto &d : k.docs) {
    Item i;
    i.p = d.p, i.q = d.q, i.cp = d.p, i.cq = d.q;
    want.items.push_back(i);
  }
  std::string error, kind;
  k.w->start();
  bool ok = false;
  if (which == 0) {
    bool un = c.rng.chance(0.5), idf = c.rng.chance(0.8), rsj = c.rng.chance(0.8) || !idf;
    kind = vh::fmt("tf-idf%s%s%s", un ? " unstemmed" : "", idf ? " idf" : "", rsj ? " rsj" : "");
    ok = tf_idf_annotations(k.w, &error, un, idf, rsj);
    want.unstemmed = un, want.idf = idf, want.rsj = rsj;
    for (size_t i = 0; i < k.docs.size(); i++) {
      length += (double)(k.docs[i].q - k.docs[i].p + 1);
      for (auto &x : k.docs[i].words) {
        std::string t = lower(x);
        bool stemmed = false;
        std::string s = stemmer->stem(t, &stemmed);
        if (un) {
          want.items[i].tf[t]++;
          if (stemmed)
            want.items[i].tf[s]++;
        } else {
          want.items[i].tf[s]++;
        }
      }
    }
  } else if (which == 1 || which == 2) {
    bool content = c.rng.chance(0.4);
    kind = which == 1 ? "tf-df" : "tf";
    if (content) {
      kind += " content";
      c.expect(k.w->set_parameter("content", "content:", &error), "rank-annotate", error);
    }
    if (which == 1) {
      ok = tf_df_annotations(k.w, &error);
    } else if (k.kind == 0 || c.rng.chance(0.5)) {
      ok = tf_annotations(k.w, &error);
    } else { // piece by piece
      size_t i = 0;
      ok = true;
      while (ok && i < k.docs.size()) {
        size_t j = std::min(k.docs.size(), i + 1 + c.rng.below(5));
        ok = tf_annotations(k.w, &error, k.docs[i].p, k.docs[j - 1].q);
        i = j;
        if (i < k.docs.size()) {
          k.w->end();
          k.w->start();
        }
      }
      kind += " in parts";
    }
    for (size_t i = 0; i < k.docs.size(); i++) {
      if (content) {
        want.items[i].p = k.docs[i].cp;
        want.items[i].q = k.docs[i].cq;
      }
      length += (double)(want.items[i].q - want.items[i].p + 1);
      for (addr x = want.items[i].p; x <= want.items[i].q; x++)
        want.items[i].tf[stemmer->stem(lower(k.docs[i].words[(size_t)(x - k.docs[i].p)]))]++;
    }
  } else {
    double w0 = c.rng.below(4), w1 = (double)c.rng.below(3) + (w0 == 0), v[2] = {w0, w1};
    kind = vh::fmt("fields %g %g", w0, w1);
    c.expect(k.w->set_parameter("fields", "f0:\tf1:", &error), "rank-annotate", error);
    if (c.rng.chance(0.25)) {
      kind = "fields unweighted";
      v[0] = v[1] = 1;
    } else {
      c.expect(k.w->set_parameter("weights", vh::fmt("%g\t%g", w0, w1), &error), "rank-annotate", error);
    }
    ok = tf_field_annotations(k.w, &error);
    for (size_t i = 0; i < k.docs.size(); i++) {
      Doc &d = k.docs[i];
      addr r[2][2] = {{d.f0p, d.f0q}, {d.f1p, d.f1q}};
      for (int z = 0; z < 2; z++)
        for (addr x = r[z][0]; x <= r[z][1]; x++) {
          length++;
          std::string t = stemmer->stem(lower(d.words[(size_t)(x - d.p)]));
          if (want.items[i].tf.find(t) == want.items[i].tf.end())
            want.df[t]++;
          want.items[i].tf[t] += v[z];
        }
      for (auto j = want.items[i].tf.begin(); j != want.items[i].tf.end();)
        j = j->second == 0 ? want.items[i].tf.erase(j) : std::next(j);
    }
  }
  k.what += ", " + kind;
  if (!ok)
    c.fail("rank-annotate", k.what + ": " + error);
  k.w->end();
  if (k.kind == 0) { // an open static store doesn't show what was added since
    k.w = nullptr;
    k.w = Warren::make(c.dir + "/r", &k.error);
    c.expect(k.w != nullptr, "rank-reopen", k.error);
  }
  want.avgl = length / (double)want.items.size();
  if (which != 3)
    for (auto &i : want.items)
      for (auto &t : i.tf)
        want.df[t.first]++;
  return want;
}


// statistics alone, over collections of all kinds
VH_MODE(stats, true) {
  Coll k(c);
  k.build(1 + c.rng.below(c.rng.chance(0.2) ? 200 : 50), (int)c.rng.below(3), 0, c.rng.chance(0.5) ? "porter" : "");
  Want want = annotate(c, k, (int)c.rng.below(4));
  if (k.kind == 1 && c.rng.chance(0.5)) { // reopened
    k.quiet();
    k.w = nullptr;
    k.w = Warren::make(c.dir + "/r", &k.error);
    c.expect(k.w != nullptr, "rank-reopen", k.error);
    k.what += ", reopened";
  }
  k.w->start();
  std::shared_ptr<Warren> other = c.rng.chance(0.5) ? k.w->clone(&k.error) : k.w;
  c.expect(other != nullptr, "rank-clone", k.error);
  std::shared_ptr<Stats> stats = Stats::make(other, &k.error);
  c.expect(stats != nullptr, "rank-stats", k.what + ": " + k.error);
  check_stats(c, k.what, want, stats);
  stats = nullptr;
  if (other != k.w)
    other->end();
  if (k.docs.size() > 2)
    c.nontrivial((uint64_t)k.docs.size() * 1000003u ^ c.id);
  c.sample(k.what);
}

VH_MODE(bm25, true) {
  Coll k(c);
  k.build(1 + c.rng.below(c.rng.chance(0.2) ? 120 : 40), (int)c.rng.below(3), 0, c.rng.chance(0.5) ? "porter" : "");
  int which = (int)c.rng.below(4);
  Want want = annotate(c, k, which);
  if (k.kind == 1 && c.rng.chance(0.3)) { // reopened
    k.quiet();
    k.w = nullptr;
    k.w = Warren::make(c.dir + "/r", &k.error);
    c.expect(k.w != nullptr, "rank-reopen", k.error);
    k.what += ", reopened";
  }
  std::shared_ptr<Warren> w = k.w;
  w->start();
  std::shared_ptr<Stats> stats = Stats::make(w, &k.error);
  c.expect(stats != nullptr, "rank-stats", k.what + ": " + k.error);
  check_stats(c, k.what, want, stats);
  auto stemmer = w->stemmer();
  uint64_t h = 1;
  for (int i = 0; i < 12; i++) {
    std::string text;
    size_t n = 1 + c.rng.below(i % 3 == 0 ? 9 : 4);
    std::map<std::string, double> query, stemmed, weighted;
    for (size_t j = 0; j < n; j++) {
      std::string t = c.rng.chance(0.05) ? "absent" : c.rng.chance(0.1) ? c.rng.pick(k.docs).id : k.word();
      text += (j ? " " : "") + t;
      query[lower(t)]++;
      stemmed[stemmer->stem(lower(t))]++;
      weighted[lower(t)] = c.rng.unit() * 3 + 0.01;
    }
    double b = c.rng.chance(0.3) ? 0.25 : (double)(float)c.rng.unit(), k1 = c.rng.chance(0.3) ? 0.5 : (double)(float)(c.rng.unit() * 3 + 0.01);
    size_t depth = c.rng.chance(0.3) ? 1000 : 1 + c.rng.below(10);
    std::map<std::string, fval> par = {{"bm25:b", b}, {"k1", k1}, {"depth", (fval)depth}};
    std::string what = k.what + vh::fmt(", depth %zu b %.9g k1 %.9g:", depth, b, k1);
    check_top(c, what + show_query(query), bm25_all(want, query, b, k1), c.rng.chance(0.5) ? bm25_ranking(stats, text, par) : bm25_ranking(w, text, par), depth, "bm25");
    check_top(c, what + show_query(weighted), bm25_all(want, weighted, b, k1), bm25_ranking(stats, weighted, par), depth, "bm25-weighted");
    // as a pipeline
    std::string pipe = vh::fmt("b=%.9g k1=%.9g depth=%zu stem bm25", b, k1, depth);
    std::map<std::string, double> piped = stemmed;
    if (c.rng.chance(0.5)) {
      pipe = vh::fmt("bm25:b=%.9g k1=%.9g bm25:depth=%zu stop bm25", b, k1, depth);
      piped = query;
      for (auto &s : cast2019_stopwords)
        piped.erase(s);
      if (piped.empty())
        piped = query;
    }
    auto ranker = Ranker::from_pipeline(pipe, c.rng.chance(0.5) ? stats : Stats::make(w), &k.error);
    c.expect(ranker != nullptr, "rank-pipeline", pipe + ": " + k.error);
    auto got = (*ranker)(text);
    check_top(c, what + " '" + pipe + "'" + show_query(piped), bm25_all(want, piped, b, k1), got, depth, "pipeline");
    for (auto &r : got) {
      Item *it = nullptr;
      for (auto &x : want.items)
        if (x.p == r.p())
          it = &x;
      addr cp = stats->have("content") ? it->cp : it->p, cq = stats->have("content") ? it->cq : it->q;
      if (r.container_p() != cp || r.container_q() != cq)
        c.fail("rank-container", what + vh::fmt(" container [%ld,%ld], expected [%ld,%ld]", (long)r.container_p(), (long)r.container_q(), (long)cp, (long)cq));
    }
    if (which != 3) { // dot product of frequencies
      std::map<addr, std::pair<addr, double>> all;
      for (auto &x : want.items) {
        double s = 0;
        for (auto &t : weighted)
          if (x.tf.count(t.first))
            s += t.second * x.tf.at(t.first);
        addr q = which == 0 ? x.q : x.p;
        addr p = x.p;
        if (s > 0)
          all[p] = {q, s};
      }
      bool defaulted = c.rng.chance(0.3);
      std::map<std::string, fval> pp;
      if (!defaulted)
        pp["depth"] = (fval)depth;
      check_top(c, what + " product" + show_query(weighted), all, product_ranking(w, weighted, pp, "tf", which != 0), defaulted ? 1000 : depth, "product");
    }
    if (which == 0) {
      double mu = c.rng.unit() * 100 + 1;
      std::map<addr, std::pair<addr, double>> all;
      bool ok = true;
      double tokens = (double)w->txt()->tokens();
      for (auto &x : want.items) {
        double s = 0;
        for (auto &t : weighted)
          if (x.tf.count(t.first)) {
            double n = (double)w->idx()->count(w->featurizer()->featurize(t.first));
            ok = ok && n > 0;
            s += t.second * (std::log(mu + x.tf.at(t.first) * (tokens / n)) - std::log(mu + (double)(x.q - x.p + 1)));
          }
        if (s > 0)
          all[x.p] = {x.q, s};
      }
      if (ok)
        check_top(c, what + " lmd" + show_query(weighted), all, lmd_ranking(w, weighted, {{"lmd:mu", mu}, {"lmd:depth", (fval)depth}}), depth, "lmd");
    }
    // feedback is the same however often it is asked for, and only ever adds to the query
    auto prf = Ranker::from_pipeline(vh::fmt("%sbm25 %s bm25", c.rng.chance(0.5) ? "stem " : "", c.rng.chance(0.5) ? "kld" : "rsj"), stats, &k.error);
    c.expect(prf != nullptr, "rank-pipeline", k.error);
    auto r1 = (*prf)(text), r2 = (*prf)(text);
    bool same = r1.size() == r2.size();
    for (size_t j = 0; same && j < r1.size(); j++)
      same = r1[j].p() == r2[j].p() && r1[j].score() == r2[j].score();
    c.expect(same, "rank-feedback", what + " two runs of the same feedback differ: " + text);
    h = vh::hash_str(text, h);
    c.count("queries");
  }
  w->end();
  if (k.docs.size() > 2)
    c.nontrivial(h ^ c.id);
  c.sample(k.what);
}

std::string gen_gcl(Coll &k, int depth) {
  vh::Rng &r = k.c.rng;
  if (depth == 0 || r.chance(0.25))
    return r.chance(0.2) ? "\"" + k.word() + " " + k.word() + "\"" : k.word();
  std::string op = r.pick(std::vector<std::string>{"^", "^", "+", "+", "..."});
  size_t n = op == "..." ? 2 : 2 + r.below(3);
  std::string s = "(" + op;
  for (size_t i = 0; i < n; i++)
    s += " " + gen_gcl(k, depth - 1);
  return s + ")";
}

typedef std::map<addr, std::pair<double, std::pair<addr, addr>>> Passages; // by container

Passages ssr_all(Coll &k, const std::string &gcl, double K, addr from = minfinity, addr to = maxfinity) {
  Passages all;
  auto h = k.w->hopper_from_gcl(gcl, &k.error);
  k.c.expect(h != nullptr, "rank-gcl", gcl + ": " + k.error);
  addr p, q;
  size_t d = 0;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q)) {
    while (d < k.docs.size() && k.docs[d].q < q)
      d++;
    if (d == k.docs.size())
      break;
    if (k.docs[d].p > p || k.docs[d].p < from || k.docs[d].p >= to)
      continue;
    auto &a = all[k.docs[d].p];
    if (a.first == 0 || q - p < a.second.second - a.second.first)
      a.second = {p, q};
    a.first += 1.0 / (K + (double)(q - p));
  }
  return all;
}

void check_passages(vh::Ctx &c, Coll &k, const std::string &what, const Passages &all, const std::vector<RankingResult> &got, size_t depth, const std::string &sig) {
  std::map<addr, std::pair<addr, double>> scores;
  for (auto &a : all)
    for (auto &d : k.docs)
      if (d.p == a.first)
        scores[d.p] = {d.q, a.second.first};
  std::vector<RankingResult> containers;
  for (auto &g : got) {
    containers.emplace_back(g.container_p(), g.container_q(), g.score());
    auto a = all.find(g.container_p());
    if (a != all.end() && (g.p() != a->second.second.first || g.q() != a->second.second.second))
      c.fail(sig + "-passage", what + vh::fmt(": passage [%ld,%ld] expected [%ld,%ld]", (long)g.p(), (long)g.q(), (long)a->second.second.first, (long)a->second.second.second));
  }
  check_top(c, what, scores, containers, depth, sig);
}

void check_valid(vh::Ctx &c, Coll &k, const std::string &what, const std::vector<RankingResult> &got, size_t depth, const std::string &sig) {
  c.expect(got.size() <= depth, sig + "-size", what + ": too many results");
  std::set<addr> seen;
  for (size_t i = 0; i < got.size(); i++) {
    bool is = false;
    for (auto &d : k.docs)
      is = is || (d.p == got[i].container_p() && d.q == got[i].container_q());
    c.expect(is, sig + "-item", what + vh::fmt(": result %zu container [%ld,%ld] isn't one", i, (long)got[i].container_p(), (long)got[i].container_q()));
    c.expect(got[i].p() >= got[i].container_p() && got[i].q() <= got[i].container_q() && got[i].p() <= got[i].q(), sig + "-passage", what + ": the passage isn't within its container");
    c.expect(seen.insert(got[i].container_p()).second, sig + "-twice", what + ": a container appears twice");
    c.expect(i == 0 || got[i - 1].score() >= got[i].score(), sig + "-order", what + ": results aren't in order");
  }
}

VH_MODE(ssr, true) {
  Coll k(c);
  k.build(1 + c.rng.below(50), (int)c.rng.below(3), 0, c.rng.chance(0.3) ? "porter" : "");
  k.w->start();
  uint64_t h = 1;
  for (int i = 0; i < 10; i++) {
    std::string gcl = gen_gcl(k, 2);
    size_t depth = c.rng.chance(0.3) ? 1000 : 1 + c.rng.below(10);
    double K = c.rng.chance(0.4) ? 42.0 : 1 + c.rng.unit() * 100;
    std::map<std::string, fval> par;
    if (K != 42.0)
      par[c.rng.chance(0.5) ? "ssr:K" : "K"] = K;
    addr from = c.rng.chance(0.5) ? minfinity : (addr)c.rng.below((uint64_t)k.end + 1);
    addr to = c.rng.chance(0.5) ? maxfinity : (addr)c.rng.below((uint64_t)k.end + 2);
    std::string what = k.what + vh::fmt(", depth %zu K %g range %ld %ld: ", depth, K, (long)from, (long)to) + gcl;
    check_passages(c, k, what, from < to ? ssr_all(k, gcl, K, from, to) : Passages(), ssr_ranking(k.w, gcl, "doc:", par, depth, from, to), depth, "ssr");
    check_passages(c, k, what + " parallel", ssr_all(k, gcl, K), parallel_ssr(k.w, gcl, "doc:", par, depth, c.rng.below(5)), depth, "ssr-parallel");
    // tiers
    std::vector<std::string> tiers;
    std::string query;
    if (c.rng.chance(0.5)) {
      for (size_t j = 1 + c.rng.below(4); j; --j)
        tiers.push_back(gen_gcl(k, 2));
    } else {
      for (size_t j = 1 + c.rng.below(5); j; --j)
        query += k.word() + " ";
      tiers = build_tiers(k.w, query, {});
      c.expect(!tiers.empty(), "tiers-none", query);
    }
    auto got = query == "" ? tiered_ranking(k.w, tiers, "doc:", depth) : tiered_ranking(k.w, query, "doc:", depth);
    what = k.what + vh::fmt(", depth %zu tiers:", depth);
    for (auto &t : tiers)
      what += " " + t;
    std::set<addr> before;
    size_t at = 0;
    for (auto &t : tiers) {
      Passages all = ssr_all(k, t, 42.0);
      for (addr b : before)
        all.erase(b);
      size_t n = std::min(all.size(), depth - at);
      c.expect(at + n <= got.size(), "tiers-size", what + vh::fmt(": %zu results, tier '%s' has %zu more", got.size(), t.c_str(), all.size()));
      std::vector<RankingResult> part;
      for (size_t j = at; j < at + n; j++) {
        auto a = all.find(got[j].container_p());
        c.expect(a != all.end(), "tiers-order", what + vh::fmt(": result %zu isn't of tier '%s'", j, t.c_str()));
        part.emplace_back(got[j].p(), got[j].q(), got[j].container_p(), got[j].container_q(), a->second.first);
        c.expect(j == 0 || got[j - 1].score() >= got[j].score(), "tiers-score", what + ": scores aren't in order");
      }
      check_passages(c, k, what, all, part, depth - at, "tiers");
      for (auto &a : all)
        before.insert(a.first);
      at += n;
    }
    c.expect(at == got.size(), "tiers-size", what + ": results of no tier");
    // passages
    if (query == "")
      query = k.word() + " " + k.word();
    auto cover = icover_ranking(k.w, query, "doc:", depth);
    check_valid(c, k, k.what + " cover: " + query, cover, depth, "cover");
    std::set<std::string> words;
    for (auto &x : k.w->tokenizer()->split(query))
      words.insert(x);
    for (auto &r : cover) {
      bool has = false;
      for (auto &x : k.w->tokenizer()->split(k.w->txt()->translate(r.p(), r.q())))
        has = has || words.count(x);
      c.expect(has, "cover-word", k.what + " cover: " + query + ": a passage without any of the words");
    }
    for (auto &a : qap(k.w, query, "doc:", {}))
      c.count("answers", a.size() > 0);
    std::map<std::string, fval> wq;
    for (auto &t : qa_prf(k.w, cover, {}, &wq))
      c.expect(wq.count(t), "feedback-term", t);
    auto any = random_ranking(k.w, "doc:", depth);
    check_valid(c, k, "random", any, depth, "random");
    { // fusion by reciprocal rank
      std::vector<std::vector<RankingResult>> parts;
      for (size_t j = c.rng.below(4); j; --j)
        parts.push_back(c.rng.chance(0.3) ? cover : c.rng.chance(0.5) ? any : ssr_ranking(k.w, c.rng.pick(tiers), "doc:", std::map<std::string, fval>(), depth));
      std::map<addr, std::pair<addr, double>> fused;
      for (auto &part : parts)
        for (size_t j = 0; j < part.size(); j++) {
          auto &f = fused.insert({part[j].p(), {part[j].q(), 0.0}}).first->second;
          f.second += 1.0 / (60.0 + (double)j + 1.0);
        }
      auto out = rrf_fusion(parts);
      check_top(c, k.what + vh::fmt(" fusion of %zu rankings", parts.size()), fused, out, fused.size(), "fusion");
      for (auto &r : out) {
        bool same = false;
        for (auto &part : parts)
          for (auto &x : part)
            same = same || (x.p() == r.p() && x.q() == r.q() && x.container_p() == r.container_p() && x.container_q() == r.container_q());
        c.expect(same, "fusion-container", k.what + ": a fused result has a container none of the rankings gave");
      }
    }
    h = vh::hash_str(gcl, h);
    c.count("queries");
  }
  k.w->end();
  if (k.docs.size() > 2)
    c.nontrivial(h ^ c.id);
  c.sample(k.what);
}

// large enough that work is really divided
VH_MODE(parallel, true) {
  Coll k(c);
  k.build(20 + c.rng.below(60), (int)(c.rng.below(2) ? 0 : 2), 250000, "porter");
  int which = 1;
  Want want = annotate(c, k, which);
  k.w->start();
  for (int i = 0; i < 5; i++) {
    std::string gcl = gen_gcl(k, 2);
    size_t depth = c.rng.chance(0.3) ? 1000 : 1 + c.rng.below(10);
    size_t threads = c.rng.below(9);
    check_passages(c, k, k.what + vh::fmt(", depth %zu, %zu threads: ", depth, threads) + gcl, ssr_all(k, gcl, 42.0), parallel_ssr(k.w, gcl, "doc:", {}, depth, threads), depth, "ssr-parallel");
    c.count("queries");
  }
  c.maxof("addresses", (uint64_t)k.end);
  k.w->end();
  c.nontrivial(c.id);
}

// many topics at once give what each gives alone
VH_MODE(topics, true) {
  Coll k(c);
  k.build(3 + c.rng.below(40), (int)c.rng.below(3), 0, c.rng.chance(0.6) ? "porter" : "");
  annotate(c, k, (int)c.rng.below(4));
  // the size of a vocabulary, which feedback weighs terms by, counts shards that a merge may join meanwhile
  k.quiet();
  k.w->start();
  std::map<std::string, std::string> queries;
  for (size_t i = c.rng.below(14); i; --i) {
    std::string q;
    for (size_t j = c.rng.below(6); j; --j)
      q += k.word() + " ";
    queries[vh::fmt("t%zu", i)] = q;
  }
  std::string pipe = c.rng.pick(std::vector<std::string>{"bm25", "stem bm25", "stop stem bm25", "stem bm25 rsj bm25", "stem bm25 kld bm25", "b=0.9 k1=1.2 depth=3 stem bm25"});
  std::map<std::string, std::vector<std::string>> want;
  std::map<std::string, std::vector<double>> scores;
  auto stats = Stats::make(k.w, &k.error);
  c.expect(stats != nullptr, "rank-stats", k.error);
  auto ranker = Ranker::from_pipeline(pipe, stats, &k.error);
  c.expect(ranker != nullptr, "rank-pipeline", pipe + ": " + k.error);
  for (auto &q : queries) {
    want[q.first];
    for (auto &r : (*ranker)(q.second))
      for (auto &d : k.docs)
        if (r.container_p() >= d.p && r.container_q() <= d.q) {
          // fields or content may leave the identifier outside of what is ranked
          if (r.container_p() == d.p)
            want[q.first].push_back(d.id);
        }
  }
  bool started = c.rng.chance(0.5);
  if (!started)
    k.w->end();
  for (int run = 0; run < 3; run++) {
    std::map<std::string, std::vector<std::string>> got;
    size_t threads = c.rng.below(9);
    addr time = -1;
    std::string what = k.what + vh::fmt(", '%s', %zu topics, %zu threads", pipe.c_str(), queries.size(), threads);
    if (!trec(k.w, "", "", pipe, queries, &got, &k.error, threads, c.rng.chance(0.5) ? &time : nullptr))
      c.fail("topics-failed", what + ": " + k.error);
    if (k.w->started() != started)
      c.fail("topics-started", what + ": the store is left in another state");
    if (got.size() != want.size())
      c.fail("topics-size", what + vh::fmt(": %zu answered", got.size()));
    for (auto &t : want) {
      auto &g = got[t.first];
      for (auto &x : g)
        while (!x.empty() && isspace((unsigned char)x.back()))
          x.pop_back();
      if (g != t.second)
        c.fail("topics-differ", what + vh::fmt(": topic %s '%s' has %zu results, alone it has %zu", t.first.c_str(), queries[t.first].c_str(), g.size(), t.second.size()));
      c.count("topics");
    }
    std::map<std::string, std::vector<std::string>> none;
    k.error = "";
    if (!queries.empty() && trec(k.w, "", "", pipe + " nonsense", queries, &none, &k.error, threads))
      c.fail("topics-invalid", "an invalid pipeline was accepted");
    c.expect(queries.empty() || k.error != "", "topics-error", "no reason given");
  }
  if (queries.size() > 1)
    c.nontrivial(c.id);
}

// ---- measures, by their definitions
double rel_of(const std::map<addr, fval> &q, addr p) { return q.count(p) ? q.at(p) : 0.0; }

std::map<std::string, double> measures(const std::map<addr, fval> &q, const std::vector<RankingResult> &r) {
  std::map<std::string, double> m;
  std::vector<double> g, ideal;
  for (auto &x : r)
    g.push_back(rel_of(q, x.p()));
  double rel = 0, seen = 0, ap = 0, rr = 0;
  for (auto &x : q) {
    rel += x.second > 0;
    ideal.push_back(x.second);
  }
  std::sort(ideal.rbegin(), ideal.rend());
  auto prec = [&](size_t k) {
    double n = 0;
    for (size_t i = 0; i < g.size() && i < k; i++)
      n += g[i] > 0;
    return n / (double)k;
  };
  for (size_t i = 0; i < g.size(); i++)
    if (g[i] > 0) {
      seen++;
      ap += prec(i + 1);
      if (rr == 0)
        rr = 1.0 / (double)(i + 1);
    }
  m["ap"] = rel > 0 ? ap / rel : 0;
  m["rr"] = rr;
  m["p05"] = prec(5), m["p10"] = prec(10), m["p20"] = prec(20);
  m["ret"] = (double)g.size(), m["rel"] = rel, m["rel-ret"] = seen;
  m["precision"] = g.empty() ? 0 : seen / (double)g.size();
  m["recall"] = rel > 0 ? seen / rel : 0;
  auto dcg = [](const std::vector<double> &v, size_t k) {
    double s = 0;
    for (size_t i = 0; i < v.size() && i < k; i++)
      s += v[i] / std::log2((double)i + 2);
    return s;
  };
  for (auto &k : std::vector<std::pair<std::string, size_t>>{{"", SIZE_MAX}, {"05", 5}, {"10", 10}, {"20", 20}}) {
    double best = dcg(ideal, k.second);
    m["dcg" + k.first] = best > 0 ? dcg(g, k.second) : 0;
    m["ndcg" + k.first] = best > 0 ? dcg(g, k.second) / best : 0;
  }
  for (double ph : {0.5, 0.95}) {
    double s = 0;
    for (size_t i = 0; i < g.size(); i++)
      s += (1 - ph) * g[i] * std::pow(ph, (double)i);
    m[ph == 0.5 ? "rbp50" : "rbp95"] = s;
  }
  double t = 0, tbg = 0;
  for (size_t i = 0; i < r.size(); i++) {
    double l = (double)(r[i].q() - r[i].p() + 1);
    if (g[i] > 0)
      tbg += 0.64 * 0.77 * std::exp2(-t / 224.0);
    t += 4.4 + (0.018 * l + 7.8) * (g[i] > 0 ? 0.64 : 0.39);
  }
  m["tbg"] = tbg;
  return m;
}

VH_MODE(measures, true) {
  std::vector<std::map<std::string, fval>> runs;
  std::vector<RankingResult> last;
  uint64_t h = 1;
  for (int i = 0; i < 6; i++) {
    std::map<addr, fval> qrels;
    size_t universe = 1 + c.rng.below(60);
    for (size_t j = c.rng.below(40); j; --j)
      qrels[(addr)c.rng.below(universe) * 10] = c.rng.pick(std::vector<fval>{0, 0, 1, 0.5, 0.25, 0.875});
    std::vector<addr> ps;
    for (size_t j = 0; j < universe; j++)
      ps.push_back((addr)j * 10);
    c.rng.shuffle(ps);
    ps.resize(c.rng.below(ps.size() + 1));
    std::vector<RankingResult> r;
    for (size_t j = 0; j < ps.size(); j++)
      r.emplace_back(ps[j], ps[j] + (addr)c.rng.below(9), (fval)(ps.size() - j));
    std::map<std::string, fval> got;
    eval(qrels, r, &got);
    auto want = measures(qrels, r);
    for (auto &m : want)
      if (!got.count(m.first) || !near(got[m.first], m.second))
        c.fail("measure:" + m.first, vh::fmt("%.12g, by definition %.12g; %zu results, %zu judged", got.count(m.first) ? got[m.first] : NAN, m.second, r.size(), qrels.size()));
    if (got.size() != want.size())
      c.fail("measure:other", "more measures than are defined");
    c.count("measures", want.size());
    // how far apart can two rankings be: definition, over the judgements that favour one
    if (i && (!r.empty() || !last.empty())) {
      std::map<std::string, fval> m1, m2;
      med(r, last, &m1);
      med(last, r, &m2);
      double most[3] = {0, 0, 0};
      for (int side = 0; side < 2; side++) {
        auto &x = side ? last : r, &y = side ? r : last;
        std::map<addr, size_t> ry;
        for (size_t j = 0; j < y.size(); j++)
          ry[y[j].p()] = j;
        double d = 0, a = 0, b = 0;
        std::map<addr, size_t> rx;
        for (size_t j = 0; j < x.size(); j++)
          rx[x[j].p()] = j;
        for (auto &e : rx)
          if (!ry.count(e.first) || e.second <= ry[e.first]) {
            auto gain = [&](double (*f)(size_t, double), double ph) { return f(e.second, ph) - (ry.count(e.first) ? f(ry[e.first], ph) : 0); };
            d += gain([](size_t k, double) { return 1 / std::log2((double)k + 2); }, 0);
            a += gain([](size_t k, double ph) { return (1 - ph) * std::pow(ph, (double)k); }, 0.5);
            b += gain([](size_t k, double ph) { return (1 - ph) * std::pow(ph, (double)k); }, 0.95);
          }
        most[0] = std::max(most[0], d), most[1] = std::max(most[1], a), most[2] = std::max(most[2], b);
      }
      const char *names[] = {"med-dcg", "med-rbp50", "med-rbp95"};
      for (int j = 0; j < 3; j++)
        if (!near(m1[names[j]], most[j]) || !near(m2[names[j]], most[j]))
          c.fail(vh::fmt("measure:%s", names[j]), vh::fmt("%.12g and %.12g, by definition %.12g (%zu and %zu results)", m1[names[j]], m2[names[j]], most[j], r.size(), last.size()));
      double full = 0;
      for (size_t j = 0; j < std::max(r.size(), last.size()); j++)
        full += 1 / std::log2((double)j + 2);
      if (!near(m1["med-ndcg"], most[0] / full))
        c.fail("measure:med-ndcg", vh::fmt("%.12g, by definition %.12g", m1["med-ndcg"], most[0] / full));
      c.count("distances");
    }
    last = r;
    // means, over runs that don't all have the same measures
    for (size_t j = c.rng.below(3); j; --j)
      got.erase(std::next(got.begin(), (long)c.rng.below(got.size())));
    runs.push_back(got);
    h = vh::hash_bytes(&want["tbg"], 8, h);
  }
  std::map<std::string, fval> mean_metrics;
  bool first = c.rng.chance(0.3);
  for (size_t i = 0; i < runs.size(); i++) {
    if (i == 0 && first)
      mean_metrics = runs[0]; // begun by hand
    else
      mean(runs[i], &mean_metrics);
  }
  std::map<std::string, double> want;
  for (auto &m : runs[0]) {
    double s = 0;
    bool all = true;
    for (auto &r : runs) {
      all = all && r.count(m.first);
      s += r.count(m.first) ? r[m.first] : 0;
    }
    if (all)
      want[m.first] = s / (double)runs.size();
  }
  want["n"] = (double)runs.size();
  for (auto &m : want)
    if (!mean_metrics.count(m.first) || !near(mean_metrics[m.first], m.second))
      c.fail("mean", vh::fmt("mean %s is %.12g, expected %.12g", m.first.c_str(), mean_metrics[m.first], m.second));
  if (mean_metrics.size() != want.size())
    c.fail("mean", "means of measures that some runs don't have");
  c.nontrivial(h);
}

// relevance judgements
VH_MODE(qrels, true) {
  Coll k(c);
  k.build(2 + c.rng.below(15), (int)c.rng.below(3), 0, "");
  k.w->start();
  std::map<std::string, std::map<addr, double>> level;
  std::string text;
  double most = 0;
  size_t n = 1 + c.rng.below(30);
  int top = (int)c.rng.below(4);
  for (size_t i = 0; i < n; i++) {
    auto &d = c.rng.pick(k.docs);
    std::string topic = vh::fmt("%d", (int)c.rng.below(4));
    int l = (int)c.rng.range(-1, top);
    text += topic + c.rng.pick(std::vector<std::string>{" 0 ", "\tQ0\t", "  0 "}) + d.id + " " + std::to_string(l) + "\n";
    level[topic][d.p] = std::max(0, l);
    most = std::max(most, (double)l);
  }
  bool bad = c.rng.chance(0.2);
  if (bad)
    text += c.rng.pick(std::vector<std::string>{"1 0 Dnone 1\n", "1 0 D0\n", "1 0 D0 1 2\n", "x\n"});
  vh::spit(c.dir + "/qrels", text);
  bool ms = c.rng.chance(0.5);
  std::map<std::string, std::map<addr, fval>> q;
  std::map<std::string, std::map<addr, addr>> lengths;
  std::map<std::string, std::map<addr, std::string>> docnos;
  bool ok = load_trec_qrels(k.w, c.dir + "/qrels", &q, &lengths, &docnos, &k.error, ms);
  if (ok == bad)
    c.fail("qrels-result", k.what + (ok ? ": malformed judgements accepted" : ": " + k.error));
  if (ok) {
    for (auto &t : level)
      for (auto &d : t.second) {
        double want = ms ? (std::pow(2.0, d.second) - 1) / std::pow(2.0, most) : most > 0 ? d.second / most : 0;
        if (!q[t.first].count(d.first) || !near(q[t.first][d.first], want))
          c.fail("qrels-level", k.what + vh::fmt(": level %.12g, expected %.12g (of %g)", q[t.first].count(d.first) ? q[t.first][d.first] : -1.0, want, most));
        for (auto &x : k.docs)
          if (x.p == d.first && (lengths[t.first][d.first] != x.q - x.p + 1 || docnos[t.first][d.first] != x.id))
            c.fail("qrels-document", k.what + ": wrong length or name");
        c.count("judgements");
      }
    size_t total = 0, expected = 0;
    for (auto &t : q)
      total += t.second.size();
    for (auto &t : level)
      expected += t.second.size();
    c.expect(total == expected && q.size() == level.size(), "qrels-extra", k.what + ": judgements nobody made");
  }
  c.expect(!load_trec_qrels(k.w, c.dir + "/none", &q, &k.error), "qrels-missing", "a missing file was read");
  k.w->end();
  c.nontrivial(vh::hash_str(text, (uint64_t)k.kind));
}
} // namespace
