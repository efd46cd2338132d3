// Query algebra: navigation (Q01), operator semantics (Q02), optimiser (Q03),
// parsing / phrases / infix (Q04).
#include "model.h"
#include "gcl/gcl.h"
#include "gcl/materialize.h"
#include "gcl/mt.h"
#include "gcl/optimizer.h"
#include "gcl/parse.h"
#include "gcl/vector_hopper.h"
#include "src/array_hopper.h"
#include "src/bigwig.h"
#include "src/cottontail.h"
#include "src/simple_posting.h"
using namespace model;
using namespace cottontail;

namespace {
// A random list of minimal intervals with various shapes.
GL random_gl(vh::Rng &r, addr lo, addr hi, size_t maxn) {
  std::vector<IV> v;
  size_t n = r.below(maxn + 1);
  int shape = (int)r.below(4);
  for (size_t i = 0; i < n; i++) {
    addr p = r.range(lo, hi), w = 0;
    if (shape == 1)
      w = r.range(0, 3);
    else if (shape == 2)
      w = r.range(0, (hi - lo) / 4 + 1);
    else if (shape == 3)
      w = r.chance(0.5) ? 0 : r.range(1, 8);
    fval x = r.chance(0.5) ? (fval)r.range(-5, 50) : addr2fval(r.range(1, hi > 1 ? hi : 2));
    v.push_back({p, p + w, x, {}});
  }
  GL g = reduce(v);
  for (auto &i : g)
    i.alt.clear();
  return g;
}

std::unique_ptr<Hopper> array_hopper(const GL &g, bool values, bool share) {
  if (g.empty())
    return std::make_unique<EmptyHopper>();
  auto p = shared_array<addr>(g.size()), q = shared_array<addr>(g.size());
  auto f = shared_array<fval>(g.size());
  bool single = true;
  for (size_t i = 0; i < g.size(); i++) {
    p.get()[i] = g[i].p;
    q.get()[i] = g[i].q;
    f.get()[i] = g[i].v;
    single &= g[i].p == g[i].q;
  }
  if (g.size() == 1 && share)
    return std::make_unique<SingletonHopper>(g[0].p, g[0].q, g[0].v);
  return ArrayHopper::make(g.size(), p, single && share ? p : q, values ? f : nullptr);
}

class ListIdx final : public Idx {
public:
  std::map<addr, GL> lists;
  bool share = true;
  std::string recipe_() final { return ""; }
  std::unique_ptr<Hopper> hopper_(addr f) final {
    auto it = lists.find(f);
    if (it == lists.end())
      return std::make_unique<EmptyHopper>();
    return array_hopper(it->second, true, share);
  }
  addr count_(addr f) final {
    auto it = lists.find(f);
    return it == lists.end() ? 0 : it->second.size();
  }
  addr vocab_() final { return lists.size(); }
};

EP random_expr(vh::Rng &r, const std::vector<std::string> &terms, int depth, bool fixed, bool link) {
  if (depth <= 0 || r.chance(0.12))
    return term(r.pick(terms));
  int pick = (int)r.below(fixed ? 22 : 18);
  auto sub = [&](int d) { return random_expr(r, terms, d, fixed, link); };
  if (pick < 9) {
    Op op = pick < 3 ? OR : pick < 6 ? AND : SEQ;
    size_t n = 1 + r.below(4);
    if (r.chance(0.7))
      n = 2 + r.below(2);
    std::vector<EP> k;
    for (size_t i = 0; i < n; i++)
      k.push_back(sub(depth - 1 - (int)r.below(2)));
    return node(op, k);
  }
  if (pick < 17) {
    Op op = (Op)(IN + (pick - 9) % 4);
    size_t n = r.chance(0.85) ? 2 : 3;
    std::vector<EP> k;
    for (size_t i = 0; i < n; i++)
      k.push_back(sub(depth - 1 - (int)r.below(2)));
    return node(op, k);
  }
  if (pick == 17) {
    if (link && r.chance(0.5))
      return node(LINK, {term(r.pick(terms))});
    return node(MAT, {sub(depth - 1)});
  }
  EP f = node(FIXED, {}, r.chance(0.6) ? r.range(1, 6) : r.range(1, 40));
  EP o = sub(depth - 1);
  switch (r.below(7)) {
  case 0:
    return node(HAS, {f, o});
  case 1:
    return node(IN, {f, o});
  case 2:
    return node(HAS, {o, f});
  case 3:
    return node(IN, {o, f});
  case 4:
    return node(NHAS, {o, f});
  case 5:
    return node(NIN, {o, f});
  default:
    return node(SEQ, {o, term(r.pick(terms)), node(HAS, {f, term(r.pick(terms))})});
  }
}
size_t expr_size(const EP &e) {
  size_t n = 1;
  for (auto &k : e->k)
    n += expr_size(k);
  return n;
}
uint64_t gl_hash(const GL &g) {
  uint64_t h = 77;
  for (auto &i : g)
    h = vh::mix(h ^ (uint64_t)i.p * 3 ^ (uint64_t)i.q * 5);
  return h;
}
std::shared_ptr<Compressor> null_c() { return Compressor::make("null", ""); }
} // namespace

// ---- Q01: every hopper, any call order ------------------------------------
VH_MODE(nav_array, false) {
  addr lo = c.rng.range(0, 50), hi = lo + c.rng.pick(std::vector<addr>{5, 40, 300, 5000, 1000000});
  if (c.rng.chance(0.1)) {
    lo -= 1000;
  }
  size_t maxn = c.rng.pick(std::vector<size_t>{1, 2, 3, 8, 40, 300, 3000});
  GL g = random_gl(c.rng, lo, hi, maxn);
  if (g.empty())
    g = {{lo, lo, 1.0, {}}};
  bool values = c.rng.chance(0.7);
  std::unique_ptr<Hopper> h;
  std::shared_ptr<SimplePosting> posting;
  int kind = (int)c.rng.below(3);
  std::shared_ptr<CacheRecord> rec;
  if (kind == 0) {
    h = array_hopper(g, values, c.rng.chance(0.5));
  } else if (kind == 1) {
    auto fac = SimplePostingFactory::make(null_c(), null_c());
    posting = fac->posting_from_feature(42);
    bool any = false;
    for (auto &i : g) {
      posting->push(i.p, i.q, values ? i.v : 0.0);
      any = true;
    }
    values = false; // a posting whose first value is zero may drop values: checked in I01
    h = ArrayHopper::make(posting);
  } else {
    rec = std::make_shared<CacheRecord>();
    rec->n = g.size();
    rec->postings = shared_array<addr>(g.size());
    rec->qostings = shared_array<addr>(g.size());
    if (values)
      rec->fostings = shared_array<fval>(g.size());
    for (size_t i = 0; i < g.size(); i++) {
      rec->postings.get()[i] = g[i].p;
      rec->qostings.get()[i] = g[i].q;
      if (values)
        rec->fostings.get()[i] = g[i].v;
    }
    rec->release();
    h = ArrayHopper::make(rec);
  }
  check_hopper(c, h.get(), g, lo - 5, hi + 10, 120, (values ? VALUES : 0) | SENTINELS, "nav:array",
               vh::fmt("kind=%d n=%zu", kind, g.size()));
  c.nontrivial(gl_hash(g) ^ kind);
  if (g.size() > 1)
    c.sample(vh::fmt("list %s kind=%d", show(g, 6).c_str(), kind));
}

VH_MODE(nav_ops, false) {
  addr lo = c.rng.range(0, 20), hi = lo + c.rng.pick(std::vector<addr>{6, 30, 120});
  GL a = random_gl(c.rng, lo, hi, c.rng.pick(std::vector<size_t>{2, 6, 20, 60}));
  GL b = random_gl(c.rng, lo, hi, c.rng.pick(std::vector<size_t>{2, 6, 20, 60}));
  auto ha = array_hopper(a, true, c.rng.chance(0.5)), hb = array_hopper(b, true, c.rng.chance(0.5));
  std::unique_ptr<Hopper> h;
  GL g;
  int kind = (int)c.rng.below(13);
  int flags = SENTINELS;
  std::string what = vh::fmt("kind=%d a=%s b=%s", kind, show(a, 20).c_str(), show(b, 20).c_str());
  switch (kind) {
  case 0:
    h = std::make_unique<gcl::Or>(std::move(ha), std::move(hb));
    g = binary(OR, a, b);
    break;
  case 1:
    h = std::make_unique<gcl::And>(std::move(ha), std::move(hb));
    g = binary(AND, a, b);
    break;
  case 2:
    h = std::make_unique<gcl::FollowedBy>(std::move(ha), std::move(hb));
    g = binary(SEQ, a, b);
    break;
  case 3:
    h = std::make_unique<gcl::ContainedIn>(std::move(ha), std::move(hb));
    g = binary(IN, a, b);
    flags |= VALUES;
    break;
  case 4:
    h = std::make_unique<gcl::Containing>(std::move(ha), std::move(hb));
    g = binary(HAS, a, b);
    flags |= VALUES;
    break;
  case 5:
    h = std::make_unique<gcl::NotContainedIn>(std::move(ha), std::move(hb));
    g = binary(NIN, a, b);
    flags |= VALUES;
    break;
  case 6:
    h = std::make_unique<gcl::NotContaining>(std::move(ha), std::move(hb));
    g = binary(NHAS, a, b);
    flags |= VALUES;
    break;
  case 7: {
    // ordinary merge of two lists carries values
    h = std::make_unique<gcl::Merge>(std::move(ha), std::move(hb));
    std::vector<IV> u(a);
    u.insert(u.end(), b.begin(), b.end());
    g = reduce(u);
    flags |= VALUES;
    break;
  }
  case 8:
    h = std::make_unique<gcl::Materialize>(std::move(ha));
    g = a;
    flags |= VALUES;
    break;
  case 9: {
    h = std::make_unique<gcl::Materialize>(std::make_unique<gcl::And>(std::move(ha), std::move(hb)));
    g = binary(AND, a, b);
    break;
  }
  case 10: {
    std::vector<std::unique_ptr<Hopper>> v;
    std::vector<IV> u;
    size_t n = 1 + c.rng.below(6);
    for (size_t i = 0; i < n; i++) {
      GL x = random_gl(c.rng, lo, hi, 15);
      u.insert(u.end(), x.begin(), x.end());
      v.push_back(array_hopper(x, true, false));
      what += show(x);
    }
    h = gcl::VectorHopper::make(&v, false);
    g = reduce(u);
    flags = VALUES;
    break;
  }
  case 11: {
    GL one = random_gl(c.rng, lo, hi, 1);
    if (one.empty())
      one.push_back({lo, hi, 2.5, {}});
    h = std::make_unique<SingletonHopper>(one[0].p, one[0].q, one[0].v);
    g = one;
    flags |= VALUES;
    break;
  }
  default: {
    GL x;
    for (auto &i : a)
      x.push_back({i.p, i.q, addr2fval(c.rng.range(lo, hi)), {}});
    h = std::make_unique<gcl::Link>(array_hopper(x, true, false));
    Env env;
    env.lists["x"] = x;
    g = eval(node(LINK, {term("x")}), env);
    flags = 0;
    break;
  }
  }
  for (auto &i : g)
    if ((flags & VALUES) == 0)
      i.v = 0;
  c.expect(is_gl(g), "model", "model list not minimal");
  check_hopper(c, h.get(), g, lo - 5, hi + 15, 100, flags, vh::fmt("nav:op%d", kind), what);
  c.nontrivial(vh::mix(gl_hash(a) ^ gl_hash(b) * 3) + kind);
  c.count(vh::fmt("op%d", kind));
}

VH_MODE(nav_fixed, false) {
  addr w = c.rng.chance(0.5) ? c.rng.range(1, 5) : c.rng.range(1, 2000);
  FixedWidthHopper h(w);
  addr prev_p = 0, prev_q = 0;
  for (int i = 0; i < 60; i++) {
    addr k = c.rng.chance(0.2) ? (c.rng.chance(0.5) ? minfinity + 1 + c.rng.range(0, 3 * w) : maxfinity - 1 - c.rng.range(0, 3 * w))
                               : c.rng.range(-5000, 5000);
    addr p, q;
    fval v;
    // all windows of width w strictly inside (minfinity, maxfinity)
    typedef __int128 big;
    big first = (big)minfinity + 1, last_end = (big)maxfinity - 1, K = k;
    int which = (int)c.rng.below(4);
    addr ep, eq;
    switch (which) {
    case 0: // first window starting at or after k
      h.tau(k, &p, &q, &v);
      if (K > last_end - w + 1)
        ep = eq = maxfinity;
      else
        ep = k, eq = k + w - 1;
      break;
    case 1: // first window ending at or after k
      h.rho(k, &p, &q, &v);
      eq = K < first + w - 1 ? (addr)(first + w - 1) : k;
      ep = eq - w + 1;
      break;
    case 2: // last window ending at or before k
      h.uat(k, &p, &q, &v);
      if (K < first + w - 1)
        ep = eq = minfinity;
      else
        eq = k, ep = k - w + 1;
      break;
    default: // last window starting at or before k
      h.ohr(k, &p, &q, &v);
      ep = K > last_end - w + 1 ? (addr)(last_end - w + 1) : k;
      eq = ep + w - 1;
      break;
    }
    c.expect(p == ep && q == eq, vh::fmt("nav:fixed:%d", which),
             vh::fmt("width %ld k=%s gave [%s,%s] want [%s,%s]", (long)w, showa(k).c_str(), showa(p).c_str(),
                     showa(q).c_str(), showa(ep).c_str(), showa(eq).c_str()));
    c.count("access_calls_checked");
  }
  c.nontrivial(w);
}

// ---- Q02: expressions over a list index ------------------------------------
VH_MODE(expr, false) {
  addr lo = 0, hi = c.rng.pick(std::vector<addr>{8, 30, 80});
  auto idx = std::make_shared<ListIdx>();
  idx->share = c.rng.chance(0.5);
  auto featurizer = Featurizer::make("hashing", "");
  Env env;
  env.lo = lo - 300;
  env.hi = hi + 400;
  std::vector<std::string> terms = {"aa", "bb", "cc", "dd", "ee", "zz"};
  size_t maxn = c.rng.pick(std::vector<size_t>{2, 5, 12, 25});
  for (size_t i = 0; i + 1 < terms.size(); i++) {
    GL g = random_gl(c.rng, lo, hi, maxn);
    env.lists[terms[i]] = g;
    if (!g.empty())
      idx->lists[featurizer->featurize(terms[i])] = g;
  }
  EP e = random_expr(c.rng, terms, 1 + (int)c.rng.below(4), true, true);
  if (expr_size(e) > 14)
    throw vh::CaseSkip();
  // link targets stay in the window in which fixed widths are enumerated
  for (auto &l : env.lists)
    for (auto &i : l.second)
      if (fval2addr(i.v) < lo - 100 || fval2addr(i.v) > hi + 100)
        i.v = addr2fval(c.rng.range(lo, hi));
  for (auto &l : env.lists)
    if (!l.second.empty())
      idx->lists[featurizer->featurize(l.first)] = l.second;
  std::string s = e->str();
  c.trace("query %s", s.c_str());
  GL g = eval(e, env);
  c.expect(is_gl(g), "model", "model list not minimal: " + s);
  std::string error;
  auto x = gcl::SExpression::from_string(s, &error);
  c.expect(x != nullptr, "expr:parse", s + " : " + error);
  auto h = x->to_hopper(featurizer, idx);
  c.expect(h != nullptr, "expr:null", s);
  // solutions near the edge of the finite window are not compared
  GL inner;
  for (auto &i : g)
    if (i.p >= lo - 120 && i.q <= hi + 120)
      inner.push_back(i);
  bool whole = inner.size() == g.size();
  std::string what = s;
  for (auto &l : env.lists)
    what += " " + l.first + "=" + show(l.second, 30);
  size_t n = 0;
  if (whole) {
    check_hopper(c, h.get(), g, lo - 5, hi + 45, 60, 0, "expr", what);
  } else {
    for (int i = 0; i < 60; i++) {
      addr k = c.rng.range(lo - 5, hi + 5);
      int w = (int)c.rng.below(4);
      Ans a = w == 0 ? tau(g, k) : w == 1 ? rho(g, k) : w == 2 ? uat(g, k) : ohr(g, k);
      if (a.iv && a.p > lo - 120 && a.q < hi + 120)
        probe(c, h.get(), g, w, k, 0, "expr", what);
    }
  }
  if (!g.empty() && e->k.size() > 0)
    c.nontrivial(vh::hash_str(what));
  c.count("expr_nodes", expr_size(e));
  c.maxof("largest_solution_list", g.size());
  if (g.size() > 1 && e->k.size() > 1)
    c.sample(s + " -> " + show(g, 6));
}

// ---- Q03: the full query path, optimiser on and off ------------------------
VH_MODE(optimizer, false) {
  auto featurizer = Featurizer::make("hashing", "");
  auto tokenizer = Tokenizer::make(c.rng.chance(0.5) ? "ascii" : "utf8", "");
  std::string error;
  auto big = Bigwig::make(nullptr, featurizer, tokenizer, &error);
  c.expect(big != nullptr, "optimizer:make", error);
  big->merge(false);
  std::vector<std::string> words = {"aa", "bb", "cc", "dd", "ee", "ff"};
  std::vector<std::string> tags = {"doc:", "sec:", "par:"};
  std::vector<std::string> points = {"x:", "y:", "z:"}; // marks that often share a position
  std::vector<std::string> terms = words;
  if (c.rng.chance(0.5))
    terms = points;
  else if (c.rng.chance(0.5))
    terms.insert(terms.end(), points.begin(), points.end());
  terms.insert(terms.end(), tags.begin(), tags.end());
  terms.push_back("absent");
  Env env;
  std::map<std::string, std::vector<IV>> raw;
  addr base = 0;
  size_t txs = 1 + c.rng.below(3);
  for (size_t t = 0; t < txs; t++) {
    size_t n = 5 + c.rng.below(60);
    std::string text;
    size_t vocab = 2 + c.rng.below(words.size() - 1);
    for (size_t i = 0; i < n; i++) {
      const std::string &w = words[std::min(c.rng.below(vocab), c.rng.below(words.size()))];
      text += w + " ";
      raw[w].push_back({base + (addr)i, base + (addr)i, 0, {}});
    }
    c.expect(big->transaction(&error), "optimizer:tx", error);
    addr p, q;
    c.expect(big->appender()->append(text, &p, &q, &error), "optimizer:append", error);
    c.expect(q - p + 1 == (addr)n, "optimizer:append", "wrong token count");
    for (auto &tag : tags) {
      size_t m = c.rng.below(8);
      for (size_t i = 0; i < m; i++) {
        addr x = c.rng.range(0, n - 1), y = std::min<addr>(n - 1, x + c.rng.range(0, n / 2 + 1));
        fval v = (fval)c.rng.range(1, 9);
        c.expect(big->annotator()->annotate(featurizer->featurize(tag), p + x, p + y, v, &error), "optimizer:annotate", error);
        raw[tag].push_back({base + x, base + y, v, {}});
      }
    }
    for (size_t i = c.rng.below(8); i > 0; i--) {
      addr x = c.rng.range(0, n - 1);
      bool outside = c.rng.chance(0.15); // marks need not lie on text
      for (auto &tag : points)
        if (c.rng.chance(0.6)) {
          addr d = c.rng.chance(0.2);
          addr at = outside ? -2 - x : p + x + d, seen = outside ? at : base + x + d;
          c.expect(big->annotator()->annotate(featurizer->featurize(tag), at, at, 1.0, &error), "optimizer:annotate", error);
          raw[tag].push_back({seen, seen, 1.0, {}});
        }
    }
    c.expect(big->ready(&error), "optimizer:ready", error);
    big->commit();
    base += n;
  }
  for (auto &r : raw)
    env.lists[r.first] = reduce(r.second);
  env.lo = -400;
  env.hi = base + 400;
  big->start();
  for (int rep = 0; rep < 8; rep++) {
    EP e;
    if (c.rng.chance(0.6)) {
      // the shapes the rewriter looks for, with distractors
      size_t n = 2 + c.rng.below(5);
      std::vector<EP> k;
      for (size_t i = 0; i < n; i++) {
        EP t = term(c.rng.pick(terms));
        if (c.rng.chance(0.15))
          t = node(SEQ, {t, term(c.rng.pick(words))});
        if (c.rng.chance(0.1))
          t = node(AND, {t, term(c.rng.pick(words))});
        if (c.rng.chance(0.1))
          t = term("\"" + c.rng.pick(words) + " " + c.rng.pick(words) + "\"");
        if (c.rng.chance(0.12))
          t = node(FIXED, {}, 1 + c.rng.below(c.rng.chance(0.8) ? 4 : 20));
        k.push_back(t);
      }
      EP inner = node(AND, k);
      EP cont = c.rng.chance(0.7) ? term(c.rng.pick(tags)) : random_expr(c.rng, terms, 2, false, false);
      e = node(IN, {inner, cont});
      if (c.rng.chance(0.3))
        e = node(c.rng.chance(0.5) ? HAS : IN, {term(c.rng.pick(tags)), e});
      if (c.rng.chance(0.2))
        e = node(OR, {e, term(c.rng.pick(terms))});
      if (c.rng.chance(0.1))
        e = node(IN, {e, term(c.rng.pick(tags)), term(c.rng.pick(tags))});
    } else {
      e = random_expr(c.rng, terms, 1 + (int)c.rng.below(3), true, false);
    }
    if (expr_size(e) > 14)
      continue;
    // phrases in the model
    std::string s = e->str();
    c.trace("query %s tokens %ld", s.c_str(), (long)base);
    std::function<EP(const EP &)> conv = [&](const EP &x) -> EP {
      if (x->op == TERM && x->term[0] == '"') {
        std::string a = x->term.substr(1, 2), b = x->term.substr(4, 2);
        return node(HAS, {node(FIXED, {}, 2), node(SEQ, {term(a), term(b)})});
      }
      std::vector<EP> k;
      for (auto &y : x->k)
        k.push_back(conv(y));
      auto n = std::make_shared<Expr>(*x);
      n->k = k;
      return n;
    };
    GL g = eval(conv(e), env);
    gcl::Optimizer::enable();
    auto h1 = big->hopper_from_gcl(s, &error);
    gcl::Optimizer::disable();
    auto h2 = big->hopper_from_gcl(s, &error);
    gcl::Optimizer::enable();
    c.expect(h1 && h2, "optimizer:null", s + " " + error);
    bool edge = false;
    for (auto &i : g)
      edge |= i.p < -150 || i.q > base + 150;
    if (edge)
      continue;
    std::string what = s + vh::fmt(" tokens=%ld", (long)base);
    check_hopper(c, h1.get(), g, -3, base + 3, 30, 0, "optimizer:on", what);
    check_hopper(c, h2.get(), g, -3, base + 3, 20, 0, "optimizer:off", what);
    auto x = gcl::SExpression::from_string(s, &error)->expand_phrases(tokenizer);
    auto o = gcl::Optimizer::optimize(x, big.get());
    bool changed = o->to_string() != x->to_string();
    if (changed)
      c.count("rewritten_queries");
    if (!g.empty())
      c.nontrivial(vh::hash_str(what) ^ gl_hash(g));
    if (changed && !g.empty())
      c.sample(s + " => " + o->to_string() + " -> " + show(g, 5));
  }
  big->end();
}

// ---- Q04: syntax ------------------------------------------------------------
VH_MODE(parse_roundtrip, false) {
  static const char *alias[][3] = {{"", "", ""},       {"#", "fixed_width", "#"},  {"+", "one_of", "+"},
                                   {"^", "all_of", "^"}, {"...", "followed_by", "<>"}, {"<<", "contained_in", "<<"},
                                   {">>", "containing", ">>"}, {"!<", "not_contained_in", "!<"}, {"!>", "not_containing", "!>"},
                                   {"@", "link", "@"}, {"materialize", "materialize", "materialize"}};
  std::vector<std::string> terms = {"a", "word", "<DOC>", "</DOC>", ":title:", "\"two words\"", "'single quoted'",
                                    "`back`", "\"esc \\\" q\"", "x#y", "12", "@at", "caf\xc3\xa9", "\"paren ( ) in\""};
  EP e = random_expr(c.rng, terms, 1 + (int)c.rng.below(4), true, true);
  // rendering with random aliases and random white space
  std::function<std::string(const EP &)> ren = [&](const EP &x) -> std::string {
    auto ws = [&](bool must) {
      std::string s = must ? " " : "";
      while (c.rng.chance(0.15))
        s += c.rng.chance(0.7) ? " " : "\t";
      return s;
    };
    if (x->op == TERM)
      return ws(false) + x->term + ws(false);
    std::string s = ws(false) + "(" + ws(false) + alias[x->op][c.rng.below(3)] + ws(true);
    if (x->op == FIXED)
      s += std::to_string(x->width);
    for (size_t i = 0; i < x->k.size(); i++)
      s += ws(true) + ren(x->k[i]);
    return s + ws(false) + ")";
  };
  std::string text = ren(e), error;
  auto x = gcl::SExpression::from_string(text, &error);
  c.expect(x != nullptr, "parse:reject", "valid query rejected: " + text + " : " + error);
  std::string s1 = x->to_string();
  c.expect(s1 == e->str(), "parse:canonical", text + " parsed as " + s1 + " not " + e->str());
  auto y = gcl::SExpression::from_string(s1, &error);
  c.expect(y != nullptr && y->to_string() == s1, "parse:roundtrip", s1);
  auto b = x->to_binary();
  auto bb = gcl::SExpression::from_string(b->to_string(), &error);
  c.expect(bb != nullptr && bb->to_string() == b->to_string(), "parse:binary", b->to_string());
  c.nontrivial(vh::hash_str(text));
  c.sample(text + " => " + s1);
  c.count("queries_parsed");
  // truncations of a compound query never parse
  if (e->op != TERM) {
    for (int i = 0; i < 4; i++) {
      size_t n = c.rng.below(text.size());
      std::string cut = text.substr(0, n);
      size_t depth = 0;
      // cut inside: the closing parenthesis of the whole is missing
      auto z = gcl::SExpression::from_string(cut, &error);
      size_t close = text.rfind(')');
      (void)depth;
      c.expect(z == nullptr || n > close, "parse:truncated", "accepted truncated query: " + cut);
      c.count("truncations_rejected");
    }
  }
}

VH_MODE(parse_hostile, false) {
  // arbitrary bytes: parse must return (accept or reject), and what it accepts
  // must render and re-parse to itself
  static const char *frag[] = {"(", ")", " ", "\t", "(+ ", "(^ ", "(... ", "(<< ", "(>> ", "(!< ", "(!> ", "(# ", "(@ ", "(materialize ",
                               "\"", "'", "`", "\\", "a", "bb", "7", "0", "99", "(# 3)", "\n", "\xff", "<>", "(<> ", "one_of", "(all_of ", "-1", "#"};
  std::string s;
  size_t n = c.rng.below(14);
  for (size_t i = 0; i < n; i++)
    s += frag[c.rng.below(sizeof frag / sizeof *frag)];
  std::string error;
  auto x = gcl::SExpression::from_string(s, &error);
  if (x != nullptr) {
    std::string t = x->to_string();
    auto y = gcl::SExpression::from_string(t, &error);
    c.expect(y != nullptr && y->to_string() == t, "parse:hostile", "accepted '" + vh::show(s) + "' renders as '" + vh::show(t) + "' which does not re-parse to itself");
    c.count("accepted");
    auto tok = Tokenizer::make("ascii", "");
    auto z = x->expand_phrases(tok);
    c.expect(z != nullptr, "parse:expand", s);
    z->to_binary();
    auto idx = std::make_shared<ListIdx>();
    auto fz = Featurizer::make("hashing", "");
    idx->lists[fz->featurize("a")] = {{1, 1, 0, {}}, {5, 5, 0, {}}};
    idx->lists[fz->featurize("bb")] = {{2, 3, 0, {}}};
    bool zero = t.find("(# ") != std::string::npos; // unbounded lists are evaluated in mode expr
    if (!zero) {
      auto h = z->to_hopper(fz, idx);
      if (h) {
        addr p, q;
        h->tau(0, &p, &q);
        h->uat(10, &p, &q);
      }
    }
    c.nontrivial(vh::hash_str(t));
  } else {
    c.expect(!error.empty(), "parse:silent", "rejected without an error: " + vh::show(s));
    c.count("rejected");
    c.nontrivial(vh::hash_str(s));
  }
}

// phrases: "w1 w2 ... wn" finds exactly the runs of n adjacent tokens
VH_MODE(phrase, false) {
  auto featurizer = Featurizer::make("hashing", "");
  auto tokenizer = Tokenizer::make(c.rng.chance(0.5) ? "ascii" : "utf8", "");
  std::string error;
  auto big = Bigwig::make(nullptr, featurizer, tokenizer, &error);
  big->merge(false);
  std::vector<std::string> words = {"a", "b", "cc", "dd"};
  size_t vocab = 1 + c.rng.below(words.size());
  std::vector<std::string> toks;
  size_t txs = 1 + c.rng.below(3);
  for (size_t t = 0; t < txs; t++) {
    std::string text;
    size_t n = 1 + c.rng.below(30);
    for (size_t i = 0; i < n; i++) {
      std::string w = words[c.rng.below(vocab)];
      toks.push_back(w);
      text += w + c.rng.pick(std::vector<std::string>{" ", ", ", "\n", " - "});
    }
    big->transaction();
    addr p, q;
    c.expect(big->appender()->append(text, &p, &q, &error), "phrase:append", error);
    c.expect(big->ready(&error), "phrase:ready", error);
    big->commit();
  }
  big->start();
  for (int rep = 0; rep < 6; rep++) {
    size_t n = 1 + c.rng.below(5);
    std::vector<std::string> ph;
    size_t at = c.rng.below(toks.size());
    for (size_t i = 0; i < n; i++)
      ph.push_back(c.rng.chance(0.8) && at + i < toks.size() ? toks[at + i] : c.rng.pick(words));
    std::string s = "\"";
    for (size_t i = 0; i < n; i++)
      s += (i ? c.rng.pick(std::vector<std::string>{" ", "  ", ", "}) : "") + (c.rng.chance(0.2) && ph[i].size() > 1 ? std::string(1, toupper(ph[i][0])) + ph[i].substr(1) : ph[i]);
    s += "\"";
    GL g;
    for (size_t i = 0; i + n <= toks.size(); i++) {
      bool ok = true;
      for (size_t j = 0; j < n; j++)
        ok &= toks[i + j] == ph[j];
      if (ok)
        g.push_back({(addr)i, (addr)(i + n - 1), 0, {}});
    }
    // upper-case words are indexed under both forms but the corpus is lower case;
    // the query splits to lower case
    auto h = big->hopper_from_gcl(s, &error);
    c.expect(h != nullptr, "phrase:null", s + error);
    std::string all;
    for (auto &t : toks)
      all += t + " ";
    check_hopper(c, h.get(), g, -3, toks.size() + 3, 25, 0, "phrase", s + " in " + all);
    if (!g.empty())
      c.nontrivial(vh::hash_str(s + all));
    c.count("phrases");
  }
  big->end();
}

namespace {
// What a quoted phrase stands for
EP spell_out(const EP &x) {
  if (x->op == TERM && x->term.size() > 2 && x->term[0] == '"') {
    std::vector<EP> w;
    std::string cur;
    for (char ch : x->term.substr(1, x->term.size() - 2) + " ")
      if (isalnum(ch))
        cur += (char)tolower(ch);
      else if (!cur.empty()) {
        w.push_back(term(cur));
        cur = "";
      }
    if (w.size() == 1)
      return w[0];
    return node(HAS, {node(FIXED, {}, (addr)w.size()), node(SEQ, w)});
  }
  auto n = std::make_shared<Expr>(*x);
  n->k.clear();
  for (auto &y : x->k)
    n->k.push_back(spell_out(y));
  return n;
}
} // namespace

// phrases anywhere in a query, and the infix notation, against the operator expression they stand for
VH_MODE(infix, false) {
  vh::Rng &r = c.rng;
  auto featurizer = Featurizer::make("hashing", "");
  auto tokenizer = Tokenizer::make(r.chance(0.5) ? "ascii" : "utf8", "");
  std::string error;
  auto big = Bigwig::make(nullptr, featurizer, tokenizer, &error);
  big->merge(false);
  std::vector<std::string> words = {"a", "b", "cc", "dd", "words", "of"};
  std::vector<std::string> toks;
  std::string text;
  size_t n = 1 + r.below(50), vocab = 2 + r.below(words.size() - 1);
  Env env;
  for (size_t i = 0; i < n; i++) {
    std::string w = words[r.below(vocab)];
    env.lists[w].push_back({(addr)i, (addr)i, 0, {}});
    toks.push_back(w);
    text += w + " ";
  }
  env.lo = -300;
  env.hi = (addr)n + 300;
  c.expect(big->transaction(&error), "infix:tx", error);
  addr p, q;
  c.expect(big->appender()->append(text, &p, &q, &error), "infix:append", error);
  c.expect(big->ready(&error), "infix:ready", error);
  big->commit();
  big->start();
  std::vector<std::string> terms;
  for (int i = 0; i < 8; i++) {
    size_t at = r.below(toks.size());
    std::string s = "\"";
    for (size_t j = 1 + r.below(3); j > 0 && at < toks.size(); j--, at++)
      s += (s.size() > 1 ? r.pick(std::vector<std::string>{" ", "  ", ", "}) : "") +
           (r.chance(0.2) ? std::string(1, (char)toupper(toks[at][0])) + toks[at].substr(1) : toks[at]);
    terms.push_back(s + "\"");
  }
  auto verify = [&](const std::string &query, const EP &e, const std::string &sig, const std::string &how) {
    if (expr_size(e) > 14)
      return;
    GL g = eval(spell_out(e), env);
    for (auto &i : g)
      if (i.p < -100 || i.q > (addr)n + 100)
        return;
    auto h = big->hopper_from_gcl(query, &error);
    c.expect(h != nullptr, sig + ":null", query + " " + error + how);
    check_hopper(c, h.get(), g, -3, (addr)n + 3, 12, 0, sig, query + how + " in " + text);
    if (!g.empty())
      c.nontrivial(vh::hash_str(query + text));
    c.count("queries_compared");
  };
  Mt mt;
  std::map<std::string, EP> vars;
  for (int rep = 0; rep < 6; rep++) {
    // in the operator notation, below any operator
    EP e = random_expr(r, terms, (int)r.below(3), true, true);
    if (r.chance(0.3))
      e = node(r.chance(0.5) ? LINK : MAT, {e});
    verify(e->str(), e, "phrase:nested", "");
    // in the infix notation
    static const std::vector<std::vector<std::string>> ops = {
        {}, {}, {"+", " or "}, {"^", " and "}, {"<>", "...", "..", "...."}, {"<<", "<", " contained in "},
        {">>", ">", " containing "}, {"/<", " not contained in "}, {"/>", " not containing "}};
    auto ws = [&] { return r.chance(0.5) ? "" : r.chance(0.5) ? " " : "\t "; };
    std::function<std::string(const EP &, bool)> ren = [&](const EP &x, bool top) -> std::string {
      if (x->op == TERM)
        return x->term;
      if (x->op == FIXED)
        return r.chance(0.5) ? vh::fmt("[%ld]", (long)x->width) : vh::fmt("%ld words", (long)x->width);
      if (!top && !vars.empty() && r.chance(0.2))
        for (auto &v : vars)
          if (v.second->str() == x->str())
            return v.first;
      std::string s;
      if ((x->op == AND || x->op == OR) && (x->k.size() == 1 || r.chance(0.3))) { // all or one of several
        s = x->op == AND ? (r.chance(0.5) ? "all" : std::to_string(x->k.size())) : (r.chance(0.5) ? "one" : "1");
        s += r.chance(0.5) ? " of (" : "^(";
        for (size_t i = 0; i < x->k.size(); i++)
          s += (i ? "," : "") + (ws() + ren(x->k[i], true)) + ws();
        return s + ")";
      }
      for (size_t i = 0; i < x->k.size(); i++) { // no precedence: from left to right
        if (i) {
          std::string name = r.pick(ops[x->op]);
          s += (name[0] == ' ' ? "" : ws()) + name + ws();
        }
        bool chain = i == 0 && x->k[0]->op != TERM && r.chance(0.5); // needs no parentheses
        s += ren(x->k[i], chain);
      }
      return top && r.chance(0.8) ? s : (std::string("(") + ws() + s + ws() + ")");
    };
    do
      e = random_expr(r, terms, (int)r.below(4), true, false);
    while (e->str().find("materialize") != std::string::npos);
    if (!vars.empty() && r.chance(0.3)) {
      auto it = vars.begin();
      std::advance(it, r.below(vars.size()));
      e = node((Op)(OR + r.below(3)), {it->second, e});
    }
    std::string s = ws() + ren(e, true) + ws();
    if (r.chance(0.25)) {
      std::string name = r.pick(std::vector<std::string>{"x", "y1", "Zed", "foo"});
      c.expect(mt.infix_expression(ws() + name + ws() + "=" + s, &error), "infix:assign", name + "=" + s + " :: " + error);
      vars[name] = e;
      c.count("variables_assigned");
      s = name;
    }
    c.expect(mt.infix_expression(s, &error), "infix:rejected", s + " :: " + error);
    verify(mt.s_expression(), e, "infix:answer", " from " + s);
    c.count("infix_queries");
    c.sample(s + " => " + mt.s_expression());
    // nonsense is refused or accepted, and changes nothing that follows
    for (int i = (int)r.below(4); i > 0; i--) {
      static const char *frag[] = {"(", ")", "\"", "\"a\"", "[", "]", "3", "2 of (", "all", "one", " of ", ",", "x", "=", "foo=", "and", "<<", "...", "contained", "in", "not", "/>", "\t", "\n", "\xc3\xa9", "words", "99999999999", "0", "^", "zz"};
      std::string bad;
      if (r.chance(0.5)) {
        bad = s;
        size_t at = r.below(bad.size() + 1);
        if (r.chance(0.5))
          bad = bad.substr(0, at);
        else
          bad.insert(at, frag[r.below(sizeof frag / sizeof *frag)]);
      } else
        for (size_t k = r.below(7); k > 0; k--)
          bad += frag[r.below(sizeof frag / sizeof *frag)];
      if (bad.find('=') != std::string::npos) // may redefine a variable: use another parser
        Mt().infix_expression(bad, &error);
      else if (mt.infix_expression(bad, &error))
        c.count("nonsense_accepted");
      else
        c.count("nonsense_rejected");
      auto x = gcl::SExpression::from_string(mt.s_expression(), &error);
    }
  }
  big->end();
}
