// What a store should contain, kept independently of the code under test, and
// the checks that compare any warren (dynamic, file, static) with it.
#ifndef VH_WORLD_H_
#define VH_WORLD_H_
#include "model.h"
#include "src/cottontail.h"
#include "src/owsla.h"
#include <sstream>

namespace world {
using cottontail::addr;
using cottontail::fval;
using cottontail::maxfinity;
using cottontail::minfinity;
using model::GL;
using model::IV;

struct Ann {
  std::string f;
  addr p, q;
  fval v;
};

// One transaction's worth of content; addresses are relative to base when
// rel is set, absolute otherwise.
struct Tx {
  addr base = 0;
  std::vector<std::string> word;  // indexed token form, one per address
  std::vector<std::string> bytes; // text from this token up to the next
  std::vector<std::pair<addr, std::string>> upper; // words indexed in their original case as well
  std::vector<Ann> rel, abs;
  std::vector<Ann> span; // from an absolute p to a relative q
  std::vector<std::pair<addr, addr>> erel, eabs;
  size_t n() const { return word.size(); }
};

// A consistent set of transactions
struct View {
  std::map<addr, std::shared_ptr<const Tx>> txs; // by base
  std::vector<std::shared_ptr<const Tx>> empties; // transactions without text
  void add(std::shared_ptr<const Tx> t) {
    if (t->n())
      txs[t->base] = t;
    else
      empties.push_back(t);
  }
  addr tokens() const {
    addr n = 0;
    for (auto &t : txs)
      n += t.second->n();
    return n;
  }
  bool range(addr *p, addr *q) const {
    if (txs.empty())
      return false;
    *p = txs.begin()->first;
    *q = txs.rbegin()->first + (addr)txs.rbegin()->second->n() - 1;
    return true;
  }
  std::string translate(addr p, addr q) const {
    std::string s;
    for (auto &t : txs) {
      addr b = t.first, e = b + (addr)t.second->n() - 1;
      for (addr a = std::max(p, b); a <= std::min(q, e); a++)
        s += t.second->bytes[a - b];
    }
    return s;
  }
  // token sequence of the same range
  std::vector<std::string> words(addr p, addr q) const {
    std::vector<std::string> s;
    for (auto &t : txs) {
      addr b = t.first, e = b + (addr)t.second->n() - 1;
      for (addr a = std::max(p, b); a <= std::min(q, e); a++)
        s.push_back(t.second->word[a - b]);
    }
    return s;
  }
  std::vector<std::pair<addr, addr>> erased() const {
    std::vector<std::pair<addr, addr>> e;
    auto one = [&](const Tx &t) {
      for (auto &x : t.erel)
        e.emplace_back(x.first + t.base, x.second + t.base);
      for (auto &x : t.eabs)
        e.push_back(x);
    };
    for (auto &t : txs)
      one(*t.second);
    for (auto &t : empties)
      one(*t);
    return e;
  }
  std::map<std::string, std::vector<IV>> raw(const std::string &tx_tag) const {
    std::map<std::string, std::vector<IV>> m;
    auto one = [&](const Tx &t) {
      for (size_t i = 0; i < t.n(); i++)
        m[t.word[i]].push_back({t.base + (addr)i, t.base + (addr)i, 0.0, {}});
      for (auto &u : t.upper)
        m[u.second].push_back({t.base + u.first, t.base + u.first, 0.0, {}});
      for (auto &a : t.rel)
        m[a.f].push_back({a.p + t.base, a.q + t.base, a.v, {}});
      for (auto &a : t.abs)
        m[a.f].push_back({a.p, a.q, a.v, {}});
      for (auto &a : t.span)
        m[a.f].push_back({a.p, a.q + t.base, a.v, {}});
      if (tx_tag != "" && t.n())
        m[tx_tag].push_back({t.base, t.base + (addr)t.n() - 1, 0.0, {}});
    };
    for (auto &t : txs)
      one(*t.second);
    for (auto &t : empties)
      one(*t);
    return m;
  }
  std::map<std::string, GL> lists(const std::string &tx_tag) const {
    std::map<std::string, GL> m;
    auto e = erased();
    for (auto &r : raw(tx_tag)) {
      GL g = model::reduce(r.second), h;
      for (auto &i : g) {
        bool gone = false;
        for (auto &x : e)
          gone |= x.first <= i.p && i.q <= x.second;
        if (!gone)
          h.push_back(i);
      }
      m[r.first] = h;
    }
    return m;
  }
  uint64_t hash() const {
    uint64_t h = 99;
    for (auto &t : txs) {
      h = vh::mix(h ^ t.first);
      for (auto &w : t.second->word)
        h = vh::hash_str(w, h);
      for (auto &a : t.second->rel)
        h = vh::mix(h ^ a.p ^ (a.q << 20)) + vh::hash_str(a.f);
    }
    for (auto &x : erased())
      h = vh::mix(h ^ x.first ^ (x.second << 20));
    return h;
  }
  std::string str() const {
    std::ostringstream s;
    for (auto &t : txs)
      s << "[" << t.first << "+" << t.second->n() << "]";
    s << " empties=" << empties.size() << " erased=" << erased().size();
    return s.str();
  }
};

struct Gen {
  std::vector<std::string> vocab;
  std::vector<std::string> tags;
  bool utf8 = false;
  bool erasures = false;    // then annotations of one tag all have one width
  bool loose = false;       // texts may start with separators or hold no token: compare tokens only
  std::map<std::string, addr> width;
};

inline Gen make_gen(vh::Rng &r, bool utf8, bool erasures) {
  Gen g;
  g.utf8 = utf8;
  g.erasures = erasures;
  std::vector<std::string> pool = {"a",    "bb",   "the",  "quick", "brown",    "elephant", "seventh7", "12",
                                   "2026", "zyzz", "lazy", "dogs",  "overlong", "internationalization", "q", "x9", "The", "BBC", "McX", "eBay2"};
  if (utf8) {
    pool.push_back("caf\xc3\xa9");
    pool.push_back("\xe6\x97\xa5");
    pool.push_back("\xce\xb1\xce\xb2\xce\xb3");
    pool.push_back("na\xc3\xafve");
    pool.push_back("\xe6\x9c\xac");
    pool.push_back("\xc3\x89TAT");
  }
  size_t n = 1 + r.below(pool.size());
  for (size_t i = 0; i < n; i++)
    g.vocab.push_back(r.pick(pool));
  g.tags = {"doc:", "sec:", ":par", "a-rather-long-tag-name:"};
  for (auto &t : g.tags)
    g.width[t] = r.chance(0.4) ? 0 : r.range(0, 12);
  return g;
}

inline std::string sep(vh::Rng &r) {
  if (r.chance(0.02))
    return std::string(" \0 ", 3); // just another separator
  static const char *s[] = {" ", " ", " ", " ", "  ", ", ", "\n", " - ", ".\n", "\t", "; ", "! "};
  return s[r.below(12)];
}

// every codepoint of these scripts is a token of its own
inline bool unigram(const std::string &w) { return w.size() == 3 && (w[0] & 0xf0) == (char)0xe0; }

// Append one random text to t; returns the text handed to append()
inline std::string gen_text(vh::Rng &r, const Gen &g, Tx *t, size_t n) {
  std::string text;
  if (g.loose && r.chance(0.3))
    text += sep(r);
  std::vector<std::string> words;
  for (size_t i = 0; i < n; i++)
    words.push_back(g.vocab[std::min(r.below(g.vocab.size()), r.below(g.vocab.size()))]);
  for (size_t i = 0; i < n; i++) {
    const std::string &w = words[i];
    std::string s = i + 1 < n ? sep(r) : (r.chance(0.5) ? sep(r) : r.chance(0.5) ? "." : "");
    if (i + 1 < n && (unigram(w) || unigram(words[i + 1])) && r.chance(0.6))
      s = "";
    std::string low;
    size_t upper = 0;
    for (size_t j = 0; j < w.size(); j++) {
      bool up = w[j] >= 'A' && w[j] <= 'Z';
      upper += up && j > 0;
      if (w[j] == '\xc3' && w[j + 1] == '\x89') { // the one non-ASCII capital in use
        low += "\xc3\xa9";
        j++;
      } else
        low += up ? w[j] | 0x20 : w[j];
    }
    if (upper && !g.utf8)
      t->upper.emplace_back(t->word.size(), w);
    t->word.push_back(low);
    t->bytes.push_back(w + s);
    text += w + s;
  }
  if (n && !cottontail::separator(text.back()))
    t->bytes.back() += "\n";
  return text;
}

enum { NOCOUNT = 1, TOKENS_ONLY = 2, LIGHT = 4, NORANGE = 8 };

// Compare everything observable through a started warren with the view.
inline void check(vh::Ctx &c, cottontail::Warren *w, const View &v, const Gen &g, const std::string &tx_tag, int flags,
                  const std::string &sig, const std::string &what) {
  using namespace cottontail;
  if (g.loose)
    flags |= TOKENS_ONLY;
  auto lists = v.lists(tx_tag);
  bool erased = !v.erased().empty();
  auto raw = v.raw(tx_tag);
  std::vector<std::string> names;
  for (auto &l : lists)
    names.push_back(l.first);
  for (auto &t : g.tags)
    if (!lists.count(t))
      names.push_back(t);
  names.push_back("neverseen");
  addr lo = 0, hi = 0;
  bool any = v.range(&lo, &hi);
  c.rng.shuffle(names);
  size_t nf = 0;
  for (auto &n : names) {
    if ((flags & LIGHT) && nf++ >= 4)
      break;
    const GL &l = lists[n];
    addr f = w->featurizer()->featurize(n);
    auto h = w->idx()->hopper(f);
    c.expect(h != nullptr, sig + ":hopper", n);
    model::check_hopper(c, h.get(), l, lo - 3, hi + 3, (flags & LIGHT) ? 6 : 14, model::VALUES, sig + ":index",
                        "feature " + n + " view " + v.str() + " " + what);
    addr cnt = w->idx()->count(f);
    if (!(flags & NOCOUNT)) {
      if (l.empty() && !erased)
        c.expect(cnt == 0, sig + ":count", vh::fmt("count(%s)=%ld but nothing was stored ", n.c_str(), (long)cnt) + what);
      else
        c.expect(cnt >= (addr)l.size() && cnt <= (addr)raw[n].size(), sig + ":count",
                 vh::fmt("count(%s)=%ld visible %zu written %zu ", n.c_str(), (long)cnt, l.size(), raw[n].size()) + what);
    }
    c.count("features_checked");
  }
  // text
  c.expect(w->txt()->tokens() == v.tokens(), sig + ":tokens",
           vh::fmt("tokens()=%ld want %ld ", (long)w->txt()->tokens(), (long)v.tokens()) + what);
  addr p = 7, q = 7;
  bool ok = w->txt()->range(&p, &q);
  c.expect(ok == any, sig + ":range", vh::fmt("range() says %d want %d ", ok, any) + what);
  if (ok)
    c.expect(p == lo && q == hi, sig + ":range",
             vh::fmt("range()=[%ld,%ld] want [%ld,%ld] ", (long)p, (long)q, (long)lo, (long)hi) + what);
  size_t reads = (flags & LIGHT) ? 4 : 12;
  for (size_t i = 0; i < reads; i++) {
    addr a, b;
    switch (c.rng.below(6)) {
    case 0:
      a = lo, b = hi;
      break;
    case 1:
      a = c.rng.range(lo, hi), b = a;
      break;
    case 2:
      a = c.rng.range(lo, hi), b = a + c.rng.range(0, 20);
      break;
    case 3:
      a = c.rng.range(lo, hi), b = c.rng.range(a, hi);
      break;
    case 4:
      a = c.rng.range(lo - 10, hi + 10), b = a + c.rng.range(-3, hi - lo + 5);
      break;
    default:
      a = c.rng.range(lo, hi + 1), b = maxfinity - c.rng.range(0, 1);
      break;
    }
    std::string got = w->txt()->translate(a, b);
    c.count("reads_checked");
    if (flags & TOKENS_ONLY) {
      auto tk = w->tokenizer()->split(got);
      auto want = v.words(a, b);
      for (auto &x : tk) // the ASCII tokenizer splits without folding case
        for (auto &ch : x)
          if (ch >= 'A' && ch <= 'Z')
            ch |= 0x20;
      c.expect(tk == want, sig + ":text",
               vh::fmt("translate(%ld,%ld) has %zu tokens, want %zu: ", (long)a, (long)b, tk.size(), want.size()) +
                   vh::show(got, 80) + " " + what);
    } else {
      std::string want = v.translate(a, b);
      c.expect(got == want, sig + ":text",
               vh::fmt("translate(%ld,%ld) gave %zu bytes '%s' want %zu '%s' view %s ", (long)a, (long)b, got.size(),
                       vh::show(got, 60).c_str(), want.size(), vh::show(want, 60).c_str(), v.str().c_str()) +
                   what);
    }
  }
  // a query or two through the whole path
  if (!(flags & LIGHT) && names.size() >= 2) {
    for (int i = 0; i < 2; i++) {
      std::string x = c.rng.pick(names), y = c.rng.pick(names);
      if (x == tx_tag || y == tx_tag)
        continue;
      model::Op op = (model::Op)(model::OR + (int)c.rng.below(7) + ((int)c.rng.below(7) >= 99));
      if (op == model::FIXED)
        op = model::AND;
      auto e = model::node(op, {model::term(x), model::term(y)});
      model::Env env;
      env.lists[x] = lists[x];
      env.lists[y] = lists[y];
      env.lo = lo;
      env.hi = hi;
      if (env.lists[x].size() * env.lists[y].size() > 100000)
        continue;
      GL r = model::eval(e, env);
      std::string error;
      auto h = w->hopper_from_gcl(e->str(), &error);
      c.expect(h != nullptr, sig + ":query", e->str() + error);
      model::check_hopper(c, h.get(), r, lo - 3, hi + 3, 8, 0, sig + ":query", e->str() + " " + what);
      c.count("queries_checked");
    }
  }
}
} // namespace world
#endif
