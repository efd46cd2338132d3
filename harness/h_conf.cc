// Features (F01) and configuration: recipes, options, parameters (P01).
#include "model.h"
#include "src/appender.h"
#include "src/bigwig.h"
#include "src/compressor.h"
#include "src/cottontail.h"
#include "src/dna.h"
#include "src/featurizer.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/json.h"
#include "src/recipe.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
#include "src/stemmer.h"
#include "src/tokenizer.h"
#include "src/working.h"
#include "src/tagging_featurizer.h"
#include "src/json_featurizer.h"
#include "src/vocab_featurizer.h"
#include <algorithm>
#include <sstream>
#include <thread>
using namespace cottontail;

namespace {

// --- reference for the default feature numbers, as stored in every index ---

uint64_t ref_murmur(const unsigned char *p, size_t n) {
  const uint64_t m = 0xc6a4a7935bd1e995ull;
  uint64_t h = 588503011ull ^ (uint64_t)n * m;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t k = 0;
    for (int b = 7; b >= 0; b--)
      k = k << 8 | p[i + b];
    k *= m;
    k ^= k >> 47;
    k *= m;
    h = (h ^ k) * m;
  }
  if (i < n) {
    uint64_t k = 0;
    for (size_t b = n; b > i; b--)
      k = k << 8 | p[b - 1];
    h = (h ^ k) * m;
  }
  h = (h ^ (h >> 47)) * m;
  return h ^ (h >> 47);
}

addr ref_feature(const std::string &s) {
  if (s.empty())
    return 0;
  if (s[0] == '#' && s.size() > 1) {
    bool digits = true;
    unsigned __int128 v = 0;
    for (size_t i = 1; i < s.size() && digits; i++) {
      digits = s[i] >= '0' && s[i] <= '9';
      v = v * 10 + (s[i] - '0');
      if (v > (unsigned __int128)maxfinity)
        digits = false;
    }
    if (digits)
      return (addr)v;
  }
  uint64_t v = 0;
  if (s.size() < 8) {
    for (size_t i = s.size(); i > 0; i--)
      v = v << 8 | (unsigned char)s[i - 1];
  } else {
    v = ref_murmur((const unsigned char *)s.data(), s.size());
    if ((int64_t)v < 0)
      v = -v;
    v |= 1ull << 56;
  }
  return (addr)v;
}

std::string gen_name(vh::Ctx &c) {
  std::string s;
  switch (c.rng.below(8)) {
  case 0: { // a literal, or nearly
    s = "#";
    size_t n = c.rng.below(22);
    for (size_t i = 0; i < n; i++)
      s += (char)('0' + c.rng.below(10));
    if (c.rng.chance(0.2))
      s += "a";
    return s;
  }
  case 1: { // near the largest literal
    addr a = maxfinity - 3 + (addr)c.rng.below(8);
    unsigned __int128 v = (unsigned __int128)maxfinity - 3 + c.rng.below(8);
    (void)a;
    std::string d;
    for (; v; v /= 10)
      d += (char)('0' + (int)(v % 10));
    std::reverse(d.begin(), d.end());
    if (c.rng.chance(0.2))
      d = std::string(1 + c.rng.below(3), '0') + d;
    return "#" + d;
  }
  case 2: case 3: { // words
    size_t n = 1 + c.rng.below(c.rng.chance(0.3) ? 60 : 9);
    for (size_t i = 0; i < n; i++)
      s += (char)('a' + c.rng.below(26));
    return s;
  }
  case 4: { // any bytes
    size_t n = c.rng.below(c.rng.chance(0.2) ? 200 : 20);
    for (size_t i = 0; i < n; i++)
      s += (char)c.rng.below(256);
    return s;
  }
  case 5: { // NULs
    size_t n = 1 + c.rng.below(9);
    for (size_t i = 0; i < n; i++)
      s += c.rng.chance(0.5) ? '\0' : (char)('a' + c.rng.below(3));
    return s;
  }
  case 6: return c.rng.pick(std::vector<std::string>{":", "title:", ":title:", "<doc>", "</doc>", "\xEF\xB7\x90", "\xEF\xB7\x99", "\xEF\xB7\x9A", "\xEF\xB7", "\xEF\xB7\xAF", "\xEF\xB7\xB0", "#", "##", "#0", "#-1", "-1", "0", ""});
  default: {
    size_t n = 6 + c.rng.below(4); // around where short names end
    for (size_t i = 0; i < n; i++)
      s += (char)(33 + c.rng.below(90));
    return s;
  }
  }
}

VH_MODE(featurize, true) {
  std::string error;
  auto f = Featurizer::make("hashing", "", &error);
  c.expect(f != nullptr, "feature-make", error);
  auto g = Featurizer::make("", "", &error);
  uint64_t h = 0;
  std::map<addr, std::string> shorts;
  for (int i = 0; i < 40; i++) {
    std::string s = gen_name(c);
    addr a = f->featurize(s);
    h = vh::hash_str(s, h + 1);
    c.count("names_featurized");
    if (a != ref_feature(s))
      c.fail("feature-number", vh::fmt("'%s' is feature %ld, expected %ld", vh::show(s).c_str(), (long)a, (long)ref_feature(s)));
    if (a < 0)
      c.fail("feature-negative", vh::fmt("'%s' is feature %ld", vh::show(s).c_str(), (long)a));
    // whatever surrounds the name in memory
    size_t shift = c.rng.below(9);
    std::unique_ptr<char[]> b(new char[shift + s.size() + 1]);
    memset(b.get(), 'x', shift + s.size() + 1);
    memcpy(b.get() + shift, s.data(), s.size());
    if (f->featurize(b.get() + shift, (addr)s.size()) != a || g->featurize(s) != a)
      c.fail("feature-same", vh::fmt("'%s' has two features", vh::show(s).c_str()));
    std::string t = f->translate(a);
    if (f->featurize(t) != a)
      c.fail("feature-name", vh::fmt("'%s' is feature %ld, named '%s', which is feature %ld", vh::show(s).c_str(), (long)a, vh::show(t).c_str(), (long)f->featurize(t)));
    bool plain = s.size() < 8 && s.size() > 0 && s.find('\0') == std::string::npos && s[0] != '#';
    if (plain) {
      if (t != s)
        c.fail("feature-spelled", vh::fmt("'%s' translates to '%s'", vh::show(s).c_str(), vh::show(t).c_str()));
      if (shorts.count(a) && shorts[a] != s)
        c.fail("feature-distinct", vh::fmt("'%s' and '%s' share a feature", vh::show(s).c_str(), vh::show(shorts[a]).c_str()));
      shorts[a] = s;
    }
  }
  // any number that may be a feature has a name
  for (int i = 0; i < 20; i++) {
    addr a;
    switch (c.rng.below(3)) {
    case 0: a = (addr)(c.rng.next() >> 1); break;
    case 1: a = (addr)(c.rng.next() >> (8 + c.rng.below(56))); break;
    default: {
      a = 0;
      for (int b = 0; b < 7; b++)
        a = a << 8 | (addr)(c.rng.chance(0.3) ? 0 : c.rng.chance(0.5) ? '0' + c.rng.below(10) : c.rng.chance(0.5) ? '#' : 'a');
    }
    }
    if (a < 0 || a > maxfinity)
      continue;
    std::string t = f->translate(a);
    if (f->featurize(t) != a)
      c.fail("feature-name", vh::fmt("feature %ld is named '%s', which is feature %ld", (long)a, vh::show(t).c_str(), (long)f->featurize(t)));
    c.count("numbers_translated");
  }
  // wrappers, and wrappers made again from what they say about themselves
  std::vector<std::string> tags;
  bool json_outside = false;
  std::shared_ptr<Featurizer> w = f;
  size_t depth = 1 + c.rng.below(3);
  bool json = false;
  std::vector<std::pair<bool, std::string>> layers;
  for (size_t d = 0; d < depth; d++) {
    if (c.rng.chance(0.5)) {
      std::string tag;
      size_t n = c.rng.below(6);
      for (size_t i = 0; i < n; i++)
        tag += c.rng.chance(0.2) ? c.rng.pick(std::vector<char>{'"', '\\', '\'', '\n', ' ', '[', ']', ':', ',', '\xE9'}) : (char)('a' + c.rng.below(26));
      std::map<std::string, std::string> probe;
      if (cook(tag, &probe))
        tag = "t";
      w = TaggingFeaturizer::make(w, tag, &error);
      layers.push_back({false, tag});
    } else {
      w = JsonFeaturizer::make(w);
      layers.push_back({true, ""});
      json = true;
    }
    c.expect(w != nullptr, "feature-wrap", error);
  }
  (void)json_outside;
  (void)json;
  auto again = Featurizer::make(w->name(), w->recipe(), &error);
  if (again == nullptr || !Featurizer::check(w->name(), w->recipe(), &error))
    c.fail("feature-remake", vh::fmt("name '%s' recipe '%s': %s", w->name().c_str(), vh::show(w->recipe(), 300).c_str(), error.c_str()));
  for (int i = 0; i < 20; i++) {
    std::string s = gen_name(c), key = s;
    addr expect = -1;
    for (size_t d = layers.size(); d > 0 && expect < 0; d--)
      if (layers[d - 1].first) {
        if (key.size() == 3 && key[0] == '\xEF' && key[1] == '\xB7' && (unsigned char)key[2] >= 0x90 && (unsigned char)key[2] <= 0xAF)
          expect = 0;
      } else {
        key = layers[d - 1].second + ":" + key;
      }
    if (expect < 0)
      expect = ref_feature(key);
    else if (s.size() == 3 && (unsigned char)s[2] > 0x99)
      continue; // beyond the structure tokens in use
    if (w->featurize(s) != expect || again->featurize(s) != expect)
      c.fail("feature-wrapped", vh::fmt("'%s' through %zu layers is %ld, made again %ld, expected %ld ('%s')", vh::show(s).c_str(), layers.size(), (long)w->featurize(s), (long)again->featurize(s), (long)expect, vh::show(key).c_str()));
    if (w->translate(expect) != f->translate(expect))
      c.fail("feature-wrapped-name", vh::fmt("feature %ld: '%s' or '%s'", (long)expect, vh::show(w->translate(expect)).c_str(), vh::show(f->translate(expect)).c_str()));
    c.count("wrapped_names");
  }
  c.nontrivial(h);
}

// a vocabulary records every word once with its number of uses
VH_MODE(vocabulary, true) {
  std::string error;
  std::string where = c.dir + "/v";
  auto working = Working::mkdir(where, &error);
  c.expect(working != nullptr, "vocab-working", error);
  std::string recipe = c.rng.pick(std::vector<std::string>{"", "hashing", "[name:'hashing', recipe:'']"});
  std::map<std::string, size_t> n;
  {
    auto f = Featurizer::make("vocab", recipe, &error, working);
    c.expect(f != nullptr, "vocab-make", error);
    c.expect(f->name() == "hashing" && f->recipe() == "", "vocab-name", f->name());
    size_t m = c.rng.below(300);
    for (size_t i = 0; i < m; i++) {
      std::string s = gen_name(c);
      if (s.find_first_of(std::string("\n", 1)) != std::string::npos)
        continue;
      n[s]++;
      if (f->featurize(s) != ref_feature(s) || f->translate(ref_feature(s)) != Featurizer::make("", "")->translate(ref_feature(s)))
        c.fail("vocab-feature", vh::fmt("'%s'", vh::show(s).c_str()));
    }
  }
  std::istringstream in(vh::slurp(where + "/" + VOCAB_NAME));
  std::string line;
  size_t lines = 0;
  while (std::getline(in, line)) {
    lines++;
    size_t a = line.find(' '), b = line.find(' ', a + 1);
    c.expect(a != std::string::npos && b != std::string::npos, "vocab-line", line);
    std::string word = line.substr(b + 1);
    if (!n.count(word) || n[word] != std::stoull(line.substr(a + 1)) || ref_feature(word) != (addr)std::stoll(line))
      c.fail("vocab-entry", vh::fmt("'%s', %zu uses", vh::show(line).c_str(), n.count(word) ? n[word] : 0));
  }
  if (lines != n.size())
    c.fail("vocab-size", vh::fmt("%zu words recorded, %zu used", lines, n.size()));
  auto f = Featurizer::make("vocab", recipe, &error, working);
  c.expect(f != nullptr && f->name() == "hashing", "vocab-again", error);
  c.count("vocabulary_words", lines);
  if (lines > 3)
    c.nontrivial(vh::hash_str(vh::slurp(where + "/" + VOCAB_NAME)));
}

// --- recipes ---

std::string gen_key(vh::Ctx &c) {
  static const std::string first = "abcXYZ059-_.";
  std::string k;
  size_t n = 1 + c.rng.below(5);
  for (size_t i = 0; i < n; i++)
    k += first[c.rng.below(first.size())];
  return k;
}

std::string gen_value(vh::Ctx &c) {
  std::string s;
  switch (c.rng.below(7)) {
  case 0: return "";
  case 1: return c.rng.pick(std::vector<std::string>{"[", "]", "[]x", "[a", "[a:", "[a:'b'", "a:'b']", "\"", "'", "\\", "\\\\", "\\\"", "[a:b]", "(... \"<DOC>\" \"</DOC>\")", "(^ (+ 'a' \"b\\\"c\") x)", "\\n", "a\n\nb", "C:\\temp\\x", "line one\nline two", "\n", "\r\n", " x ", "a,b", ",", "[a:'b'],", ":", "\t"});
  case 2: { // awkward
    static const std::string set = "\"'\\[]:,ab \n";
    size_t n = c.rng.below(14);
    for (size_t i = 0; i < n; i++)
      s += set[c.rng.below(set.size())];
    return s;
  }
  case 3: {
    size_t n = c.rng.below(30);
    for (size_t i = 0; i < n; i++)
      s += (char)(1 + c.rng.below(255));
    return s;
  }
  default: {
    size_t n = 1 + c.rng.below(12);
    for (size_t i = 0; i < n; i++)
      s += (char)(32 + c.rng.below(95));
    return s;
  }
  }
}

struct Conf {
  std::string leaf;
  bool map = false;
  std::map<std::string, Conf> m;
};

Conf gen_conf(vh::Ctx &c, int depth) {
  Conf t;
  if (depth == 0 || (depth < 3 && c.rng.chance(0.55))) {
    std::map<std::string, std::string> probe;
    do
      t.leaf = gen_value(c);
    while (cook(t.leaf, &probe));
    return t;
  }
  t.map = true;
  size_t n = c.rng.below(4);
  for (size_t i = 0; i < n; i++)
    t.m[gen_key(c)] = gen_conf(c, depth - 1);
  return t;
}

std::string frozen(const Conf &t) {
  if (!t.map)
    return t.leaf;
  std::map<std::string, std::string> m;
  for (auto &x : t.m)
    m[x.first] = frozen(x.second);
  return freeze(m);
}

// another way of writing the same thing
std::string written(vh::Ctx &c, const Conf &t) {
  auto ws = [&] { return c.rng.chance(0.6) ? std::string() : c.rng.pick(std::vector<std::string>{" ", "\n", "  \t", "\n\n "}); };
  if (!t.map) {
    char q = c.rng.chance(0.5) ? '"' : '\'';
    std::string s(1, q);
    for (char x : t.leaf) {
      if (x == q || x == '\\')
        s += '\\';
      s += x;
    }
    return s + q;
  }
  std::string s = "[" + ws();
  size_t i = 0;
  for (auto &x : t.m) {
    s += x.first + ws() + ":" + ws() + written(c, x.second) + ws();
    if (++i < t.m.size() || c.rng.chance(0.5))
      s += "," + ws();
  }
  return s + "]";
}

void same_conf(vh::Ctx &c, const Conf &t, const std::string &s, const std::string &what) {
  if (!t.map) {
    if (s != t.leaf)
      c.fail("recipe-value", what + vh::fmt(": '%s' became '%s'", vh::show(t.leaf).c_str(), vh::show(s).c_str()));
    return;
  }
  std::map<std::string, std::string> m;
  if (!cook(s, &m))
    c.fail("recipe-cook", what + ": not readable: " + vh::show(s, 300));
  if (m.size() != t.m.size())
    c.fail("recipe-size", what + vh::fmt(": %zu entries, expected %zu: %s", m.size(), t.m.size(), vh::show(s, 300).c_str()));
  for (auto &x : t.m) {
    if (!m.count(x.first))
      c.fail("recipe-key", what + ": lost key " + x.first);
    same_conf(c, x.second, m[x.first], what + "." + x.first);
    c.count("values_compared");
  }
}

VH_MODE(recipe, false) {
  Conf t = gen_conf(c, 4);
  t.map = true;
  std::string s = frozen(t);
  same_conf(c, t, s, "frozen");
  auto refreeze = [&](const std::string &x) {
    std::map<std::string, std::string> m;
    if (!cook(x, &m))
      c.fail("recipe-cook", "not readable: " + vh::show(x, 300));
    return freeze(m);
  };
  if (refreeze(s) != s)
    c.fail("recipe-stable", vh::show(s, 200) + " then " + vh::show(refreeze(s), 200));
  std::string w = written(c, t);
  same_conf(c, t, w, "written");
  same_conf(c, t, refreeze(w), "written and frozen");
  // anything cut short is refused, and says where
  std::map<std::string, std::string> keep{{"was", "here"}};
  for (int i = 0; i < 6; i++) {
    size_t cut = c.rng.below(w.size());
    size_t at = 0;
    auto m = keep;
    if (cook(w.substr(0, cut), &m, &at) || at > cut || m != keep)
      c.fail("recipe-cut", vh::fmt("%zu of %zu bytes of %s: at %zu", cut, w.size(), vh::show(w, 300).c_str(), at));
  }
  // as is anything followed by more
  for (int i = 0; i < 3; i++) {
    std::string x = w + std::string(c.rng.below(3), ' ') + c.rng.pick(std::vector<std::string>{"]", "[", "x", "[]", ",", "\"", "\\", "-", ":1", "]]"}) + std::string(c.rng.below(2), '\n');
    size_t at = 0;
    auto m = keep;
    if (cook(x, &m, &at) || at > x.size() || m != keep)
      c.fail("recipe-more", vh::fmt("%s was read", vh::show(x, 300).c_str()));
  }
  // anything else is read within its bounds, and what is read is stable
  for (int i = 0; i < 6; i++) {
    std::string x = w;
    size_t n = 1 + c.rng.below(4);
    for (size_t k = 0; k < n && x.size(); k++) {
      size_t at = c.rng.below(x.size());
      switch (c.rng.below(3)) {
      case 0: x.erase(at, 1 + c.rng.below(3)); break;
      case 1: x.insert(at, std::string(1, "[]\"'\\:,a \n"[c.rng.below(10)])); break;
      default: x[at] = "[]\"'\\:,a \n"[c.rng.below(10)];
      }
    }
    std::map<std::string, std::string> m, m2;
    size_t at = 0;
    if (cook(x, &m, &at)) {
      c.count("mutants_read");
      if (!cook(freeze(m), &m2) || m2.size() != m.size())
        c.fail("recipe-mutant", vh::show(x, 300));
      for (auto &y : m) {
        std::map<std::string, std::string> sub;
        if (!cook(y.second, &sub) && m2[y.first] != y.second)
          c.fail("recipe-mutant", vh::fmt("%s: '%s' became '%s'", vh::show(x, 300).c_str(), vh::show(y.second).c_str(), vh::show(m2[y.first]).c_str()));
      }
    } else if (at > x.size()) {
      c.fail("recipe-position", vh::fmt("%s: refused at %zu", vh::show(x, 300).c_str(), at));
    } else {
      c.count("mutants_refused");
    }
  }
  if (t.m.size())
    c.nontrivial(vh::hash_str(s));
}

// --- options ---

VH_MODE(options, false) {
  struct Item {
    std::string name, recipe;
    bool map = false;
    std::map<std::string, std::string> m;
  };
  auto word = [&] {
    std::string s;
    size_t n = 1 + c.rng.below(4);
    for (size_t i = 0; i < n; i++)
      s += (char)('a' + c.rng.below(3));
    return s;
  };
  std::map<std::string, Item> items;
  std::map<std::string, std::string> top;
  size_t n = 1 + c.rng.below(4);
  for (size_t i = 0; i < n; i++) {
    Item t;
    t.name = word();
    if (c.rng.chance(0.6)) {
      t.map = true;
      size_t k = 1 + c.rng.below(3);
      for (size_t j = 0; j < k; j++) {
        std::string key = word();
        if (key != "name")
          t.m[key] = word();
      }
    } else {
      t.recipe = word();
    }
    items[word()] = t;
  }
  for (auto &t : items) {
    std::map<std::string, std::string> m{{"name", t.second.name}};
    m["recipe"] = t.second.map ? freeze(t.second.m) : t.second.recipe;
    top[t.first] = freeze(m);
  }
  bool odd = c.rng.chance(0.3);
  if (odd) { // entries that aren't components
    top["warren"] = "simple";
    top["half"] = c.rng.chance(0.5) ? freeze(std::map<std::string, std::string>{{"name", "x"}}) : freeze(std::map<std::string, std::string>{{"recipe", "x"}});
  }
  std::string dna = freeze(top);
  std::string error;
  auto verify = [&](const std::string &after) {
    std::map<std::string, std::string> m;
    c.expect(cook(dna, &m) && m.size() == top.size(), "option-dna", after);
    for (auto &t : items) {
      std::string v;
      if (!extract_option(dna, t.first + ":name", &v, &error) || v != t.second.name)
        c.fail("option-name", after + vh::fmt(": %s is named '%s', expected '%s'", t.first.c_str(), v.c_str(), t.second.name.c_str()));
      v = "";
      if (!extract_option(dna, t.first, &v, &error))
        c.fail("option-recipe", after + ": " + error);
      if (!t.second.map && v != t.second.recipe)
        c.fail("option-recipe", after + vh::fmt(": %s has recipe '%s', expected '%s'", t.first.c_str(), vh::show(v).c_str(), vh::show(t.second.recipe).c_str()));
      if (t.second.map)
        for (auto &x : t.second.m)
          if (!extract_option(dna, t.first + ":" + x.first, &v, &error) || v != x.second)
            c.fail("option-value", after + vh::fmt(": %s:%s is '%s', expected '%s'", t.first.c_str(), x.first.c_str(), v.c_str(), x.second.c_str()));
      c.count("options_read");
    }
  };
  verify("at first");
  for (int i = 0; i < 10; i++) {
    std::string x = c.rng.chance(0.8) ? std::next(items.begin(), c.rng.below(items.size()))->first : word();
    if (odd && c.rng.chance(0.1))
      x = c.rng.chance(0.5) ? "half" : "warren";
    std::string y = word(), z = word(), opt;
    if (items.count(x) && items[x].map && items[x].m.size() && c.rng.chance(0.7))
      y = std::next(items[x].m.begin(), c.rng.below(items[x].m.size()))->first;
    bool ok = false, either = false;
    auto next = items;
    switch (c.rng.below(6)) {
    case 0:
      opt = x + ":" + z;
      ok = items.count(x);
      if (ok) {
        next[x].map = false;
        next[x].recipe = z;
      }
      either = x == "half"; // may give it a recipe
      break;
    case 1:
      opt = x + ":name:" + z;
      ok = items.count(x);
      if (ok) {
        next[x].map = false;
        next[x].recipe = "";
        next[x].name = z;
      }
      either = x == "half";
      break;
    case 2: case 3:
      opt = x + ":" + y + ":" + z;
      ok = items.count(x) && items[x].map && items[x].m.count(y);
      if (ok)
        next[x].m[y] = z;
      break;
    case 4: { // malformed
      opt = c.rng.pick(std::vector<std::string>{x, x + ":" + y + ":" + z + ":" + z, ":", "::", "@", "a@b@c", ":" + z, "", x + "::" + z});
      ok = false;
      if (opt == "")
        ok = true;
      break;
    }
    default: { // wrap
      opt = x + "@" + z;
      if (!items.count(x)) {
        either = top.count(x);
        break;
      }
      std::string r = dna;
      if (!interpret_option(&r, opt, &error))
        c.fail("option-wrap", opt + ": " + error);
      std::string v, inner;
      std::map<std::string, std::string> a, b;
      if (!extract_option(r, x + ":name", &v, &error) || v != z || !extract_option(r, x, &inner, &error))
        c.fail("option-wrap", vh::fmt("%s gave '%s'", opt.c_str(), v.c_str()));
      if (!cook(dna, &a) || !cook(a[x], &a) || !cook(inner, &b) || freeze(a) != freeze(b))
        c.fail("option-wrapped", opt + ": " + vh::show(inner) + " is not " + vh::show(freeze(a)));
      c.count("options_wrapped");
      continue;
    }
    }
    std::string r = dna;
    bool did = interpret_option(&r, opt, &error);
    c.count(did ? "options_set" : "options_refused");
    if (either)
      continue;
    if (did != ok)
      c.fail("option-accept", vh::fmt("'%s' %s: %s", opt.c_str(), did ? "accepted" : "refused", vh::show(dna, 400).c_str()));
    if (!did && r != dna)
      c.fail("option-refused", "'" + opt + "' was refused but changed the configuration");
    dna = r;
    items = next;
    verify("after '" + opt + "'");
    std::string v = "untouched";
    if (c.rng.chance(0.5)) {
      std::string bad = c.rng.pick(std::vector<std::string>{"half", "half:name", "warren", "nothere", "a:b:c:d", ":", x + ":zzzzz", "half:x", "warren:name", ""});
      extract_option(dna, bad, &v, &error);
    }
  }
  c.nontrivial(vh::hash_str(dna));
}

// --- parameters of a store ---

VH_MODE(params, true) {
  std::string error, where = c.dir + "/w";
  int kind = (int)c.rng.below(3); // static, dynamic, in memory
  std::string opt = kind == 0 ? c.rng.pick(std::vector<std::string>{"", "tokenizer:name:utf8", "tokenizer:noxml", "txt:compressor:null", "featurizer@json", "txt:compressor:post idx:fvalue_compressor:null"})
                              : c.rng.pick(std::vector<std::string>{"", "tokenizer:name:ascii", "tokenizer:name:ascii tokenizer:xml", "featurizer@json", "txt:compressor:null"});
  std::shared_ptr<Warren> w;
  std::string words = "Alpha <b>beta</b> gamma-delta caf\xC3\xA9 42", got;
  if (kind == 0) {
    auto working = Working::mkdir(where, &error);
    auto b = SimpleBuilder::make(working, opt, &error);
    c.expect(b != nullptr, "params-make", opt + ": " + error);
    addr p, q;
    c.expect(b->add_text(words, &p, &q, &error) && b->finalize(&error), "params-build", error);
    b = nullptr;
    w = Warren::make(where, &error);
  } else {
    std::shared_ptr<Bigwig> b = kind == 1 ? Bigwig::make(where, opt, &error) : Bigwig::make(nullptr, Featurizer::make("hashing", ""), Tokenizer::make("utf8", ""), &error);
    c.expect(b != nullptr, "params-make", opt + ": " + error);
    b->merge(false);
    addr p, q;
    c.expect(b->transaction(&error) && b->appender()->append(words, &p, &q, &error) && b->ready(&error), "params-add", error);
    b->commit();
    w = b;
  }
  c.expect(w != nullptr, "params-open", opt + ": " + error);
  std::map<std::string, std::string> dna0;
  std::string fname = w->featurizer()->name(), frecipe = w->featurizer()->recipe(), tname = w->tokenizer()->name(), trecipe = w->tokenizer()->recipe();
  w->start();
  got = w->txt()->translate(0, 100);
  addr tokens = w->txt()->tokens();
  w->end();
  std::map<std::string, std::string> want;
  std::vector<std::string> keys;
  for (int i = 0; i < 4; i++)
    keys.push_back(gen_key(c));
  keys.push_back("id");
  auto verify = [&](std::shared_ptr<Warren> x, const std::string &what) {
    for (auto &k : want) {
      std::string v = "?";
      if (!x->get_parameter(k.first, &v, &error))
        c.fail("params-get", what + ": " + k.first + ": " + error);
      std::map<std::string, std::string> a, b;
      bool same = v == k.second || (cook(k.second, &a) && cook(v, &b) && freeze(a) == freeze(b));
      if (!same)
        c.fail("params-value", what + vh::fmt(": %s is '%s', set to '%s'", k.first.c_str(), vh::show(v).c_str(), vh::show(k.second).c_str()));
      c.count("parameters_read");
    }
    std::string v = "?";
    if (!x->get_parameter("never-set", &v, &error) || v != "")
      c.fail("params-unset", what + ": a parameter never set is '" + vh::show(v) + "'");
    if (x->featurizer()->name() != fname || x->featurizer()->recipe() != frecipe || x->tokenizer()->name() != tname || x->tokenizer()->recipe() != trecipe)
      c.fail("params-config", what + vh::fmt(": opened with %s '%s' and %s '%s', made with %s '%s' and %s '%s'", x->featurizer()->name().c_str(), vh::show(x->featurizer()->recipe()).c_str(), x->tokenizer()->name().c_str(), x->tokenizer()->recipe().c_str(), fname.c_str(), vh::show(frecipe).c_str(), tname.c_str(), trecipe.c_str()));
    x->start();
    if (x->txt()->tokens() != tokens || x->txt()->translate(0, 100) != got)
      c.fail("params-content", what + ": content differs after setting parameters");
    x->end();
  };
  verify(w, "at first");
  size_t n = 2 + c.rng.below(8);
  for (size_t i = 0; i < n; i++) {
    auto x = c.rng.chance(0.3) ? w->clone(&error) : w;
    c.expect(x != nullptr, "params-clone", error);
    switch (c.rng.below(5)) {
    case 0: { // can't be kept
      std::string bad = c.rng.pick(std::vector<std::string>{"", "two words", "a:b", "quo\"te", "a:'x',b", "b\"]", std::string("nul\0key", 7), "caf\xC3\xA9"});
      if (c.rng.chance(0.3) && keys.size())
        bad = "zz:'x'," + c.rng.pick(keys);
      std::string v = gen_value(c);
      if (kind != 2 && x->set_parameter(bad, v, &error)) {
        std::string r;
        if (!x->get_parameter(bad, &r, &error) || r != v)
          c.fail("params-odd", vh::fmt("parameter '%s' accepted but not kept", vh::show(bad).c_str()));
      }
      c.count("odd_parameters");
      break;
    }
    case 1: { // a value with a NUL is kept or refused
      std::string v = gen_value(c) + std::string("\0", 1) + gen_value(c), k = c.rng.pick(keys);
      std::map<std::string, std::string> probe;
      if (cook(v, &probe) || kind == 2)
        break;
      if (x->set_parameter(k, v, &error))
        want[k] = v;
      break;
    }
    default: {
      std::string v = gen_value(c), k = c.rng.pick(keys);
      if (c.rng.chance(0.2))
        v = frozen(gen_conf(c, 2));
      c.expect(x->set_parameter(k, v, &error), "params-set", vh::fmt("'%s' for %s: %s", vh::show(v).c_str(), k.c_str(), error.c_str()));
      want[k] = v;
      c.count("parameters_set");
    }
    }
    verify(w, vh::fmt("after setting %zu", i + 1));
    if (c.rng.chance(0.3)) {
      x = w->clone(&error);
      verify(x, "a copy");
    }
    if (kind != 2 && c.rng.chance(0.3)) {
      x = nullptr;
      w = nullptr;
      std::string type = c.rng.chance(0.5) ? "" : kind == 0 ? "simple" : "bigwig";
      w = type == "" ? Warren::make(where, &error) : Warren::make(type, where, &error);
      if (w == nullptr)
        c.fail("params-reopen", "after setting parameters the store can't be opened: " + error);
      verify(w, "reopened");
      c.count("reopened");
    }
  }
  // settings kept as parameters
  std::string q = c.rng.pick(std::vector<std::string>{"(... \"a\" \"b\")", "(... <b> </b>)", "<b>", "(^ \"x\" \"alpha beta\")"});
  c.expect(w->set_default_container(q, &error) && w->set_stemmer(Stemmer::make("porter", ""), &error), "params-default", error);
  want["container"] = q;
  want["stemmer"] = "porter";
  verify(w, "with defaults");
  if (kind != 0) { // what it says about itself
    std::map<std::string, std::string> m, p;
    if (!cook(w->recipe(), &m) || !cook(m["parameters"], &p))
      c.fail("params-recipe", vh::show(w->recipe(), 400));
    for (auto &k : want) {
      std::map<std::string, std::string> sub;
      if (k.second.find('\0') == std::string::npos && !cook(k.second, &sub) && p[k.first] != k.second)
        c.fail("params-recipe-value", vh::fmt("%s is '%s', set to '%s'", k.first.c_str(), vh::show(p[k.first]).c_str(), vh::show(k.second).c_str()));
    }
  }
  if (kind == 1 && opt.find("compressor") == std::string::npos && c.rng.chance(0.5)) { // shards carry the parameters along
    w = nullptr;
    std::string frozen_params = freeze(want);
    auto working = Working::make(where, &error);
    for (auto &name : vh::list_dir(where))
      if (name.substr(0, 6) == "fiver.") {
        auto fiver = Fiver::unpickle(where + "/" + name, working, Featurizer::make(fname, frecipe), Tokenizer::make(tname, trecipe), &error);
        c.expect(fiver != nullptr, "params-shard", error);
        fiver->start();
        auto hz = fiver->hazel(&error, 1 + (addr)c.rng.below(50), frozen_params);
        if (hz == nullptr)
          c.fail("params-shard", "conversion with parameters failed: " + error);
        for (auto &k : want) {
          std::string v;
          std::map<std::string, std::string> a, b;
          if (!hz->get_parameter(k.first, &v, &error) || (v != k.second && !(cook(k.second, &a) && cook(v, &b) && freeze(a) == freeze(b))))
            c.fail("params-shard-value", vh::fmt("%s is '%s' in the large shard, set to '%s'", k.first.c_str(), vh::show(v).c_str(), vh::show(k.second).c_str()));
        }
        fiver->end();
        fiver->discard();
        c.count("shards_converted");
      }
    w = Warren::make(where, &error);
    c.expect(w != nullptr, "params-reopen", "after conversion: " + error);
    verify(w, "after conversion");
  }
  if (kind != 2) {
    w = nullptr;
    w = Warren::make(where, &error);
    c.expect(w != nullptr, "params-reopen", error);
    verify(w, "reopened with defaults");
    w->start();
    if (w->default_container() != q || w->stemmer()->name() != "porter")
      c.fail("params-default", vh::fmt("default container '%s', stemmer '%s'", w->default_container().c_str(), w->stemmer()->name().c_str()));
    w->end();
  }
  std::string all;
  for (auto &k : want)
    all += k.first + "=" + k.second + ";";
  c.nontrivial(vh::hash_str(all, kind));
}

// what is said to be acceptable can be made, and nothing else
VH_MODE(components, true) {
  std::string error;
  static const std::vector<std::string> names = {"", "hashing", "tagging", "vocab", "json", "null", "ascii", "utf8", "zlib", "post", "tfdf", "bad", "porter", "simple", "bigwig", "nothing", "Ascii", "xml"};
  std::vector<std::string> recipes = {"", "xml", "noxml", "json", "hashing", "null", "[]", "x", "[xml:'true']", "[xml:'yes']", "[xml:'maybe']", "[name:'hashing']", "[name:'hashing',recipe:'']", "[name:'hashing',recipe:'x']", "[name:'nothing',recipe:'']", "[recipe:'']", "[tag:'t',name:'hashing']", "[tag:'t',name:'json',recipe:[name:'hashing',recipe:'']]", "[tag:'t']", "[tag:'t',name:'nothing']", "[name:'hashing',recipe:''", "["};
  if (c.rng.chance(0.3))
    recipes.push_back(gen_value(c));
  std::string r = c.rng.pick(recipes);
  if (c.rng.chance(0.3)) { // one inside another
    std::map<std::string, std::string> m{{"name", c.rng.pick(names)}, {"recipe", r}};
    if (c.rng.chance(0.5))
      m["tag"] = "t";
    r = freeze(m);
  }
  auto working = Working::mkdir(c.dir + "/x", &error);
  for (auto &name : names) {
    auto judge = [&](const char *what, bool ok, bool made, const std::string &e) {
      c.count(ok ? "components_accepted" : "components_refused");
      if (ok && !made) // (some make more than they say they accept)
        c.fail("component-check", vh::fmt("%s '%s' with recipe '%s': check says %d, making it says %d: %s", what, name.c_str(), vh::show(r).c_str(), ok, made, e.c_str()));
    };
    std::string e1, e2;
    judge("featurizer", Featurizer::check(name, r, &e1), Featurizer::make(name, r, &e2, working) != nullptr, e2);
    e2 = "";
    judge("tokenizer", Tokenizer::check(name, r, &e1), Tokenizer::make(name, r, &e2) != nullptr, e2);
    e2 = "";
    judge("compressor", Compressor::check(name, r, &e1), Compressor::make(name, r, &e2) != nullptr, e2);
    e2 = "";
    judge("stemmer", Stemmer::check(name, r, &e1), Stemmer::make(name, r, &e2) != nullptr, e2);
    if (auto t = Tokenizer::make(name, r, &e2)) {
      auto u = Tokenizer::make(t->name(), t->recipe(), &e2);
      std::string text = "One <two three=\"4\">five&six;</two> caf\xC3\xA9 \xE4\xB8\x80 x-y";
      if (u == nullptr || u->split(text) != t->split(text))
        c.fail("component-remake", vh::fmt("tokenizer '%s' '%s' made again from '%s' '%s' differs", name.c_str(), vh::show(r).c_str(), t->name().c_str(), t->recipe().c_str()));
    }
    if (auto t = Featurizer::make(name, r, &e2)) {
      auto u = Featurizer::make(t->name(), t->recipe(), &e2);
      if (u == nullptr || u->featurize("something") != t->featurize("something") || u->featurize("\xEF\xB7\x90") != t->featurize("\xEF\xB7\x90"))
        c.fail("component-remake", vh::fmt("featurizer '%s' '%s' made again from '%s' '%s' differs", name.c_str(), vh::show(r).c_str(), t->name().c_str(), vh::show(t->recipe()).c_str()));
    }
  }
  c.nontrivial(vh::hash_str(r));
}
} // namespace
