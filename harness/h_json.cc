// JSON documents: what is stored, annotated, found and given back (J01), and
// loading of files (J01, L01).
#include "pack.h"
#include "model.h"
#include "world.h"
#include "src/appender.h"
#include "src/bigwig.h"
#include "src/builder.h"
#include "src/cottontail.h"
#include "src/featurizer.h"
#include "src/json.h"
#include "src/nlohmann.h"
#include "src/recipe.h"
#include "src/scribe.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
#include "src/tokenizer.h"
#include "src/working.h"
#include <algorithm>
#include <cmath>
#include <unistd.h>
using namespace cottontail;
using model::GL;
using model::IV;

namespace {

struct J {
  enum Kind { NUL, BOOL, NUM, STR, ARR, OBJ } kind = NUL;
  bool b = false;
  double num = 0;
  std::string text; // number as written
  std::string s;
  std::vector<J> arr;
  std::map<std::string, J> obj;
  addr p = 0, q = -1; // where it is, once stored
};

// structure tokens can't be part of the content
std::string clean(const std::string &s) {
  std::string t;
  for (size_t i = 0; i < s.size(); i++)
    if (i + 2 < s.size() && s[i] == '\xEF' && s[i + 1] == '\xB7' && (unsigned char)s[i + 2] >= 0x90 && (unsigned char)s[i + 2] <= 0xAF) {
      t += "\xEF\xBF\xBD";
      i += 2;
    } else {
      t += s[i];
    }
  return t;
}

void put_utf8(std::string *s, uint32_t c) {
  if (c < 0x80) {
    *s += (char)c;
  } else if (c < 0x800) {
    *s += (char)(0xC0 | c >> 6);
    *s += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    *s += (char)(0xE0 | c >> 12);
    *s += (char)(0x80 | (c >> 6 & 63));
    *s += (char)(0x80 | (c & 63));
  } else {
    *s += (char)(0xF0 | c >> 18);
    *s += (char)(0x80 | (c >> 12 & 63));
    *s += (char)(0x80 | (c >> 6 & 63));
    *s += (char)(0x80 | (c & 63));
  }
}

uint32_t gen_char(vh::Ctx &c) {
  switch (c.rng.below(12)) {
  case 0: return (uint32_t)c.rng.below(32);
  case 1: return c.rng.pick(std::vector<uint32_t>{'"', '\\', '/', '\n', '\t', '\r', 0, 0x7F, ' ', '\b', '\f'});
  case 2: return 0xFDC8 + (uint32_t)c.rng.below(0x40); // around the structure tokens
  case 3: return 0xE000 + (uint32_t)c.rng.below(0x1FFF);
  case 4: return 0x10000 + (uint32_t)c.rng.below(0x100000);
  case 5: return 0x80 + (uint32_t)c.rng.below(0x700);
  case 6: return 0x4E00 + (uint32_t)c.rng.below(200);
  case 7: return ' ';
  case 8: return c.rng.pick(std::vector<uint32_t>{'{', '}', '[', ']', ':', ',', '<', '&', '\'', '#'});
  default: return 'a' + (uint32_t)c.rng.below(6);
  }
}

std::string gen_string(vh::Ctx &c, bool key) {
  std::string s;
  if (c.rng.chance(key ? 0.7 : 0.5)) {
    static const std::vector<std::string> w = {"id", "title", "a", "b", "Name", "caf\xC3\xA9", "long-name", "x1"};
    size_t n = key ? 1 : c.rng.below(6);
    for (size_t i = 0; i < n; i++)
      s += (i ? " " : "") + c.rng.pick(w);
    return s;
  }
  size_t n = c.rng.below(key ? 5 : c.rng.chance(0.1) ? 80 : 12);
  for (size_t i = 0; i < n; i++)
    put_utf8(&s, gen_char(c));
  return s;
}

J gen_json(vh::Ctx &c, int depth) {
  J j;
  j.kind = (J::Kind)c.rng.below(depth > 0 ? 6 : 4);
  if (depth == 5 && c.rng.chance(0.8))
    j.kind = c.rng.chance(0.8) ? J::OBJ : J::ARR;
  switch (j.kind) {
  case J::BOOL: j.b = c.rng.chance(0.5); break;
  case J::NUM: {
    switch (c.rng.below(6)) {
    case 0: j.text = vh::fmt("%ld", (long)c.rng.range(-100, 100)); break;
    case 1: j.text = vh::fmt("%.3f", (c.rng.unit() - 0.5) * 1000); break;
    case 2: j.text = vh::fmt("%.17ge%d", c.rng.unit() * 10, (int)c.rng.range(-30, 30)); break;
    case 3: j.text = vh::fmt("%lu", (unsigned long)c.rng.next()); break;
    case 4: j.text = vh::fmt("%ld", -(long)(c.rng.next() >> 1)); break;
    default: j.text = c.rng.pick(std::vector<std::string>{"0", "-0", "1e308", "-1.7976931348623157e308", "5e-324", "0.0000001", "0.5E+2", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "9007199254740993", "1E2"});
    }
    j.num = strtod(j.text.c_str(), nullptr);
    break;
  }
  case J::STR: j.s = gen_string(c, false); break;
  case J::ARR: {
    size_t n = c.rng.below(c.rng.chance(0.1) ? 14 : 4);
    for (size_t i = 0; i < n; i++)
      j.arr.push_back(gen_json(c, depth - 1));
    break;
  }
  case J::OBJ: {
    size_t n = c.rng.below(5);
    for (size_t i = 0; i < n; i++) {
      // several names that only differ in what can't be stored would be one
      std::string k = gen_string(c, true);
      j.obj[n > 1 ? clean(k) : k] = gen_json(c, depth - 1);
    }
    break;
  }
  default: break;
  }
  return j;
}

// the document as some program may have written it
std::string write_string(vh::Ctx &c, const std::string &s) {
  std::string t = "\"";
  for (size_t i = 0; i < s.size();) {
    unsigned char u = s[i];
    size_t n = u < 0x80 ? 1 : u < 0xE0 ? 2 : u < 0xF0 ? 3 : 4;
    uint32_t cp = n == 1 ? u : n == 2 ? u & 31 : n == 3 ? u & 15 : u & 7;
    for (size_t k = 1; k < n; k++)
      cp = cp << 6 | (s[i + k] & 63);
    static const std::string esc = "\"\\\b\f\n\r\t", nm = "\"\\bfnrt";
    size_t e = cp < 128 ? esc.find((char)cp) : std::string::npos;
    if (e != std::string::npos && (c.rng.chance(0.8) || cp == '"' || cp == '\\'))
      t += std::string("\\") + nm[e];
    else if (cp == '/' && c.rng.chance(0.5))
      t += "\\/";
    else if (cp < 32 || c.rng.chance(0.1)) {
      if (cp >= 0x10000)
        t += vh::fmt(c.rng.chance(0.5) ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xD7C0 + (cp >> 10), 0xDC00 + (cp & 1023));
      else
        t += vh::fmt(c.rng.chance(0.5) ? "\\u%04x" : "\\u%04X", cp);
    } else
      t += s.substr(i, n);
    i += n;
  }
  return t + "\"";
}

std::string write_json(vh::Ctx &c, const J &j, bool oneline) {
  auto ws = [&] { return c.rng.chance(0.7) ? std::string() : c.rng.pick(oneline ? std::vector<std::string>{" ", "\t", "  ", " \r"} : std::vector<std::string>{" ", "\n", "\t", "\n    ", "\r\n"}); };
  switch (j.kind) {
  case J::NUL: return "null";
  case J::BOOL: return j.b ? "true" : "false";
  case J::NUM: return j.text;
  case J::STR: return write_string(c, j.s);
  case J::ARR: {
    std::string s = "[" + ws();
    for (size_t i = 0; i < j.arr.size(); i++)
      s += (i ? ws() + "," + ws() : "") + write_json(c, j.arr[i], oneline);
    return s + ws() + "]";
  }
  default: {
    std::vector<const std::pair<const std::string, J> *> order;
    for (auto &x : j.obj)
      order.push_back(&x);
    c.rng.shuffle(order);
    std::string s = "{" + ws();
    for (size_t i = 0; i < order.size(); i++)
      s += (i ? ws() + "," + ws() : "") + write_string(c, order[i]->first) + ws() + ":" + ws() + write_json(c, order[i]->second, oneline);
    return s + ws() + "}";
  }
  }
}

typedef std::map<std::string, std::vector<IV>> Anns;

// where everything goes
void place(J &j, const std::string &path, addr *at, Anns *anns, std::set<std::string> *words, std::shared_ptr<Tokenizer> t) {
  auto take = [&](const std::string &text) {
    auto w = t->split(text);
    for (auto &x : w)
      words->insert(x);
    *at += (addr)w.size();
  };
  j.p = *at;
  double v = 0;
  switch (j.kind) {
  case J::NUL: take("null"); v = NAN; break;
  case J::BOOL: take(j.b ? "true" : "false"); v = j.b; break;
  case J::NUM: take(open_number_token + std::to_string(j.num) + close_number_token); v = j.num; break;
  case J::STR: take(open_string_token + clean(j.s) + close_string_token); break;
  case J::ARR:
    take(open_array_token);
    for (size_t i = 0; i < j.arr.size(); i++) {
      if (i)
        take(comma_token);
      place(j.arr[i], path + "[" + std::to_string(i) + "]:", at, anns, words, t);
    }
    take(close_array_token);
    v = (double)j.arr.size();
    break;
  case J::OBJ: {
    take(open_object_token);
    bool first = true;
    for (auto &x : j.obj) {
      if (!first)
        take(comma_token);
      first = false;
      std::string k = clean(x.first);
      take(open_string_token + k + close_string_token + colon_token);
      place(x.second, path + k + ":", at, anns, words, t);
      (*anns)[k + ":"].push_back({x.second.p, x.second.q, 0.0, {}});
    }
    take(close_object_token);
  }
  }
  j.q = *at - 1;
  (*anns)[path].push_back({j.p, j.q, v, {}});
}

void shift(J &j, addr d) {
  j.p += d;
  j.q += d;
  for (auto &x : j.arr)
    shift(x, d);
  for (auto &x : j.obj)
    shift(x.second, d);
}

std::string flat(const std::string &s) { // line ends in strings become spaces
  std::string t;
  bool sp = false;
  for (char x : s) {
    if (x == ' ' || x == '\n') {
      sp = true;
      continue;
    }
    if (sp)
      t += ' ';
    sp = false;
    t += x;
  }
  return sp ? t + ' ' : t;
}

std::string same(const J &j, const nlohmann::json &g, const std::string &path) {
  switch (j.kind) {
  case J::NUL: return g.is_null() ? "" : path + " is not null";
  case J::BOOL: return g.is_boolean() && g.get<bool>() == j.b ? "" : path + " is not " + (j.b ? "true" : "false");
  case J::NUM: {
    if (!g.is_number())
      return path + " is not a number";
    double v = g.get<double>();
    return std::fabs(v - j.num) <= 6e-7 + 1e-12 * std::fabs(j.num) ? "" : vh::fmt("%s is %.17g, stored %s", path.c_str(), v, j.text.c_str());
  }
  case J::STR:
    if (!g.is_string() || flat(g.get<std::string>()) != flat(clean(j.s)))
      return path + " is " + (g.is_string() ? "'" + vh::show(g.get<std::string>()) + "'" : std::string("not a string")) + ", stored '" + vh::show(j.s) + "'";
    return "";
  case J::ARR:
    if (!g.is_array() || g.size() != j.arr.size())
      return path + " is not an array of the same size";
    for (size_t i = 0; i < j.arr.size(); i++) {
      std::string e = same(j.arr[i], g[i], path + "[" + std::to_string(i) + "]");
      if (e != "")
        return e;
    }
    return "";
  default: {
    if (!g.is_object())
      return path + " is not an object";
    std::map<std::string, std::vector<const J *>> want;
    for (auto &x : j.obj)
      want[flat(clean(x.first))].push_back(&x.second);
    std::map<std::string, nlohmann::json> got;
    for (auto it = g.begin(); it != g.end(); ++it)
      got[flat(it.key())] = it.value();
    if (got.size() != want.size())
      return path + vh::fmt(" has %zu members, stored %zu", got.size(), want.size());
    for (auto &x : want) {
      if (!got.count(x.first))
        return path + " has no member '" + vh::show(x.first) + "'";
      std::string e = "?";
      for (auto y : x.second)
        if (e != "")
          e = same(*y, got[x.first], path + "." + x.first);
      if (e != "")
        return e;
    }
    return "";
  }
  }
}

void all_nodes(J &j, std::vector<J *> *v) {
  v->push_back(&j);
  for (auto &x : j.arr)
    all_nodes(x, v);
  for (auto &x : j.obj)
    all_nodes(x.second, v);
}

struct Load {
  std::vector<J> docs;
  Anns anns;
  std::set<std::string> words;
  addr at = 0; // next address
};

void check(vh::Ctx &c, std::shared_ptr<Warren> w, Load &l, addr addr0, bool json_txt, bool json_features, const std::string &what) {
  w->start();
  addr p, q;
  if (w->txt()->tokens() != l.at - addr0)
    c.fail("json-tokens", what + vh::fmt(": %ld tokens, expected %ld", (long)w->txt()->tokens(), (long)(l.at - addr0)));
  // every path and every member name lists exactly its values
  for (auto &a : l.anns) {
    if (l.words.count(a.first))
      continue;
    GL want = model::reduce(a.second);
    auto h = w->idx()->hopper(w->featurizer()->featurize(a.first));
    fval v;
    addr k = minfinity + 1;
    for (size_t i = 0; i <= want.size(); i++) {
      h->tau(k, &p, &q, &v);
      if (i == want.size() ? p != maxfinity : p != want[i].p || q != want[i].q)
        c.fail("json-path", what + vh::fmt(": '%s' %zu is [%ld,%ld], expected %s", vh::show(a.first).c_str(), i, (long)p, (long)q, i < want.size() ? vh::fmt("[%ld,%ld]", (long)want[i].p, (long)want[i].q).c_str() : "nothing"));
      if (i < want.size()) {
        bool ok = model::value_ok(want[i], v) || (std::isnan(v) && std::isnan(want[i].v));
        for (fval x : want[i].alt)
          ok = ok || (std::isnan(v) && std::isnan(x));
        if (!ok)
          c.fail("json-value", what + vh::fmt(": '%s' at %ld has value %.17g, expected %.17g", vh::show(a.first).c_str(), (long)p, v, want[i].v));
        k = p + 1;
        c.count("values_checked");
      }
    }
    c.count("paths_checked");
  }
  // every value comes back as itself
  std::vector<J *> nodes;
  for (auto &d : l.docs)
    all_nodes(d, &nodes);
  for (size_t i = 0; i < nodes.size() && i < 60; i++) {
    J *j = nodes.size() <= 60 ? nodes[i] : c.rng.pick(nodes);
    std::string s = w->txt()->translate(j->p, j->q);
    if (json_txt) {
      if (json_translate(w->txt()->raw(j->p, j->q)) != s)
        c.fail("json-raw", what + ": raw text and translated text differ");
    } else {
      s = json_translate(s);
    }
    std::string e;
    try {
      e = same(*j, nlohmann::json::parse(s), "$");
    } catch (nlohmann::json::exception &x) {
      e = std::string("not JSON: ") + x.what();
    }
    if (e != "")
      c.fail("json-text", what + vh::fmt(": [%ld,%ld] %s in '%s'", (long)j->p, (long)j->q, e.c_str(), vh::show(s, 500).c_str()));
    c.count("values_translated");
  }
  // marks of structure aren't words, and what looks like them is
  if (json_features)
    for (auto &t : {open_object_token, close_object_token, open_array_token, close_array_token, open_string_token, close_string_token, colon_token, comma_token, open_number_token, close_number_token}) {
      auto h = w->idx()->hopper(w->featurizer()->featurize(t));
      h->tau(minfinity + 1, &p, &q);
      if (p != maxfinity)
        c.fail("json-structure", what + vh::fmt(": a structure token is indexed at %ld", (long)p));
    }
  for (auto &t : l.words) {
    bool structure = json_internal_token(t.c_str(), (addr)t.size());
    bool real = t.size() == 3 && t[0] == '\xEF' && t[1] == '\xB7' && (unsigned char)t[2] >= 0x90 && (unsigned char)t[2] <= 0x99;
    if (structure != real)
      c.fail("json-internal", what + ": '" + vh::show(t) + "'");
    if (real || l.anns.count(t))
      continue;
    auto h = w->hopper_from_gcl("\"" + t + "\"");
    if (t.find_first_of("\"\\\n", 0) != std::string::npos)
      continue;
    if (h == nullptr)
      continue;
    h->tau(minfinity + 1, &p, &q);
    if (p == maxfinity)
      c.fail("json-word", what + ": the word '" + vh::show(t) + "' isn't found");
    c.count("words_found");
  }
  w->end();
}

struct Store {
  std::shared_ptr<Warren> w;
  std::shared_ptr<Scribe> scribe;
  std::shared_ptr<Builder> builder;
  std::string where, opt;
  int kind = 0;
  bool json_txt = false, json_features = false;
  addr addr0 = 0;
  std::string error;
};

void make_store(vh::Ctx &c, Store *s) {
  s->kind = (int)c.rng.below(3);
  s->where = c.dir + "/s";
  s->json_txt = s->kind != 2 && c.rng.chance(0.5);
  s->json_features = c.rng.chance(0.5);
  std::string f = s->json_features ? "featurizer@json" : "";
  std::string x = s->json_txt ? "txt:json:yes" : "";
  if (s->kind == 0) {
    auto working = Working::mkdir(s->where, &s->error);
    s->opt = "tokenizer:name:utf8 " + x + " " + f;
    while (s->opt.back() == ' ')
      s->opt.pop_back();
    s->builder = SimpleBuilder::make(working, s->opt, &s->error);
    c.expect(s->builder != nullptr, "json-make", s->opt + ": " + s->error);
    s->scribe = Scribe::make(s->builder, &s->error);
  } else if (s->kind == 1) {
    s->opt = x + (x != "" && f != "" ? " " : "") + f;
    auto b = Bigwig::make(s->where, s->opt, &s->error);
    c.expect(b != nullptr, "json-make", s->opt + ": " + s->error);
    b->merge(c.rng.chance(0.5));
    s->w = b;
    s->scribe = Scribe::make(s->w, &s->error);
  } else {
    auto feat = Featurizer::make("hashing", "");
    if (s->json_features)
      feat = Featurizer::make("json", freeze(std::map<std::string, std::string>{{"name", "hashing"}, {"recipe", ""}}), &s->error);
    auto b = Bigwig::make(nullptr, feat, Tokenizer::make("utf8", ""), &s->error);
    c.expect(b != nullptr, "json-make", s->error);
    b->merge(c.rng.chance(0.5));
    s->w = b;
    s->scribe = Scribe::make(s->w, &s->error);
  }
  c.expect(s->scribe != nullptr, "json-make", s->error);
}

void settle(Store *s, size_t base) {
  if (s->kind == 0)
    return;
  std::dynamic_pointer_cast<Bigwig>(s->w)->merge(false);
  for (int i = 0; i < 40000 && vh::thread_count() > base; i++)
    usleep(500);
}

void finish(vh::Ctx &c, Store *s, size_t base, Load &l) {
  if (s->kind == 0) {
    c.expect(s->scribe->finalize(&s->error), "json-finalize", s->error);
    s->scribe = nullptr;
    s->builder = nullptr;
    s->w = Warren::make(s->where, &s->error);
    c.expect(s->w != nullptr, "json-open", s->error);
    check(c, s->w, l, 0, s->json_txt, s->json_features, "static, " + s->opt);
    auto x = s->w->clone(&s->error);
    c.expect(x != nullptr, "json-clone", s->error);
    check(c, x, l, 0, s->json_txt, s->json_features, "static copy, " + s->opt);
  } else {
    check(c, s->w, l, 0, s->json_txt, s->json_features, "dynamic, " + s->opt);
    settle(s, base);
    if (s->kind == 1 && c.rng.chance(0.5)) {
      s->scribe = nullptr;
      s->w = nullptr;
      s->w = Warren::make(s->where, &s->error);
      c.expect(s->w != nullptr, "json-open", s->error);
      check(c, s->w, l, 0, s->json_txt, s->json_features, "dynamic reopened, " + s->opt);
      settle(s, base);
    } else {
      check(c, s->w, l, 0, s->json_txt, s->json_features, "dynamic settled, " + s->opt);
    }
  }
}

VH_MODE(json, true) {
  size_t base = vh::base_threads();
  Store s;
  make_store(c, &s);
  auto tok = Tokenizer::make("utf8", "");
  Load l;
  size_t n = 1 + c.rng.below(4);
  std::string all;
  for (size_t i = 0; i < n; i++) {
    c.expect(s.scribe->transaction(&s.error), "json-transaction", s.error);
    Load before = l;
    size_t m = 1 + c.rng.below(4);
    addr stage = 0;
    bool started = false;
    std::vector<J> docs;
    addr rel = 0;
    Anns fresh;
    for (size_t k = 0; k < m; k++) {
      J j = gen_json(c, 5);
      std::string text = write_json(c, j, false);
      if (c.rng.chance(0.25)) { // damaged: refused, and nothing is kept of it
        std::string bad = text;
        switch (c.rng.below(5)) {
        case 0: bad = text.substr(0, c.rng.below(text.size())); break;
        case 1: bad = text + c.rng.pick(std::vector<std::string>{"x", "]", "{}", "\x01"}); break;
        case 2: bad = "[" + text + ",]"; break;
        case 3: bad = c.rng.pick(std::vector<std::string>{"[1e400]", "{\"a\":-1e999}", "[\"\\ud800\"]", "[\"\xC3\"]", "[\"a\tb\"]", "{1:2}", "[01]", "nul", "", " ", "[\"\xED\xA0\x80\"]"}); break;
        default: bad = "{\"a\":" + text + ",\"b\"}";
        }
        bool valid = nlohmann::json::accept(bad);
        if (!valid) {
          addr p = -77, q = -77;
          s.error = "";
          if (json_scribe(bad, s.scribe, &p, &q, &s.error))
            c.fail("json-accept", "'" + vh::show(bad, 300) + "' was accepted");
          if (s.error == "")
            c.fail("json-error", "'" + vh::show(bad, 300) + "' was refused without a reason");
          c.count("refused");
        }
      }
      addr p, q;
      if (!json_scribe(text, s.scribe, &p, &q, &s.error))
        c.fail("json-refused", "'" + vh::show(text, 400) + "': " + s.error);
      addr at = rel;
      place(j, ":", &at, &fresh, &l.words, tok);
      if (!started) {
        stage = p - rel;
        started = true;
      }
      if (p != stage + rel || q != stage + at - 1)
        c.fail("json-address", vh::fmt("stored at [%ld,%ld], expected [%ld,%ld]: %s", (long)p, (long)q, (long)(stage + rel), (long)(stage + at - 1), vh::show(text, 300).c_str()));
      rel = at;
      docs.push_back(j);
      all += text;
      c.count("documents");
    }
    if (s.kind != 0 && c.rng.chance(0.2)) {
      s.scribe->abort();
      l = before;
      continue;
    }
    c.expect(s.scribe->ready(&s.error), "json-ready", s.error);
    s.scribe->commit();
    for (auto &d : docs) {
      shift(d, l.at);
      l.docs.push_back(d);
    }
    for (auto &a : fresh)
      for (auto &iv : a.second)
        l.anns[a.first].push_back({iv.p + l.at, iv.q + l.at, iv.v, {}});
    l.at += rel;
    if (s.kind != 0 && c.rng.chance(0.4))
      check(c, s.w, l, 0, s.json_txt, s.json_features, "midway, " + s.opt);
  }
  if (l.docs.empty() && s.kind == 0)
    return;
  finish(c, &s, base, l);
  if (l.docs.size() > 1)
    c.nontrivial(vh::hash_str(all, s.kind));
  c.sample(vh::fmt("%zu documents, %ld tokens, %s", l.docs.size(), (long)l.at, s.opt.c_str()));
}

VH_MODE(jsonl, true) {
  size_t base = vh::base_threads();
  Store s;
  make_store(c, &s);
  auto tok = Tokenizer::make("utf8", "");
  Load l;
  std::string all;
  size_t calls = 1 + c.rng.below(3);
  for (size_t i = 0; i < calls; i++) {
    std::vector<std::string> files;
    Load next = l;
    size_t bad = SIZE_MAX, n = 1 + c.rng.below(3);
    if (s.kind != 0 && c.rng.chance(0.3))
      bad = c.rng.below(n);
    Load kept;
    for (size_t f = 0; f < n; f++) {
      bool gz = c.rng.chance(0.15), damaged = false;
      std::string name = c.dir + vh::fmt("/f%zu-%zu.jsonl", i, f) + (gz ? vh::packed_name(c.rng) : ""), text;
      size_t m = c.rng.below(6);
      addr first = next.at;
      std::vector<std::string> lines;
      for (size_t k = 0; k < m; k++) {
        J j = gen_json(c, 4);
        lines.push_back(write_json(c, j, true));
        place(j, ":", &next.at, &next.anns, &next.words, tok);
        next.docs.push_back(j);
        c.count("lines");
      }
      if (next.at > first)
        next.anns[name].push_back({first, next.at - 1, 0.0, {}});
      if (f == bad) {
        kept = l;
        if (c.rng.chance(0.3)) {
          name = c.dir + "/missing";
          lines.clear();
        } else if (gz && c.rng.chance(0.5)) {
          damaged = true;
        } else {
          lines.insert(lines.begin() + (long)c.rng.below(lines.size() + 1), c.rng.pick(std::vector<std::string>{"{", "[1e999]", "x", "{\"a\":1}}"}));
        }
      }
      for (size_t k = 0; k < lines.size(); k++)
        text += lines[k] + (k + 1 < lines.size() || c.rng.chance(0.6) ? "\n" : "");
      if (gz && name != c.dir + "/missing")
        vh::packed(c, name, text, damaged);
      else if (name != c.dir + "/missing")
        vh::spit(name, text);
      files.push_back(name);
      all += text;
      if (f < bad)
        l = next;
    }
    s.error = "";
    bool ok = scribe_jsonl(files, s.scribe, &s.error);
    if (ok != (bad == SIZE_MAX))
      c.fail("jsonl-result", vh::fmt("loading %zu files %s: %s", n, ok ? "succeeded" : "failed", s.error.c_str()));
    c.count(ok ? "loads" : "loads_refused");
    if (s.kind != 0)
      check(c, s.w, l, 0, s.json_txt, s.json_features, vh::fmt("after load %zu, %s", i, s.opt.c_str()));
  }
  if (l.docs.empty() && s.kind == 0)
    return;
  finish(c, &s, base, l);
  if (l.docs.size() > 1)
    c.nontrivial(vh::hash_str(all, s.kind));
}

// text files, one transaction each
VH_MODE(files, true) {
  size_t base = vh::base_threads();
  Store s;
  make_store(c, &s);
  if (s.json_txt || s.json_features)
    return;
  auto tok = Tokenizer::make("utf8", "");
  struct F { addr p, m, q; std::string name, text; };
  std::vector<F> files;
  addr at = 0;
  size_t calls = 1 + c.rng.below(3);
  for (size_t i = 0; i < calls; i++) {
    std::vector<std::string> names;
    size_t n = 1 + c.rng.below(3), bad = s.kind != 0 && c.rng.chance(0.3) ? c.rng.below(n) : SIZE_MAX;
    for (size_t f = 0; f < n; f++) {
      F x;
      x.name = c.dir + vh::fmt("/g%zu-%zu", i, f) + (c.rng.chance(0.2) ? "" : ".txt");
      bool gz = c.rng.chance(0.15);
      if (gz)
        x.name += vh::packed_name(c.rng);
      size_t m = 1 + c.rng.below(30);
      for (size_t k = 0; k < m; k++)
        x.text += c.rng.pick(std::vector<std::string>{"word", "other", "caf\xC3\xA9", "<b>", "\n", ".", " \xE4\xB8\x80 "}) + (c.rng.chance(0.8) ? " " : "\n");
      x.text += "end";
      if (gz && (f != bad || c.rng.chance(0.5)))
        vh::packed(c, x.name, x.text, f == bad);
      else if (f != bad)
        vh::spit(x.name, x.text);
      else
        x.name += ".missing";
      names.push_back(x.name);
      if (f < bad) {
        x.p = at;
        x.m = at + (addr)tok->split(x.name).size();
        x.q = x.m + (addr)tok->split(x.text).size() - 1;
        at = x.q + 1;
        files.push_back(x);
      }
    }
    s.error = "";
    bool ok = scribe_files(names, s.scribe, &s.error);
    if (ok != (bad == SIZE_MAX))
      c.fail("files-result", vh::fmt("loading %zu files %s: %s", n, ok ? "succeeded" : "failed", s.error.c_str()));
    c.count(ok ? "loads" : "loads_refused");
  }
  if (files.empty())
    return;
  if (s.kind == 0) {
    c.expect(s.scribe->finalize(&s.error), "files-finalize", s.error);
    s.scribe = nullptr;
    s.builder = nullptr;
    s.w = Warren::make(s.where, &s.error);
    c.expect(s.w != nullptr, "files-open", s.error);
  }
  s.w->start();
  if (s.w->txt()->tokens() != at)
    c.fail("files-tokens", vh::fmt("%ld tokens, expected %ld", (long)s.w->txt()->tokens(), (long)at));
  for (auto &kind : {"file:", "filename:", "content:"}) {
    auto h = s.w->idx()->hopper(s.w->featurizer()->featurize(kind));
    addr k = minfinity + 1, p, q;
    std::string name = kind;
    for (size_t i = 0; i <= files.size(); i++) {
      h->tau(k, &p, &q);
      k = p < maxfinity ? p + 1 : p;
      addr ep = i == files.size() ? maxfinity : name == "content:" ? files[i].m : files[i].p;
      addr eq = i == files.size() ? maxfinity : name == "filename:" ? files[i].m - 1 : files[i].q;
      if (p != ep || q != eq)
        c.fail("files-annotation", vh::fmt("%s %zu is [%ld,%ld], expected [%ld,%ld]", kind, i, (long)p, (long)q, (long)ep, (long)eq));
      if (i < files.size() && name == "content:") {
        std::string t = s.w->txt()->translate(p, q);
        // separators at either end may or may not be part of it
        std::string have = flat(t), want = flat(files[i].text);
        bool ok = false;
        for (size_t skip = 0; !ok && skip < want.size() && tok->split(want.substr(0, skip)).empty(); skip++) {
          std::string rest = want.substr(skip);
          while (!rest.empty() && rest.back() == ' ')
            rest.pop_back();
          ok = have.compare(0, rest.size(), rest) == 0 && tok->split(have.substr(rest.size())).empty();
        }
        if (!ok)
          c.fail("files-text", "'" + vh::show(t, 300) + "' expected '" + vh::show(files[i].text, 300) + "'");
        c.count("files_read_back");
      }
    }
  }
  s.w->end();
  settle(&s, base);
  std::string all;
  for (auto &f : files)
    all += f.text;
  c.nontrivial(vh::hash_str(all, s.kind));
}
} // namespace
