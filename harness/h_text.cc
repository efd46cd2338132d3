// Tokenizers against independent reference tokenizers (T01), and the text of
// a store given back byte for byte for arbitrary bytes (T02).
#include "model.h"
#include "unitable.inc"
#include "src/appender.h"
#include "src/annotator.h"
#include "src/bigwig.h"
#include "src/builder.h"
#include "src/cottontail.h"
#include "src/featurizer.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/simple_builder.h"
#include "src/simple_warren.h"
#include "src/tokenizer.h"
#include "src/working.h"
#include <algorithm>
#include <unistd.h>
using namespace cottontail;

namespace {

struct Tok {
  addr a;
  size_t off, len;
  std::vector<std::string> forms; // indexed forms, as given first
  std::string term;               // what split() says
};

bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
bool alnum(char c) { return alpha(c) || (c >= '0' && c <= '9'); }
std::string lower(std::string s) {
  for (char &c : s)
    if (c >= 'A' && c <= 'Z')
      c += 32;
  return s;
}

// The ASCII tokenizer as documented: runs of letters and digits, lower cased;
// a run with a capital after its first letter is indexed as written as well.
// With xml, <name ...> within a line is one token and &...; is skipped.
std::vector<Tok> ref_ascii(const std::string &s, bool xml) {
  std::vector<Tok> out;
  size_t i = 0, n = s.size();
  auto at = [&](size_t k) { return k < n ? s[k] : '\n'; };
  while (i < n) {
    if (alnum(s[i])) {
      size_t j = i;
      bool cap = false;
      while (j < n && alnum(s[j])) {
        cap = cap || (j > i && s[j] >= 'A' && s[j] <= 'Z');
        j++;
      }
      Tok t{(addr)out.size(), i, j - i, {}, ""};
      std::string w = s.substr(i, j - i);
      if (cap)
        t.forms.push_back(w);
      t.forms.push_back(lower(w));
      t.term = t.forms[0];
      out.push_back(t);
      i = j;
      continue;
    }
    if (xml && s[i] == '<') {
      size_t j = i + 1;
      if (at(j) == '/')
        j++;
      if (alpha(at(j)) || at(j) == '_') {
        size_t name = j;
        while (j < n && (alnum(s[j]) || s[j] == '-' || s[j] == '_' || s[j] == '.'))
          j++;
        (void)name;
        size_t k = j;
        while (k < n && s[k] != '>' && s[k] != '\n')
          k++;
        if (k < n && s[k] == '>') {
          std::string tag = s.substr(i, j - i) + ">";
          out.push_back({(addr)out.size(), i, k + 1 - i, {tag}, tag});
          i = k + 1;
          continue;
        }
      }
    } else if (xml && s[i] == '&') {
      size_t k = i + 1;
      while (k < n && s[k] != ' ' && s[k] != '\n' && s[k] != ';')
        k++;
      if (k < n && s[k] == ';') {
        i = k + 1;
        continue;
      }
    }
    i++;
  }
  return out;
}

int uni_class(uint32_t cp) {
  if (cp >= 0x110000)
    return 0;
  size_t lo = 0, hi = sizeof(UNI) / sizeof(UNI[0]);
  while (hi - lo > 1) {
    size_t m = (lo + hi) / 2;
    if (UNI[m].cp <= cp)
      lo = m;
    else
      hi = m;
  }
  return UNI[lo].k;
}
std::string enc(uint32_t cp) {
  std::string s;
  if (cp < 0x80)
    s += (char)cp;
  else if (cp < 0x800) {
    s += (char)(0xC0 | (cp >> 6));
    s += (char)(0x80 | (cp & 63));
  } else if (cp < 0x10000) {
    s += (char)(0xE0 | (cp >> 12));
    s += (char)(0x80 | ((cp >> 6) & 63));
    s += (char)(0x80 | (cp & 63));
  } else {
    s += (char)(0xF0 | (cp >> 18));
    s += (char)(0x80 | ((cp >> 12) & 63));
    s += (char)(0x80 | ((cp >> 6) & 63));
    s += (char)(0x80 | (cp & 63));
  }
  return s;
}
std::string fold(uint32_t cp) {
  size_t lo = 0, hi = sizeof(FOLD) / sizeof(FOLD[0]);
  while (hi - lo > 1) {
    size_t m = (lo + hi) / 2;
    if (FOLD[m].from <= cp)
      lo = m;
    else
      hi = m;
  }
  return enc(FOLD[lo].from == cp ? FOLD[lo].to : cp);
}

// The UTF-8 tokenizer: runs of letters, marks and numbers, case folded;
// ideographs and symbols one by one; ill-formed bytes separate.
std::vector<Tok> ref_utf8(const std::string &s) {
  std::vector<Tok> out;
  size_t i = 0, n = s.size();
  bool run = false;
  while (i < n) {
    unsigned char b = s[i];
    size_t len = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0;
    uint32_t cp = 0x20;
    bool ok = len > 0 && i + len <= n;
    for (size_t k = 1; ok && k < len; k++)
      ok = ((unsigned char)s[i + k] & 0xC0) == 0x80;
    if (!ok)
      len = 1;
    else if (len == 1)
      cp = b;
    else {
      cp = b & (0x7F >> len);
      for (size_t k = 1; k < len; k++)
        cp = cp << 6 | ((unsigned char)s[i + k] & 0x3F);
    }
    int k = uni_class(cp);
    if (k == 1 || k == 2) {
      if (!run)
        out.push_back({(addr)out.size(), i, 0, {""}, ""});
      run = true;
      out.back().len = i + len - out.back().off;
      out.back().forms[0] += k == 2 ? fold(cp) : s.substr(i, len);
    } else {
      run = false;
      if (k == 3)
        out.push_back({(addr)out.size(), i, len, {s.substr(i, len)}, ""});
    }
    i += len;
  }
  for (auto &t : out)
    t.term = t.forms[0];
  return out;
}

// does the text decode to a code point the reference has no opinion about?
bool unsure(const std::string &s) {
  size_t i = 0, n = s.size();
  while (i < n) {
    unsigned char b = s[i];
    size_t len = b < 0x80 ? 1 : (b & 0xE0) == 0xC0 ? 2 : (b & 0xF0) == 0xE0 ? 3 : (b & 0xF8) == 0xF0 ? 4 : 0;
    bool ok = len > 1 && i + len <= n;
    for (size_t k = 1; ok && k < len; k++)
      ok = ((unsigned char)s[i + k] & 0xC0) == 0x80;
    if (ok) {
      uint32_t cp = b & (0x7F >> len);
      for (size_t k = 1; k < len; k++)
        cp = cp << 6 | ((unsigned char)s[i + k] & 0x3F);
      // beyond the last code point the table's treatment is its own business
      if (cp >= 0x110000 || uni_class(cp) == 9)
        return true;
      i += len;
    } else
      i++;
  }
  return false;
}

uint32_t random_cp(vh::Rng &r) {
  for (;;) {
    uint32_t cp;
    switch (r.below(9)) {
    case 0: cp = 0x20 + r.below(0x60); break;
    case 1: cp = 0x80 + r.below(0x780); break;
    case 2: cp = 0x800 + r.below(0xF800); break;
    case 3: cp = 0x10000 + r.below(0x100000); break;
    case 4: cp = 0x4E00 + r.below(0x5000); break;
    case 5: cp = FOLD[r.below(sizeof(FOLD) / sizeof(FOLD[0]))].from; break;
    case 6: cp = UNI[r.below(sizeof(UNI) / sizeof(UNI[0]))].cp - r.below(2); break;
    case 7: cp = r.pick(std::vector<uint32_t>{0xFDD0, 0xFDEF, 0xFFFE, 0xFFFF, 0x1FFFE, 0x10FFFF, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0x10000}); break;
    default: cp = r.below(0x3000); break;
    }
    if (cp < 0x110000 && uni_class(cp) != 9)
      return cp;
  }
}

// arbitrary text made of the things that matter to tokenizers
std::string random_text(vh::Rng &r, bool utf8, size_t pieces, bool nul = true) {
  static const char *bits[] = {"a", "B", "the", "BBC", "iPhone", "X9", "7", "<a>", "</a>", "<b x=1>", "<_q.r-s t>", "<", ">", "</", "<1>", "< a>", "&amp;", "&", ";", "&x y;", "&lt", "\n", " ", "\t", "\r", "-", "'", ".", "_", "<doc\n>", "<a\tb>", "&a\tb;", "&&;", "<a<b>", "<>", "z<c>z", "\"", "\\"};
  std::string s;
  int flavour = (int)r.below(4);
  for (size_t i = 0; i < pieces; i++) {
    int k = (int)r.below(10);
    if (utf8 ? k < 5 : k < 1) {
      s += enc(random_cp(r));
    } else if (k < 8) {
      s += bits[r.below(sizeof(bits) / sizeof(bits[0]))];
    } else if (k == 8 && flavour) {
      s += flavour == 1 ? std::string(1, (char)(nul ? r.below(256) : 1 + r.below(255))) : std::string(1, "\xC3\xE9\xF0\x80\xBF\xFF\xC0\xE0"[r.below(8)]);
    } else {
      s += r.chance(0.6) ? " " : "\n";
    }
  }
  return s;
}

void compare(vh::Ctx &c, std::shared_ptr<Tokenizer> tk, std::shared_ptr<Featurizer> f, const std::string &text, const std::vector<Tok> &want, const std::string &sig) {
  std::string shown = " in '" + vh::show(text, 300) + "'";
  std::vector<Token> got;
  std::unique_ptr<char[]> exact(new char[text.size() ? text.size() : 1]);
  memcpy(exact.get(), text.data(), text.size());
  if (c.rng.chance(0.3))
    got = tk->tokenize(f, text);
  else {
    got = tk->tokenize(f, exact.get(), text.size());
    if (!tk->destructive() && memcmp(exact.get(), text.data(), text.size()))
      c.fail(sig + "-input", "tokenizing changed its input" + shown);
    memcpy(exact.get(), text.data(), text.size());
  }
  size_t g = 0;
  for (auto &t : want)
    for (auto &form : t.forms) {
      if (g >= got.size())
        c.fail(sig + "-missing", vh::fmt("token %ld missing (%zu entries)", (long)t.a, got.size()) + shown);
      if (got[g].address != t.a || got[g].offset != t.off || got[g].length != t.len)
        c.fail(sig + "-place", vh::fmt("entry %zu is address %ld offset %zu length %zu, expected %ld %zu %zu", g, (long)got[g].address, (size_t)got[g].offset, (size_t)got[g].length, (long)t.a, t.off, t.len) + shown);
      if (got[g].feature != f->featurize(form))
        c.fail(sig + "-form", vh::fmt("entry %zu is not the feature of '%s'", g, vh::show(form, 60).c_str()) + shown);
      g++;
    }
  if (g != got.size())
    c.fail(sig + "-extra", vh::fmt("%zu entries, expected %zu", got.size(), g) + shown);
  auto parts = tk->split(text);
  if (parts.size() != want.size())
    c.fail(sig + "-split", vh::fmt("split into %zu terms, expected %zu", parts.size(), want.size()) + shown);
  for (size_t i = 0; i < parts.size(); i++)
    if (parts[i] != want[i].term)
      c.fail(sig + "-split", vh::fmt("term %zu is '%s', expected '%s'", i, vh::show(parts[i], 60).c_str(), vh::show(want[i].term, 60).c_str()) + shown);
  for (addr n = -1; n <= (addr)want.size() + 1; n++) {
    if (want.size() > 40 && !c.rng.chance(0.2))
      continue;
    const char *p = tk->skip(exact.get(), text.size(), n);
    size_t off = p - exact.get();
    size_t expect = n < 0 ? 0 : n < (addr)want.size() ? want[n].off : text.size();
    if (n <= 0)
      expect = want.empty() ? text.size() : want[0].off;
    if (off != expect)
      c.fail(sig + "-skip", vh::fmt("skipping %ld tokens leads to byte %zu, expected %zu", (long)n, off, expect) + shown);
    c.count("skips_checked");
  }
  c.count("tokens_compared", want.size());
}

std::shared_ptr<Tokenizer> tokenizer(vh::Ctx &c, int kind) {
  std::string err;
  auto t = kind == 2 ? Tokenizer::make("utf8", "", &err) : Tokenizer::make("ascii", kind ? "xml" : "noxml", &err);
  if (!t)
    c.fail("tok-make", err);
  return t;
}
std::vector<Tok> reference(int kind, const std::string &s) { return kind == 2 ? ref_utf8(s) : ref_ascii(s, kind == 1); }
} // namespace

VH_MODE(tokens, false) {
  int kind = (int)c.rng.below(3); // ascii, ascii with tags, utf8
  auto tk = tokenizer(c, kind);
  auto f = Featurizer::make("hashing", "");
  std::string a, b;
  do {
    size_t n = c.rng.below(c.rng.pick(std::vector<size_t>{3, 10, 30, 200}));
    a = random_text(c.rng, kind == 2, n);
    b = random_text(c.rng, kind == 2, c.rng.below(20));
  } while (kind == 2 && (unsure(a) || unsure(b)));
  c.trace("kind %d text '%s'", kind, vh::show(a, 400).c_str());
  auto ra = reference(kind, a), rb = reference(kind, b);
  const char *names[] = {"ascii", "xml", "utf8"};
  compare(c, tk, f, a, ra, names[kind]);
  // a line break keeps texts apart: the tokens of both, and nothing else
  std::string ab = a + "\n" + b;
  std::vector<Tok> both = ra;
  for (auto t : rb) {
    t.a += (addr)ra.size();
    t.off += a.size() + 1;
    both.push_back(t);
  }
  compare(c, tk, f, ab, both, std::string(names[kind]) + "-joined");
  // an indexed term, read again, is that term
  for (auto &t : ra)
    for (auto &form : t.forms) {
      auto again = tk->split(form);
      if (again.size() != 1 || again[0] != form)
        c.fail(std::string(names[kind]) + "-term", "term '" + vh::show(form, 60) + "' splits differently" + (again.empty() ? "" : " into '" + vh::show(again[0], 60) + "'"));
    }
  if (!ra.empty())
    c.nontrivial(vh::hash_str(a, kind));
  c.sample(vh::fmt("%s '%s' %zu tokens", names[kind], vh::show(a, 80).c_str(), ra.size()));
}

// every code point by itself and next to letters
VH_MODE(codepoints, false) {
  auto tk = tokenizer(c, 2);
  auto f = Featurizer::make("hashing", "");
  uint32_t base = (uint32_t)(c.id % 1088) * 1024;
  size_t n = 0;
  for (uint32_t cp = base; cp < base + 1024 && cp < 0x110000; cp++) {
    if (uni_class(cp) == 9)
      continue;
    std::string s = c.rng.chance(0.5) ? enc(cp) : c.rng.chance(0.5) ? "x" + enc(cp) + "y" : enc(cp) + enc(cp) + " " + enc(cp);
    compare(c, tk, f, s, ref_utf8(s), "codepoint");
    n++;
  }
  c.count("code_points", n);
  if (n)
    c.nontrivial(base);
}

namespace {
// What a store was given, as one text, with the place of every token
struct Given {
  int kind;
  std::string all;             // appended texts, each ended by a line break
  std::vector<size_t> off, end; // of every token
  std::vector<size_t> text_of; // which text a token is from
  std::vector<size_t> limit;   // end of each text
  std::vector<std::vector<std::string>> forms;
  std::vector<std::string> extra; // bytes of texts without tokens
  addr base = 0;
  addr add(std::string t, bool store_break) {
    auto r = reference(kind, t);
    size_t at = all.size();
    all += t;
    if (store_break && !t.empty() && t.back() != '\n')
      all += "\n";
    limit.push_back(all.size());
    for (auto &x : r) {
      off.push_back(at + x.off);
      end.push_back(at + x.off + x.len);
      text_of.push_back(limit.size() - 1);
      forms.push_back(x.forms);
    }
    return (addr)r.size();
  }
};

// [lo, hi] among the tokens the store holds; addr0 is the address of token 0
void check_text(vh::Ctx &c, Warren *w, const Given &g, addr addr0, const std::string &what) {
  addr n = (addr)g.off.size();
  addr p, q;
  c.count("stores_read");
  if (w->txt()->tokens() != n)
    c.fail("text-count", what + vh::fmt(": %ld tokens, expected %ld", (long)w->txt()->tokens(), (long)n));
  if (n == 0)
    return;
  if (!w->txt()->range(&p, &q) || p != addr0 || q != addr0 + n - 1)
    c.fail("text-range", what + vh::fmt(": range [%ld,%ld], expected [%ld,%ld]", (long)p, (long)q, (long)addr0, (long)(addr0 + n - 1)));
  for (int i = 0; i < 24; i++) {
    addr a = (addr)c.rng.below((uint64_t)n), b;
    switch (i % 4) {
    case 0: b = a; break;
    case 1: b = std::min<addr>(n - 1, a + (addr)c.rng.below(6)); break;
    case 2: b = std::min<addr>(n - 1, a + (addr)c.rng.below(80)); break;
    default: a = i == 3 ? 0 : a; b = n - 1; break;
    }
    std::string s = w->txt()->translate(addr0 + a, addr0 + b);
    // from the first token's first byte; to the next token, or, when that is
    // another text's, to somewhere between the end of this text and it
    size_t from = g.off[a];
    size_t hi = b + 1 < n ? g.off[b + 1] : g.all.size();
    size_t lo = g.limit[g.text_of[b]];
    if (b + 1 < n && g.text_of[b + 1] == g.text_of[b])
      lo = hi;
    // texts without tokens in between, and bytes before a text's first token,
    // belong to either side
    size_t early = 0;
    if (a == 0 || g.text_of[a - 1] != g.text_of[a])
      early = from - (a == 0 ? 0 : g.limit[g.text_of[a - 1]]);
    for (size_t k = 1; k <= early; k++)
      if (s.size() >= lo - from + k && s.size() <= hi - from + k && g.all.compare(from - k, s.size(), s) == 0) {
        from -= k;
        c.count("leading_separators_given_too");
        break;
      }
    if (s.size() < lo - from || s.size() > hi - from || g.all.compare(from, s.size(), s) != 0) {
      size_t k = 0;
      while (k < s.size() && from + k < g.all.size() && s[k] == g.all[from + k])
        k++;
      c.fail("text-bytes", what + vh::fmt(": text of [%ld,%ld] has %zu bytes, expected %zu to %zu, first difference at %zu: got '%s' expected '%s'", (long)a, (long)b, s.size(), lo - from, hi - from, k, vh::show(s.substr(k > 20 ? k - 20 : 0, 60), 100).c_str(), vh::show(g.all.substr(from + (k > 20 ? k - 20 : 0), 60), 100).c_str()));
    }
    c.count("ranges_translated");
    c.count("bytes_compared", s.size());
  }
  // and the words are found where the text has them
  for (int i = 0; i < 6; i++) {
    size_t a = c.rng.below(g.forms.size());
    const std::string &form = c.rng.pick(g.forms[a]);
    std::vector<addr> want;
    for (size_t k = 0; k < g.forms.size(); k++)
      if (std::find(g.forms[k].begin(), g.forms[k].end(), form) != g.forms[k].end())
        want.push_back(addr0 + (addr)k);
    auto h = w->idx()->hopper(w->featurizer()->featurize(form));
    addr at = minfinity + 1, hp, hq;
    for (size_t k = 0; k <= want.size(); k++) {
      h->tau(at, &hp, &hq);
      addr expect = k < want.size() ? want[k] : maxfinity;
      if (hp != expect)
        c.fail("text-index", what + vh::fmt(": '%s' found at %ld, expected %ld", vh::show(form, 40).c_str(), (long)hp, (long)expect));
      if (hp < maxfinity)
        at = hp + 1;
    }
    c.count("words_looked_up");
  }
}

void wait_merges(size_t base) {
  for (int i = 0; i < 20000 && vh::thread_count() > base; i++)
    usleep(i < 200 ? 50 : 1000);
}
} // namespace

VH_MODE(fidelity, true) {
  size_t base_threads = vh::base_threads();
  int kind = (int)c.rng.below(3);
  bool utf8 = kind == 2;
  auto text = [&](size_t n) {
    std::string s;
    do
      s = random_text(c.rng, utf8, n);
    while (utf8 && unsure(s));
    return s;
  };
  auto size = [&]() { return c.rng.below(c.rng.chance(0.04) ? 4000 : c.rng.chance(0.3) ? 200 : 25); };
  std::string error, dir = c.dir + "/b";
  std::string opt = kind == 2 ? "tokenizer:name:utf8" : kind == 1 ? "tokenizer:name:ascii tokenizer:xml" : "tokenizer:name:ascii tokenizer:noxml";
  if (c.rng.chance(0.5))
    opt += c.rng.chance(0.5) ? " txt:compressor:null" : " txt:compressor:zlib";
  Given g;
  g.kind = kind;
  int form = (int)c.rng.below(4); // memory, dynamic, static, large shard files
  if (form == 2) {
    auto working = Working::mkdir(dir, &error);
    auto b = SimpleBuilder::make(working, opt, &error);
    c.expect(b != nullptr, "text-builder", error + " " + opt);
    size_t n = 1 + c.rng.below(12);
    for (size_t i = 0; i < n; i++) {
      std::string t = text(size());
      addr p, q, before = (addr)g.off.size();
      addr m = g.add(t, true);
      c.expect(b->add_text(t, &p, &q, &error), "text-append", error);
      if (m ? p != before || q != before + m - 1 : q != p - 1)
        c.fail("text-address", vh::fmt("text %zu got [%ld,%ld], expected [%ld,%ld]", i, (long)p, (long)q, (long)before, (long)(before + m - 1)));
    }
    if (!b->finalize(&error)) {
      if (g.off.empty())
        return; // an empty collection is refused
      c.fail("text-finalize", error);
    }
    if (g.off.empty())
      return;
    size_t more = c.rng.below(3);
    for (size_t k = 0; k <= more; k++) {
      auto w = Warren::make(dir, &error);
      c.expect(w != nullptr, "text-open", error);
      w->start();
      check_text(c, w.get(), g, 0, vh::fmt("static, %s, after %zu additions", opt.c_str(), k));
      if (k < more) {
        auto x = w->clone(&error);
        c.expect(x != nullptr && !x->transaction(&error), "text-clone-writes", "a clone of a static collection accepted a transaction");
        w->end();
        x = w;
        c.expect(x->transaction(&error), "text-transaction", error);
        for (size_t i = 0; i < 1 + c.rng.below(3); i++) {
          std::string t = text(size());
          addr p, q;
          c.expect(x->appender()->append(t, &p, &q, &error), "text-append", error);
          g.add(t, true);
        }
        c.expect(x->ready(&error), "text-ready", error);
        x->commit();
        x = nullptr;
        w = nullptr;
      } else {
        w->end();
      }
    }
    c.count("static_collections");
  } else {
    std::shared_ptr<Bigwig> base;
    if (form == 0)
      base = Bigwig::make(nullptr, Featurizer::make("hashing", ""), tokenizer(c, kind), &error);
    else
      base = Bigwig::make(dir, opt, &error);
    c.expect(base != nullptr, "text-make", error + opt);
    base->merge(c.rng.chance(0.6));
    size_t n = 1 + c.rng.below(6);
    addr addr0 = 0;
    for (size_t i = 0; i < n; i++) {
      auto w = base->clone(&error);
      c.expect(w->transaction(&error), "text-transaction", error);
      size_t m = 1 + c.rng.below(4);
      size_t start = g.off.size();
      addr stage = -1;
      Given save = g;
      for (size_t k = 0; k < m; k++) {
        std::string t = text(size());
        if (k + 1 == m && g.off.size() == start)
          t += "\nend"; // a transaction's text has a token (others are not promised back)
        addr p, q, had = (addr)(g.off.size() - start);
        addr added = g.add(t, true);
        c.expect(w->appender()->append(t, &p, &q, &error), "text-append", error);
        if (added && stage < 0)
          stage = p - had;
        if (added ? p != stage + had || q != p + added - 1 : q != p - 1)
          c.fail("text-address", vh::fmt("text %zu of transaction %zu got %ld tokens from %ld, expected %ld from %ld", k, i, (long)(q - p + 1), (long)(p - stage), (long)added, (long)had));
      }
      if (c.rng.chance(0.2)) {
        w->abort();
        g = save;
      } else {
        c.expect(w->ready(&error), "text-ready", error);
        w->commit();
      }
      if (c.rng.chance(0.3)) {
        base->start();
        check_text(c, base.get(), g, addr0, vh::fmt("dynamic, form %d, %s, after %zu transactions", form, opt.c_str(), i + 1));
        base->end();
      }
    }
    base->merge(true);
    wait_merges(base_threads);
    base->start();
    check_text(c, base.get(), g, addr0, vh::fmt("dynamic merged, form %d, %s", form, opt.c_str()));
    base->end();
    if (form != 0) {
      base->merge(false);
      base = nullptr;
      wait_merges(base_threads);
      if (form == 3) {
        for (auto &name : vh::list_dir(dir))
          if (name.substr(0, 6) == "fiver.") {
            auto working = Working::make(dir, &error);
            auto fiver = Fiver::unpickle(name, working, Featurizer::make("hashing", ""), tokenizer(c, kind), &error);
            if (!fiver)
              continue;
            c.count("shards_seen");
          }
      }
      auto again = Bigwig::make(dir, &error);
      c.expect(again != nullptr, "text-reopen", error);
      again->start();
      check_text(c, again.get(), g, addr0, vh::fmt("dynamic reopened, %s", opt.c_str()));
      again->end();
      again->merge(false);
      again = nullptr;
      wait_merges(base_threads);
    }
    c.count(form ? "disk_stores" : "memory_stores");
  }
  if (g.off.size() > 3)
    c.nontrivial(vh::hash_str(g.all, kind * 4 + form));
  c.sample(vh::fmt("%s form %d, %zu tokens, %zu bytes", opt.c_str(), form, g.off.size(), g.all.size()));
}
