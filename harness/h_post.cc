// Compressors and posting lists: what is written is what is read (I01), and
// lists assembled from parts in any grouping are the list of the whole (I02).
#include "model.h"
#include "src/array_hopper.h"
#include "src/compressor.h"
#include "src/core.h"
#include "src/simple.h"
#include "src/simple_posting.h"
#include <fstream>
#include <sstream>
using namespace cottontail;
using namespace model;

namespace {

struct Codec {
  std::string name, recipe;
  std::shared_ptr<Compressor> c;
};
std::shared_ptr<Compressor> codec(vh::Ctx &c, const std::string &name, const std::string &recipe = "") {
  std::string err;
  auto k = Compressor::make(name, recipe, &err);
  if (!k)
    c.fail("make", "cannot make compressor '" + name + "': " + err);
  return k;
}

// lists of addresses as index entries have them (sorted), or arbitrary ones
std::vector<addr> random_addrs(vh::Rng &r, bool sorted) {
  size_t n = r.pick(std::vector<size_t>{1, 1, 2, 3, 7, 8, 9, 30, 300, 5000});
  n = 1 + r.below(n);
  std::vector<addr> a;
  int kind = (int)r.below(7);
  for (size_t i = 0; i < n; i++) {
    switch (kind) {
    case 0: a.push_back(r.range(0, 50)); break;
    case 1: a.push_back(r.range(0, 1000000)); break;
    case 2: a.push_back((addr)(r.next() >> (1 + r.below(63)))); break;
    case 3: a.push_back(sorted ? -r.range(0, 1000000) : (addr)r.next()); break;
    case 4: a.push_back(r.pick(std::vector<addr>{0, 1, 127, 128, 129, 16383, 16384, 0x3FFFFFFF, 0x40000000, 0x40000001, 0x7FFFFFFF, 0x80000000ll, 0xFFFFFFFFll, (addr)1 << 55, (addr)1 << 56, ((addr)1 << 56) - 1, maxfinity / 2, maxfinity / 2 - 1})); break;
    case 5: a.push_back(r.range(1, 0x40000000)); break;
    default: a.push_back(r.range(-40, 40)); break;
    }
  }
  if (sorted) {
    std::sort(a.begin(), a.end());
    a.erase(std::unique(a.begin(), a.end()), a.end());
  }
  return a;
}

std::string random_bytes(vh::Rng &r) {
  size_t n = 1 + r.below(r.pick(std::vector<size_t>{1, 8, 9, 100, 5000, 200000}));
  if (r.chance(0.005))
    n = 1024 * 1024 + r.below(5) - 2;
  std::string s;
  s.reserve(n);
  int kind = (int)r.below(4);
  for (size_t i = 0; i < n; i++)
    s += kind == 0 ? (char)r.next() : kind == 1 ? (char)(32 + r.below(90)) : kind == 2 ? "the cat sat on the mat "[i % 23] : (char)(r.chance(0.95) ? 0 : r.next());
  return s;
}

GL random_list(vh::Rng &r) {
  std::vector<IV> in;
  size_t n = 1 + r.below(r.pick(std::vector<size_t>{1, 2, 3, 6, 40, 400, 3000}));
  addr lo = r.chance(0.15) ? -(addr)r.below(1000) : r.chance(0.1) ? (addr)1 << r.below(60) : (addr)r.below(100);
  addr hi = lo + (addr)(1 + r.below(r.pick(std::vector<size_t>{4, 40, 1000, 10000000, (size_t)1 << 40})));
  int width = (int)r.below(3), values = (int)r.below(5);
  for (size_t i = 0; i < n; i++) {
    addr p = lo + (addr)r.below((uint64_t)(hi - lo + 1));
    addr q = width == 0 ? p : width == 1 ? p + (addr)r.below(6) : p + (addr)r.below((uint64_t)(hi - lo + 1));
    if (width == 1 && r.chance(0.9))
      q = p;
    fval v = 0.0;
    switch (values) {
    case 0: break;
    case 1: v = (fval)r.range(-5, 5); break;
    case 2: v = r.chance(0.05) ? 1.5 : 0.0; break;
    case 3: v = addr2fval((addr)(r.next() >> r.below(64))); break;
    default: v = r.unit() * 1e300; break;
    }
    in.push_back({p, q, v, {}});
  }
  GL g = reduce(in);
  for (auto &i : g)
    i.alt.clear();
  return g;
}

bool same_value(fval a, fval b) { return same_bits(a, b) || a == b; }

void same_list(vh::Ctx &c, std::shared_ptr<SimplePosting> p, const GL &g, addr feature, const std::string &sig, const std::string &what) {
  if (!p)
    c.fail(sig + "-none", what + ": no list returned");
  if (p->feature() != feature)
    c.fail(sig + "-feature", what + ": wrong feature");
  std::string err;
  if (!p->invariants(&err))
    c.fail(sig + "-invariants", what + ": " + err);
  if (p->size() != g.size())
    c.fail(sig + "-size", what + vh::fmt(": %zu intervals, expected %zu", p->size(), g.size()));
  for (size_t i = 0; i < g.size(); i++) {
    addr a, b;
    fval v;
    if (!p->get(i, &a, &b, &v) || a != g[i].p || b != g[i].q)
      c.fail(sig + "-interval", what + vh::fmt(": interval %zu is (%" PRId64 ",%" PRId64 "), expected (%" PRId64 ",%" PRId64 ")", i, a, b, g[i].p, g[i].q));
    if (!value_ok(g[i], v))
      c.fail(sig + "-value", what + vh::fmt(": value of interval %zu is %g, expected %g", i, v, g[i].v));
  }
  addr a, b;
  fval v;
  if (p->get(g.size(), &a, &b, &v))
    c.fail(sig + "-end", what + ": get past the end succeeds");
  c.count("intervals_compared", g.size());
}

const std::vector<std::pair<std::string, std::string>> POST = {{"post", ""}, {"zlib", ""}, {"null", ""}, {"bad", ""}, {"tfdf", ""}, {"", ""}};
const std::vector<std::pair<std::string, std::string>> FVAL = {{"zlib", ""}, {"post", ""}, {"null", ""}, {"tfdf", ""}, {"bad", ""}};
const std::vector<std::pair<std::string, std::string>> TEXT = {{"zlib", ""}, {"null", ""}, {"bad", ""}};

std::shared_ptr<SimplePosting> make_posting(std::shared_ptr<SimplePostingFactory> f, addr feature, const GL &g) {
  auto p = f->posting_from_feature(feature);
  for (auto &i : g)
    p->push(i.p, i.q, i.v);
  return p;
}

uint64_t hash_gl(const GL &g) {
  uint64_t h = 7;
  for (auto &i : g)
    h = vh::mix(h ^ (uint64_t)i.p * 3 ^ (uint64_t)i.q * 7 ^ (uint64_t)fval2addr(i.v));
  return h;
}

} // namespace

VH_MODE(codec, false) {
  int what = (int)c.rng.below(3);
  auto nm = what == 0 ? c.rng.pick(POST) : what == 1 ? c.rng.pick(FVAL) : c.rng.pick(TEXT);
  auto k = codec(c, nm.first, nm.second);
  if (k->name() != nm.first || k->recipe() != nm.second)
    c.fail("codec-name", "compressor made as '" + nm.first + "' calls itself '" + k->name() + "'");
  std::string in;
  if (what == 2) {
    in = random_bytes(c.rng);
  } else {
    auto a = random_addrs(c.rng, what == 0 && c.rng.chance(0.7));
    in.assign((char *)a.data(), a.size() * sizeof(addr));
  }
  c.trace("compressor '%s' kind %d bytes %zu", nm.first.c_str(), what, in.size());
  size_t cap = in.size() + (size_t)k->extra((addr)in.size());
  // exact heap blocks, so that a write outside them is caught
  std::unique_ptr<char[]> src(new char[in.size()]), out(new char[cap]);
  memcpy(src.get(), in.data(), in.size());
  size_t n = k->crush(src.get(), in.size(), out.get(), cap);
  if (n == 0 || n > cap)
    c.fail("codec-size", vh::fmt("compressor '%s' turned %zu bytes into %zu with room for %zu", nm.first.c_str(), in.size(), n, cap));
  if (!k->destructive() && memcmp(src.get(), in.data(), in.size()) != 0)
    c.fail("codec-input", "compressor '" + nm.first + "' changed its input");
  std::unique_ptr<char[]> packed(new char[n]), back(new char[in.size()]);
  memcpy(packed.get(), out.get(), n);
  memset(back.get(), 0x5A, in.size());
  size_t m = k->tang(packed.get(), n, back.get(), in.size());
  if (m != in.size() || memcmp(back.get(), in.data(), in.size()) != 0)
    c.fail("codec-roundtrip", vh::fmt("compressor '%s': %zu bytes, crushed to %zu, came back as %zu bytes or different ones", nm.first.c_str(), in.size(), n, m));
  // and a second time from the same input: no hidden state
  std::unique_ptr<char[]> out2(new char[cap]);
  memcpy(src.get(), in.data(), in.size());
  size_t n2 = k->crush(src.get(), in.size(), out2.get(), cap);
  if (n2 != n || memcmp(out.get(), out2.get(), n))
    c.fail("codec-deterministic", "compressor '" + nm.first + "' gives two outputs for one input");
  c.count("codec_roundtrips_" + (nm.first.empty() ? std::string("default") : nm.first));
  c.nontrivial(vh::hash_str(nm.first + in));
  c.sample(vh::fmt("'%s' %zu -> %zu bytes", nm.first.c_str(), in.size(), n));
}

// write lists to a file and read them back in every way there is
VH_MODE(posting, true) {
  auto pn = c.rng.pick(POST), fn = c.rng.pick(FVAL);
  auto fac = SimplePostingFactory::make(codec(c, pn.first, pn.second), codec(c, fn.first, fn.second));
  c.trace("posting compressor '%s', value compressor '%s'", pn.first.c_str(), fn.first.c_str());
  size_t lists = 1 + c.rng.below(5);
  std::vector<GL> gl;
  std::vector<addr> features;
  std::vector<std::shared_ptr<SimplePosting>> ps;
  std::string all;
  std::vector<std::string> blobs;
  uint64_t h = 1;
  for (size_t i = 0; i < lists; i++) {
    gl.push_back(c.rng.chance(0.07) ? GL() : random_list(c.rng));
    features.push_back((addr)(c.rng.next() >> 1));
    std::shared_ptr<SimplePosting> p;
    int how = (int)c.rng.below(3);
    bool points = true, zero = true;
    for (auto &x : gl[i]) {
      points = points && x.p == x.q;
      zero = zero && x.v == 0.0;
    }
    if (how == 0 || gl[i].empty()) {
      p = make_posting(fac, features[i], gl[i]);
    } else if (how == 1 && points && zero) {
      std::vector<TokRecord> t;
      for (auto &x : gl[i])
        for (size_t k = 0; k < 1 + c.rng.below(2); k++)
          t.emplace_back(features[i], x.p);
      auto it = t.begin();
      p = fac->posting_from_tokens(&it, t.end());
      if (it != t.end())
        c.fail("tokens-consumed", "tokens of one feature not all used");
    } else {
      std::vector<Annotation> t;
      for (auto &x : gl[i]) {
        t.emplace_back(features[i], x.p, x.q, x.v);
        if (c.rng.chance(0.1))
          t.emplace_back(features[i], x.q + 1, x.q, 9.0); // backwards: ignored
      }
      auto it = t.begin();
      p = fac->posting_from_annotations(&it, t.end());
      if (it != t.end())
        c.fail("annotations-consumed", "annotations of one feature not all used");
    }
    same_list(c, p, gl[i], features[i], "built", vh::fmt("list %zu built in memory", i));
    std::ostringstream os;
    p->write(&os);
    blobs.push_back(os.str());
    same_list(c, p, gl[i], features[i], "written", vh::fmt("list %zu after it was written", i));
    all += blobs.back();
    ps.push_back(p);
    h = vh::mix(h ^ hash_gl(gl[i]));
  }
  vh::spit(c.dir + "/f", all);
  {
    std::fstream f(c.dir + "/f", std::ios::binary | std::ios::in);
    for (size_t i = 0; i < lists; i++) {
      auto p = fac->posting_from_file(&f);
      same_list(c, p, gl[i], features[i], "file", vh::fmt("list %zu of %zu read from a file", i, lists));
      // A list that stores a value or an end for some intervals only stores
      // neither column when it can be left out, so compare contents, and
      // compare wholly when the factory is the same.
      bool nan = false;
      for (auto &x : gl[i])
        nan = nan || x.v != x.v;
      if (!nan && !(*p == *ps[i]))
        c.fail("file-equal", "list read from a file is not equal to the one written");
      if (!gl[i].empty() && c.rng.chance(0.5)) {
        auto hop = ArrayHopper::make(p);
        check_hopper(c, hop.get(), gl[i], gl[i].front().p - 5, gl[i].back().q + 5, 10, 0, "file-hopper", "reading by position a list from a file");
      }
    }
    if (fac->posting_from_file(&f) != nullptr)
      c.fail("file-end", "a list was read past the end of the file");
    c.count("lists_read_from_file", lists);
  }
  for (size_t i = 0; i < lists; i++) {
    std::string &b = blobs[i];
    std::unique_ptr<char[]> exact(new char[b.size()]);
    memcpy(exact.get(), b.data(), b.size());
    std::string err;
    auto p = fac->posting_from_compressed_blob(exact.get(), (addr)b.size(), &err);
    same_list(c, p, gl[i], features[i], "blob", vh::fmt("list %zu from a block: ", i) + err);
    auto rec = std::make_shared<CacheRecord>();
    rec->n = (addr)gl[i].size();
    if (!fac->cache_entry_from_compressed_blob(rec, exact.get(), (addr)b.size(), &err))
      c.fail("cache", "cache entry refused: " + err);
    if (!gl[i].empty()) {
      auto hop = ArrayHopper::make(rec);
      GL g = gl[i];
      check_hopper(c, hop.get(), g, g.front().p - 5, g.back().q + 5, 10, 0, "cache-hopper", "reading by position a cache entry");
      for (size_t k = 0; k < g.size(); k += 1 + c.rng.below(20)) {
        fval v = rec->fostings ? rec->fostings.get()[k] : 0.0;
        if (rec->postings.get()[k] != g[k].p || rec->qostings.get()[k] != g[k].q || !same_value(v, g[k].v))
          c.fail("cache-content", vh::fmt("interval %zu of a cache entry differs", k));
      }
    }
    if (memcmp(exact.get(), b.data(), b.size()))
      c.fail("blob-changed", "reading a block changed it");
    // Any shorter block is refused, not misread
    for (int k = 0; k < 3; k++) {
      size_t cut = c.rng.below(b.size());
      std::unique_ptr<char[]> part(new char[cut + 1]);
      memcpy(part.get(), b.data(), cut);
      std::unique_ptr<char[]> tight(new char[cut ? cut : 1]);
      memcpy(tight.get(), b.data(), cut);
      std::string e1, e2;
      if (fac->posting_from_compressed_blob(tight.get(), (addr)cut, &e1) != nullptr)
        c.fail("blob-short", vh::fmt("a list was read from %zu of %zu bytes", cut, b.size()));
      auto r2 = std::make_shared<CacheRecord>();
      r2->n = (addr)gl[i].size();
      if (fac->cache_entry_from_compressed_blob(r2, tight.get(), (addr)cut, &e2))
        c.fail("cache-short", vh::fmt("a cache entry was read from %zu of %zu bytes", cut, b.size()));
      if (e1.empty() || e2.empty())
        c.fail("blob-silent", "a refused block has no message");
      c.count("short_blocks_refused", 2);
    }
    auto r3 = std::make_shared<CacheRecord>();
    r3->n = (addr)gl[i].size() + (c.rng.chance(0.5) || gl[i].empty() ? 1 : -1);
    if (fac->cache_entry_from_compressed_blob(r3, exact.get(), (addr)b.size(), &err))
      c.fail("cache-count", "a cache entry of the wrong length was accepted");
    c.count("blocks_read", 2);
  }
  c.nontrivial(h);
  c.sample(vh::fmt("'%s'/'%s' %zu lists, first of %zu, %zu bytes", pn.first.c_str(), fn.first.c_str(), lists, gl[0].size(), all.size()));
}

namespace {
struct Part {
  std::vector<IV> in;
};
void sort_like_store(std::vector<Annotation> &t) {
  std::stable_sort(t.begin(), t.end(), [](const Annotation &a, const Annotation &b) { return a.feature < b.feature || (a.feature == b.feature && (a.q < b.q || (a.q == b.q && a.p > b.p))); });
}
GL outer(std::vector<IV> in) {
  std::sort(in.begin(), in.end(), [](const IV &a, const IV &b) { return a.p < b.p || (a.p == b.p && a.q > b.q); });
  GL out;
  for (auto &i : in)
    if (i.p <= i.q && (out.empty() || i.q > out.back().q)) {
      i.v = 0;
      i.alt.clear();
      out.push_back(i);
    }
  return out;
}
std::string show_gl(const std::vector<IV> &g) {
  std::string s;
  for (size_t i = 0; i < g.size() && i < 12; i++)
    s += vh::fmt("(%" PRId64 ",%" PRId64 ")%g ", g[i].p, g[i].q, g[i].v);
  return s;
}
} // namespace

// One feature's intervals arrive in parts; the parts are merged in any grouping
VH_MODE(assemble, false) {
  auto pc = codec(c, c.rng.pick(POST).first), fc = codec(c, c.rng.pick(FVAL).first);
  auto fac = SimplePostingFactory::make(pc, fc);
  bool erasures = c.rng.chance(0.2);
  addr feature = erasures ? null_feature : (addr)(1 + (c.rng.next() >> 2));
  size_t parts = 1 + c.rng.below(6);
  addr span = 1 + (addr)c.rng.below(c.rng.pick(std::vector<size_t>{5, 20, 100, 5000}));
  bool disjoint = c.rng.chance(0.3), points = c.rng.chance(0.2), values = c.rng.chance(0.6);
  std::vector<IV> everything;
  std::vector<GL> lists;
  std::vector<std::shared_ptr<SimplePosting>> ps;
  addr base = c.rng.range(-10, 50);
  for (size_t i = 0; i < parts; i++) {
    std::vector<IV> in;
    size_t n = c.rng.chance(0.12) ? 0 : 1 + c.rng.below(c.rng.pick(std::vector<size_t>{1, 3, 10, 100}));
    // parts with values stand next to parts without, and values to no values
    bool valued = values && !erasures && c.rng.chance(0.75), sparse = c.rng.chance(0.3), pointy = points || c.rng.chance(0.2);
    for (size_t k = 0; k < n; k++) {
      addr p = base + (addr)c.rng.below((uint64_t)span);
      addr q = pointy ? p : p + (addr)c.rng.below((uint64_t)std::min<addr>(span, 12));
      fval v = 0.0;
      if (valued && !(sparse && c.rng.chance(0.6)))
        v = (c.rng.chance(0.3) ? -1.0 : 1.0) * (fval)(1 + c.rng.below(1000)) / (c.rng.chance(0.3) ? 7.0 : 1.0);
      in.push_back({p, q, v, {}});
    }
    if (disjoint)
      base += span + 13;
    std::vector<Annotation> t;
    for (auto &x : in)
      t.emplace_back(feature, x.p, x.q, x.v);
    std::string from;
    for (auto &x : in)
      from += vh::fmt("(%" PRId64 ",%" PRId64 ")=%g ", x.p, x.q, x.v);
    c.trace("part %zu: %s", i, from.substr(0, 300).c_str());
    sort_like_store(t);
    std::shared_ptr<SimplePosting> p;
    if (t.empty())
      p = fac->posting_from_feature(feature);
    else {
      auto it = t.begin();
      p = fac->posting_from_annotations(&it, t.end());
    }
    GL g = erasures ? outer(in) : reduce(in);
    same_list(c, p, g, feature, "part", vh::fmt("part %zu", i));
    // the value that a repeated interval keeps is the store's choice
    GL exact;
    for (size_t k = 0; k < p->size(); k++) {
      addr a, b;
      fval v;
      p->get(k, &a, &b, &v);
      exact.push_back({a, b, v, {}});
    }
    lists.push_back(exact);
    ps.push_back(p);
    everything.insert(everything.end(), exact.begin(), exact.end());
  }
  // of a repeated interval the last list's value is kept
  auto newest = [&](GL g) {
    std::map<std::pair<addr, addr>, fval> last;
    for (auto &l : lists)
      for (auto &i : l)
        last[{i.p, i.q}] = i.v;
    for (auto &i : g) {
      if (!i.alt.empty())
        c.count("repeated_intervals");
      i.alt.clear();
      i.v = last[{i.p, i.q}];
    }
    return g;
  };
  GL want = erasures ? outer(everything) : newest(reduce(everything));
  auto merged = fac->posting_from_merge(ps);
  same_list(c, merged, want, feature, "merge", vh::fmt("merge of %zu parts", parts));
  c.count("merges_checked");
  // the same in two steps, over every split into neighbouring groups
  size_t cut = c.rng.below(parts + 1);
  std::vector<std::shared_ptr<SimplePosting>> left(ps.begin(), ps.begin() + cut), right(ps.begin() + cut, ps.end()), two;
  if (!left.empty())
    two.push_back(fac->posting_from_merge(left));
  if (!right.empty())
    two.push_back(fac->posting_from_merge(right));
  auto grouped = fac->posting_from_merge(two);
  GL first;
  for (size_t k = 0; k < merged->size(); k++) {
    addr a, b;
    fval v;
    merged->get(k, &a, &b, &v);
    first.push_back({a, b, v, {}});
  }
  same_list(c, grouped, first, feature, "grouping", vh::fmt("merge in two steps, %zu of %zu parts first", cut, parts));
  // with some ranges erased
  if (!erasures) {
    std::vector<IV> ex;
    size_t n = c.rng.below(6);
    for (size_t k = 0; k < n; k++) {
      addr p = everything.empty() ? 0 : everything[c.rng.below(everything.size())].p - (addr)c.rng.below(4);
      ex.push_back({p, p + (addr)c.rng.below(c.rng.chance(0.3) ? (uint64_t)span : 8), 0.0, {}});
    }
    GL gone = outer(ex);
    auto exclude = c.rng.chance(0.1) && gone.empty() ? nullptr : make_posting(fac, null_feature, gone);
    GL kept;
    std::vector<IV> alive;
    for (auto &i : everything) {
      bool in = false;
      for (auto &e : gone)
        in = in || (e.p <= i.p && i.q <= e.q);
      if (!in)
        alive.push_back(i);
    }
    // an interval hides a wider one whether or not it is erased itself: the
    // store removes nesting before erasures
    GL lone = reduce(everything);
    for (auto &i : lone) {
      bool in = false;
      for (auto &e : gone)
        in = in || (e.p <= i.p && i.q <= e.q);
      if (!in)
        kept.push_back(i);
    }
    auto less = fac->posting_from_merge(ps, exclude);
    if (!less)
      less = fac->posting_from_feature(feature);
    kept = newest(kept);
    same_list(c, less, kept, feature, "exclude", vh::fmt("merge of %zu parts with %zu erased ranges", parts, gone.size()));
    c.count("erased_intervals", lone.size() - kept.size());
    c.count("merges_with_erasures_checked");
  }
  // appending one list to another that lies wholly before it
  if (disjoint && !erasures) {
    auto sum = fac->posting_from_feature(feature);
    for (auto &p : ps)
      sum->append(p);
    same_list(c, sum, first, feature, "append", "lists appended in order");
    c.count("appends_checked", parts);
  }
  // nothing that was merged has changed
  for (size_t i = 0; i < parts; i++)
    same_list(c, ps[i], lists[i], feature, "source", vh::fmt("part %zu after merging", i));
  if (want.size() > 1)
    c.nontrivial(hash_gl(want));
  c.sample(vh::fmt("%zu parts -> %zu intervals: ", parts, want.size()) + show_gl(want));
}
