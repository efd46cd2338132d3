// Reference model of minimal-interval ("generalized concordance") lists and of
// the query algebra over them.  Deliberately naive: sets of intervals, no
// navigation tricks.
#ifndef VH_MODEL_H_
#define VH_MODEL_H_
#include "src/core.h"
#include "src/hopper.h"
#include "vh.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace model {
using cottontail::addr;
using cottontail::fval;
using cottontail::maxfinity;
using cottontail::minfinity;

struct IV {
  addr p, q;
  fval v;
  std::vector<fval> alt; // other values written for exactly this interval
};
typedef std::vector<IV> GL;

inline bool same_bits(fval a, fval b) { return cottontail::fval2addr(a) == cottontail::fval2addr(b); }
inline bool value_ok(const IV &i, fval v) {
  if (same_bits(i.v, v) || i.v == v)
    return true;
  for (fval a : i.alt)
    if (same_bits(a, v) || a == v)
      return true;
  return false;
}

// minimal intervals: drop every interval that strictly contains another;
// exact duplicates become one (remembering every value written)
inline GL reduce(std::vector<IV> in) {
  std::sort(in.begin(), in.end(), [](const IV &a, const IV &b) { return a.q < b.q || (a.q == b.q && a.p > b.p); });
  GL out;
  // sweep by increasing q, decreasing p: keep when p greater than every p kept
  bool have = false;
  addr maxp = 0;
  for (auto &i : in) {
    if (i.p > i.q)
      continue;
    if (!out.empty() && out.back().p == i.p && out.back().q == i.q) {
      out.back().alt.push_back(i.v);
      for (fval a : i.alt)
        out.back().alt.push_back(a);
      continue;
    }
    if (!have || i.p > maxp) {
      out.push_back(i);
      maxp = i.p;
      have = true;
    }
  }
  return out;
}
inline bool is_gl(const GL &g) {
  for (size_t i = 0; i < g.size(); i++) {
    if (g[i].p > g[i].q)
      return false;
    if (i && (g[i].p <= g[i - 1].p || g[i].q <= g[i - 1].q))
      return false;
  }
  return true;
}

struct Ans {
  addr p, q;
  const IV *iv;
};
// first interval starting at or after k
inline Ans tau(const GL &g, addr k) {
  if (k == minfinity)
    return {minfinity, minfinity, nullptr};
  auto it = std::lower_bound(g.begin(), g.end(), k, [](const IV &a, addr k) { return a.p < k; });
  if (it == g.end())
    return {maxfinity, maxfinity, nullptr};
  return {it->p, it->q, &*it};
}
// first interval ending at or after k
inline Ans rho(const GL &g, addr k) {
  if (k == minfinity)
    return {minfinity, minfinity, nullptr};
  auto it = std::lower_bound(g.begin(), g.end(), k, [](const IV &a, addr k) { return a.q < k; });
  if (it == g.end())
    return {maxfinity, maxfinity, nullptr};
  return {it->p, it->q, &*it};
}
// last interval ending at or before k
inline Ans uat(const GL &g, addr k) {
  if (k == maxfinity)
    return {maxfinity, maxfinity, nullptr};
  auto it = std::upper_bound(g.begin(), g.end(), k, [](addr k, const IV &a) { return k < a.q; });
  if (it == g.begin())
    return {minfinity, minfinity, nullptr};
  --it;
  return {it->p, it->q, &*it};
}
// last interval starting at or before k
inline Ans ohr(const GL &g, addr k) {
  if (k == maxfinity)
    return {maxfinity, maxfinity, nullptr};
  auto it = std::upper_bound(g.begin(), g.end(), k, [](addr k, const IV &a) { return k < a.p; });
  if (it == g.begin())
    return {minfinity, minfinity, nullptr};
  --it;
  return {it->p, it->q, &*it};
}

enum Op { TERM, FIXED, OR, AND, SEQ, IN, HAS, NIN, NHAS, LINK, MAT };

struct Expr {
  Op op;
  std::string term;
  addr width = 0;
  std::vector<std::shared_ptr<Expr>> k;
  std::string str() const {
    static const char *names[] = {"", "#", "+", "^", "...", "<<", ">>", "!<", "!>", "@", "materialize"};
    if (op == TERM)
      return term;
    if (op == FIXED)
      return "(# " + std::to_string(width) + ")";
    std::string s = std::string("(") + names[op];
    for (auto &e : k)
      s += " " + e->str();
    return s + ")";
  }
};
typedef std::shared_ptr<Expr> EP;

inline EP term(const std::string &t) {
  auto e = std::make_shared<Expr>();
  e->op = TERM;
  e->term = t;
  return e;
}
inline EP node(Op op, std::vector<EP> k, addr width = 0) {
  auto e = std::make_shared<Expr>();
  e->op = op;
  e->k = std::move(k);
  e->width = width;
  return e;
}

inline GL binary(Op op, const GL &a, const GL &b) {
  std::vector<IV> out;
  switch (op) {
  case OR:
    for (auto &x : a)
      out.push_back({x.p, x.q, 0.0, {}});
    for (auto &x : b)
      out.push_back({x.p, x.q, 0.0, {}});
    break;
  case AND:
    for (auto &x : a)
      for (auto &y : b)
        out.push_back({std::min(x.p, y.p), std::max(x.q, y.q), 0.0, {}});
    break;
  case SEQ:
    for (auto &x : a)
      for (auto &y : b)
        if (x.q < y.p)
          out.push_back({x.p, y.q, 0.0, {}});
    break;
  case IN:
  case NIN:
    for (auto &x : a) {
      bool f = false;
      for (auto &y : b)
        f |= y.p <= x.p && y.q >= x.q;
      if (f == (op == IN))
        out.push_back(x);
    }
    return out;
  case HAS:
  case NHAS:
    for (auto &x : a) {
      bool f = false;
      for (auto &y : b)
        f |= y.p >= x.p && y.q <= x.q;
      if (f == (op == HAS))
        out.push_back(x);
    }
    return out;
  default:
    abort();
  }
  return reduce(out);
}

struct Env {
  std::map<std::string, GL> lists;
  addr lo, hi; // window in which fixed-width intervals are enumerated
};

inline GL eval(const EP &e, const Env &env) {
  switch (e->op) {
  case TERM: {
    auto it = env.lists.find(e->term);
    return it == env.lists.end() ? GL() : it->second;
  }
  case FIXED: {
    GL g;
    for (addr p = env.lo; p + e->width - 1 <= env.hi; p++)
      g.push_back({p, p + e->width - 1, 0.0, {}});
    return g;
  }
  case MAT:
    return eval(e->k[0], env);
  case LINK: {
    GL x = eval(e->k[0], env);
    std::set<addr> s;
    for (auto &i : x) {
      addr a = cottontail::fval2addr(i.v);
      if (a > minfinity && a < maxfinity)
        s.insert(a);
    }
    GL g;
    for (addr a : s)
      g.push_back({a, a, 0.0, {}});
    return g;
  }
  default: {
    GL acc = eval(e->k[0], env);
    for (size_t i = 1; i < e->k.size(); i++)
      acc = binary(e->op, acc, eval(e->k[i], env));
    return acc;
  }
  }
}

inline std::string show(const GL &g, size_t n = 12) {
  std::string s = "{";
  for (size_t i = 0; i < g.size() && i < n; i++)
    s += vh::fmt("[%ld,%ld]", (long)g[i].p, (long)g[i].q);
  if (g.size() > n)
    s += vh::fmt("..%zu", g.size());
  return s + "}";
}
inline std::string showa(addr a) {
  return a == maxfinity ? "+inf" : a == minfinity ? "-inf" : std::to_string(a);
}

// What is compared
enum { VALUES = 1, SENTINELS = 2 };

// One probe of one access method against the list.
inline void probe(vh::Ctx &c, cottontail::Hopper *h, const GL &g, int which, addr k, int flags,
                  const std::string &sig, const std::string &what) {
  addr p = 12345, q = 12345;
  fval v = 0;
  Ans a;
  static const char *nm[] = {"tau", "rho", "uat", "ohr", "L", "R"};
  switch (which) {
  case 0:
    h->tau(k, &p, &q, &v);
    a = tau(g, k);
    break;
  case 1:
    h->rho(k, &p, &q, &v);
    a = rho(g, k);
    break;
  case 2:
    h->uat(k, &p, &q, &v);
    a = uat(g, k);
    break;
  case 3:
    h->ohr(k, &p, &q, &v);
    a = ohr(g, k);
    break;
  case 4: { // L: start of the last interval ending by k
    p = h->L(k);
    a = uat(g, k);
    q = a.q;
    break;
  }
  default:
    q = h->R(k);
    a = tau(g, k);
    p = a.p;
    break;
  }
  if (p != a.p || q != a.q)
    c.fail(sig + ":" + nm[which], vh::fmt("%s(%s) gave [%s,%s], the solution list says [%s,%s]; ", nm[which],
                                          showa(k).c_str(), showa(p).c_str(), showa(q).c_str(), showa(a.p).c_str(),
                                          showa(a.q).c_str()) +
                                      what + " list=" + show(g));
  if ((flags & VALUES) && which < 4 && a.iv && !value_ok(*a.iv, v))
    c.fail(sig + ":value", vh::fmt("%s(%s) = [%s,%s] gave value %.17g, stored %.17g; ", nm[which], showa(k).c_str(),
                                   showa(p).c_str(), showa(q).c_str(), v, a.iv->v) +
                               what);
}

// keys worth probing around a list
inline addr key(vh::Rng &r, const GL &g, addr lo, addr hi) {
  if (!g.empty() && r.chance(0.7)) {
    const IV &i = g[r.below(g.size())];
    addr b = r.chance(0.5) ? i.p : i.q;
    return b + r.range(-2, 2);
  }
  if (r.chance(0.1))
    return r.chance(0.5) ? minfinity + 1 : maxfinity - 1;
  return r.range(lo, hi);
}

// full enumeration in all four directions plus n random probes
inline void check_hopper(vh::Ctx &c, cottontail::Hopper *h, const GL &g, addr lo, addr hi, size_t n, int flags,
                         const std::string &sig, const std::string &what) {
  bool enumerate = c.rng.chance(0.5);
  size_t total = 0;
  for (int round = 0; round < 2; round++) {
    if (enumerate == (round == 0)) {
      int dir = (int)c.rng.below(4);
      size_t cap = g.size() + 2;
      addr k = dir < 2 ? minfinity + 1 : maxfinity - 1;
      for (size_t i = 0; i < cap; i++) {
        probe(c, h, g, dir, k, flags, sig, what);
        total++;
        Ans a = dir == 0 ? tau(g, k) : dir == 1 ? rho(g, k) : dir == 2 ? uat(g, k) : ohr(g, k);
        if (!a.iv)
          break;
        k = dir == 0 ? a.p + 1 : dir == 1 ? a.q + 1 : dir == 2 ? a.q - 1 : a.p - 1;
      }
    } else {
      addr k = key(c.rng, g, lo, hi);
      for (size_t i = 0; i < n; i++) {
        int w = (int)c.rng.below(6);
        if (c.rng.chance(0.6))
          k = key(c.rng, g, lo, hi);
        else
          k = std::max<addr>(minfinity + 10, std::min<addr>(maxfinity - 10, k)) + c.rng.range(-3, 6);
        if ((flags & SENTINELS) && c.rng.chance(0.02))
          k = c.rng.chance(0.5) ? minfinity : maxfinity;
        else if (k == minfinity || k == maxfinity)
          k = 0;
        probe(c, h, g, w, k, flags, sig, what);
        total++;
      }
    }
  }
  c.count("access_calls_checked", total);
}
} // namespace model
#endif
