// The search server (apps/ssr-server.cc), run as a process of its own and talked
// to over the loopback network (N01).
#define main ssr_server_main
#include "apps/ssr-server.cc"
#undef main
#include "coll.h"
#include <fcntl.h>
#include <filesystem>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>

namespace {

const int PATIENCE = 120; // seconds until a silent server counts as hung

std::string clean(std::string s) {
  for (auto &x : s)
    if (x == '\n' || x == '\r')
      x = ' ';
  return s;
}
// what is left of bytes that aren't text once sent as JSON
std::string as_json(const std::string &s) {
  return json::parse(json(s).dump(-1, ' ', false, json::error_handler_t::replace)).get<std::string>();
}

struct Hit {
  double score;
  size_t coll;
  std::string docno, snippet;
};

struct Server_ {
  vh::Ctx &c;
  pid_t pid = -1;
  int fd = -1;
  uint16_t port = 0;
  std::string err, buffer, trail;
  Server_(vh::Ctx &c) : c(c) {}
  void start(const std::vector<std::string> &args) {
    err = c.dir + "/stderr";
    fflush(nullptr);
    pid = fork();
    if (pid == 0) {
      int e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), o = open((c.dir + "/stdout").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(e, 2);
      dup2(o, 1);
      signal(SIGPIPE, SIG_DFL);
      std::vector<std::string> copy = args;
      std::vector<char *> v;
      for (auto &a : copy)
        v.push_back(&a[0]);
      v.push_back(nullptr);
      int rc = ssr_server_main((int)copy.size(), v.data());
      std::cerr << "left with " << rc << "\n";
      _exit(90);
    }
    c.expect(pid > 0, "skip:fork", "fork");
    time_t t0 = time(nullptr);
    for (;;) {
      std::string s = vh::slurp(err);
      size_t i = s.find("listening on port ");
      if (i != std::string::npos && s.find('\n', i) != std::string::npos) {
        port = (uint16_t)atoi(s.c_str() + i + 18);
        break;
      }
      alive("while starting");
      c.expect(time(nullptr) - t0 < PATIENCE, "serve:start", "the server doesn't start: " + s);
      usleep(2000);
    }
  }
  void alive(const std::string &when) {
    int st;
    if (pid > 0 && waitpid(pid, &st, WNOHANG) == pid) {
      pid = -1;
      std::string s = vh::slurp(err);
      if (s.size() > 600)
        s = s.substr(s.size() - 600);
      c.fail("serve:died", vh::fmt("the server ended (%s %d) ", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + when + ": " + trail + " :: " + s);
    }
  }
  void dial() {
    hang_up(false);
    fd = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    if (fd < 0 || connect(fd, (sockaddr *)&a, sizeof a) != 0) {
      usleep(100000);
      alive("when connected to");
      c.fail("serve:connect", std::string("cannot connect: ") + strerror(errno) + ": " + trail);
    }
    buffer.clear();
  }
  // close; with a reset, as when a client is killed with answers on their way
  void hang_up(bool reset) {
    if (fd < 0)
      return;
    if (reset) {
      linger l = {1, 0};
      setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    close(fd);
    fd = -1;
  }
  bool put(const std::string &s) {
    size_t i = 0;
    while (i < s.size()) {
      ssize_t n = send(fd, s.data() + i, s.size() - i, MSG_NOSIGNAL);
      if (n <= 0)
        return false;
      i += (size_t)n;
    }
    return true;
  }
  std::string line() {
    time_t t0 = time(nullptr);
    for (;;) {
      size_t i = buffer.find('\n');
      if (i != std::string::npos) {
        std::string s = buffer.substr(0, i);
        buffer.erase(0, i + 1);
        return s;
      }
      pollfd p = {fd, POLLIN, 0};
      poll(&p, 1, 1000);
      if (p.revents) {
        char b[65536];
        ssize_t n = recv(fd, b, sizeof b, 0);
        if (n > 0) {
          buffer.append(b, (size_t)n);
          continue;
        }
        for (int k = 0; k < 200; k++) {
          alive("instead of answering");
          usleep(5000);
        }
        c.fail("serve:closed", "the connection ended instead of an answer: " + trail);
      }
      alive("instead of answering");
      c.expect(time(nullptr) - t0 < PATIENCE, "serve:hang", "no answer: " + trail);
    }
  }
  json read() {
    std::string s = line();
    json j = json::parse(s, nullptr, false);
    c.expect(!j.is_discarded() && j.is_object() && j.contains("query") && j.contains("response") && j.contains("time") &&
                 j["response"].is_object() && j["response"].contains("ok") && j["response"]["ok"].is_boolean() &&
                 j["response"].contains("op"),
             "serve:answer", "not an answer: " + vh::show(s, 300) + " " + trail);
    if (!j["response"]["ok"].get<bool>())
      c.expect(j["response"].contains("error") && j["response"]["error"].is_string(), "serve:answer", "a refusal without a reason: " + vh::show(s, 300));
    c.count("answers");
    return j;
  }
  json ask(const std::string &s) {
    trail += " " + vh::show(s, 80);
    if (trail.size() > 500)
      trail = "..." + trail.substr(trail.size() - 450);
    if (!put(s + "\n")) {
      usleep(100000);
      alive("when asked");
      c.fail("serve:closed", "the connection ended: " + trail);
    }
    return read();
  }
  json ask(const json &q) {
    json a = ask(q.dump());
    c.expect(a["query"] == q, "serve:echo", "the answer is to " + a["query"].dump() + " not to " + q.dump());
    return a["response"];
  }
  ~Server_() {
    hang_up(false);
    if (pid > 0) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
  }
};

std::string word_query(Coll &k, int depth) {
  vh::Rng &r = k.c.rng;
  if (depth == 0 || r.chance(0.25))
    return r.chance(0.2) ? "\"" + k.word() + " " + k.word() + "\"" : k.word();
  std::string op = r.pick(std::vector<std::string>{"^", "^", "+", "+", "..."});
  size_t n = op == "..." ? 2 : 2 + r.below(3);
  std::string s = "(" + op;
  for (size_t i = 0; i < n; i++)
    s += " " + word_query(k, depth - 1);
  return s + ")";
}

// the 200 words around a passage
std::string window(Coll &k, addr cp, addr cq, addr p, addr q) {
  auto t = [&](addr a, addr b) { return clean(k.w->txt()->translate(a, b)); };
  addr s = cp, e = cq, W = 200;
  if (cq - cp + 1 > W) {
    if (q - p + 1 >= W) {
      s = p;
      e = q = p + W - 1;
    } else {
      addr extra = W - (q - p + 1);
      s = p - extra / 2;
      e = s + W - 1;
      if (s < cp)
        s = cp, e = cp + W - 1;
      if (e > cq)
        e = cq, s = cq - W + 1;
    }
  }
  std::string out = s < p ? t(s, p - 1) : "";
  out += "<cover>" + t(p, q) + "</cover>";
  return out + (q < e ? t(q + 1, e) : "");
}

void expect_hits(Coll &k, size_t i, const std::string &gcl, std::vector<Hit> *hits) {
  auto h = k.w->hopper_from_gcl(gcl, &k.error);
  k.c.expect(h != nullptr, "serve:gcl", gcl + k.error);
  std::map<size_t, std::pair<double, std::pair<addr, addr>>> all;
  addr p, q;
  size_t d = 0;
  for (h->tau(minfinity + 1, &p, &q); p < maxfinity; h->tau(p + 1, &p, &q)) {
    while (d < k.docs.size() && k.docs[d].cq < q)
      d++;
    if (d == k.docs.size())
      break;
    if (k.docs[d].cp > p)
      continue;
    auto &a = all[d];
    if (a.first == 0 || q - p < a.second.second - a.second.first)
      a.second = {p, q};
    a.first += 1.0 / (42.0 + (double)(q - p));
  }
  for (auto &a : all) {
    auto &doc = k.docs[a.first];
    hits->push_back({a.second.first, i, doc.id, as_json(window(k, doc.cp, doc.cq, a.second.second.first, a.second.second.second))});
  }
}

struct Stream {
  std::string qid;
  std::vector<Hit> left;
  size_t rank = 0;
  bool done = false;
};

VH_MODE(serve, true) {
  size_t n = 1 + c.rng.below(c.rng.chance(0.4) ? 3 : 1);
  bool same_names = c.rng.chance(0.2), broken = c.rng.chance(0.15);
  std::vector<vh::Ctx> cs(n, c);
  std::vector<std::unique_ptr<Coll>> ks;
  std::vector<std::string> burrows;
  std::string what;
  for (size_t i = 0; i < n; i++) {
    cs[i].dir = c.dir + vh::fmt("/c%zu", i);
    cs[i].rng = vh::Rng(c.rng.next());
    std::filesystem::create_directory(cs[i].dir);
    auto k = std::make_unique<Coll>(cs[i]);
    k->prefix = same_names ? "D" : vh::fmt("D%c", 'a' + (int)i);
    k->longest = c.rng.chance(0.4) ? 700 : 120;
    k->broken = broken;
    k->build(1 + c.rng.below(30), (int)c.rng.below(2), 0, "");
    k->w->start();
    burrows.push_back(cs[i].dir + "/r");
    what += " [" + k->what + "]";
    ks.push_back(std::move(k));
  }
  std::vector<std::string> fields;
  if (c.rng.chance(0.5))
    for (size_t j = 1 + c.rng.below(2); j; --j)
      fields.push_back(c.rng.pick(std::vector<std::string>{"f0:", "f1:", "id:", "content:", "(+ f0: f1:)"}));
  // everything the server will be asked, answered here first
  std::map<std::string, std::vector<Hit>> known;
  std::map<std::string, std::vector<std::string>> text; // of documents of a name
  for (size_t j = 0; j < 6; j++) {
    std::string gcl = word_query(*ks[0], 2);
    auto &hits = known[gcl];
    hits.clear();
    for (size_t i = 0; i < n; i++)
      expect_hits(*ks[i], i, gcl, &hits);
  }
  for (size_t i = 0; i < n; i++)
    for (auto &d : ks[i]->docs) {
      std::string s;
      if (fields.empty()) {
        s = ks[i]->w->txt()->translate(d.p, d.q);
      } else {
        for (auto &f : fields) {
          std::vector<std::pair<addr, addr>> at;
          if (f.find("f0:") != std::string::npos)
            at.push_back({d.f0p, d.f0q});
          if (f.find("f1:") != std::string::npos)
            at.push_back({d.f1p, d.f1q});
          if (f == "id:")
            at.push_back({d.p, d.p});
          if (f == "content:")
            at.push_back({d.cp, d.cq});
          for (auto &a : at)
            if (a.first <= a.second) {
              if (s != "")
                s += " ... ";
              s += clean(ks[i]->w->txt()->translate(a.first, a.second));
            }
        }
      }
      text[d.id].push_back(as_json(clean(s)));
    }
  for (auto &k : ks) {
    k->w->end();
    k->quiet();
    k->w = nullptr;
  }
  std::vector<std::string> args = {"ssr-server"};
  if (fields.size()) {
    args.push_back("--fields");
    std::string s;
    for (auto &f : fields)
      s += (s == "" ? "" : c.rng.chance(0.5) ? "," : " , ") + f;
    args.push_back(s);
  }
  args.insert(args.end(), {"doc:", "content:", "id:"});
  args.insert(args.end(), burrows.begin(), burrows.end());
  Server_ s(c);
  s.start(args);
  s.dial();
  std::vector<Stream> streams;
  size_t qids = 0;
  auto check = [&](Stream *t, const json &r, const std::string &op) {
    c.expect(r["op"] == op && r["ok"] == true && r.contains("qid"), "serve:result", "unexpected answer " + r.dump().substr(0, 300));
    if (op == "query")
      t->qid = r["qid"].get<std::string>();
    c.expect(r["qid"] == t->qid, "serve:qid", "another query's answer: " + r.dump().substr(0, 300));
    if (t->left.empty()) {
      c.expect(r.contains("done") && r["done"] == true && !r.contains("docno"), "serve:extra", what + ": more results than there are: " + r.dump().substr(0, 300));
      t->done = true;
      return;
    }
    c.expect(!r.contains("done") && r.contains("docno") && r.contains("burrow") && r.contains("snippet") && r.contains("rank"), "serve:missing",
             what + vh::fmt(": %zu more results, the best '%s'; the answer: ", t->left.size(), t->left[0].docno.c_str()) + r.dump().substr(0, 300));
    c.expect(r["rank"] == ++t->rank, "serve:rank", vh::fmt("rank %zu expected: ", t->rank) + r.dump().substr(0, 300));
    double best = 0;
    for (auto &h : t->left)
      best = std::max(best, h.score);
    for (size_t i = 0; i < t->left.size(); i++) {
      auto &h = t->left[i];
      if (r["docno"] != h.docno || r["burrow"] != burrows[h.coll])
        continue;
      c.expect(near(h.score, best), "serve:order", what + vh::fmt(": rank %zu has score %g, there is one with %g left", t->rank, h.score, best));
      c.expect(r["snippet"] == h.snippet, "serve:snippet", what + ": '" + vh::show(r["snippet"].dump(), 400) + "' expected '" + vh::show(h.snippet, 400) + "'");
      t->left.erase(t->left.begin() + (long)i);
      c.count("results_checked");
      return;
    }
    c.fail("serve:result", what + ": not a result, or given before: " + r.dump().substr(0, 300));
  };
  size_t asked = 0;
  for (size_t step = 10 + c.rng.below(50); step; --step) {
    double x = c.rng.unit();
    if (x < 0.15) {
      auto i = known.begin();
      std::advance(i, c.rng.below(known.size()));
      Stream t;
      t.left = i->second;
      json r = s.ask(json{{"op", "query"}, {"query", i->first}});
      check(&t, r, "query");
      for (auto &o : streams)
        c.expect(o.qid != t.qid, "serve:qid", "two queries have the name " + t.qid);
      streams.push_back(t);
      asked++;
    } else if (x < 0.55 && streams.size()) {
      Stream &t = streams[c.rng.below(streams.size())];
      for (size_t k = 1 + c.rng.below(4); k; --k)
        check(&t, s.ask(json{{"op", "next"}, {"qid", t.qid}}), "next");
    } else if (x < 0.7) {
      auto i = text.begin();
      std::advance(i, c.rng.below(text.size()));
      json r = s.ask(json{{"op", "document"}, {"docno", i->first}});
      if (i->second.size() > 1) {
        c.expect(r["ok"] == false, "serve:ambiguous", "a name of several documents is answered with one");
        c.count("ambiguous_refused");
      } else {
        c.expect(r["ok"] == true && r["docno"] == i->first && r["document"] == i->second[0], "serve:document",
                 what + ": " + i->first + ": got " + vh::show(r.dump(), 500) + " expected " + vh::show(i->second[0], 400));
        bool own = false;
        for (size_t k = 0; k < n; k++)
          for (auto &d : ks[k]->docs)
            own = own || (d.id == i->first && r["burrow"] == burrows[k]);
        c.expect(own, "serve:document", "a document of another collection");
        c.count("documents_checked");
      }
    } else if (x < 0.88) {
      // nonsense
      static const std::vector<std::string> bad = {
          "", "{", "nonsense", "[]", "[1,2]", "7", "null", "true", "\"text\"", "{}", "{\"op\":5}", "{\"op\":null}", "{\"op\":[\"query\"]}",
          "{\"op\":\"query\"}", "{\"op\":\"query\",\"query\":7}", "{\"op\":\"query\",\"query\":null}", "{\"op\":\"query\",\"query\":[]}",
          "{\"op\":\"query\",\"query\":\"\"}", "{\"op\":\"query\",\"query\":\"(((\"}", "{\"op\":\"query\",\"query\":\"(^ a\"}",
          "{\"op\":\"query\",\"query\":\")\"}", "{\"op\":\"next\"}", "{\"op\":\"next\",\"qid\":3}", "{\"op\":\"next\",\"qid\":\"q999999\"}",
          "{\"op\":\"next\",\"qid\":{}}", "{\"op\":\"document\"}", "{\"op\":\"document\",\"docno\":\"nosuchthing\"}",
          "{\"op\":\"document\",\"docno\":12}", "{\"op\":\"document\",\"docno\":\"\"}",
          "{\"op\":\"document\",\"docno\":\"\\\\\\\"(((\"}", "{\"op\":\"quit\"}", "{\"op\":\"\"}", "\xff\xfe", "{\"op\":\"\xff\"}", "\x01\x02"};
      std::string b = c.rng.chance(0.9) ? c.rng.pick(bad) : "";
      if (c.rng.chance(0.05))
        b = std::string(1 + c.rng.below(100000), c.rng.chance(0.5) ? '[' : 'x');
      if (c.rng.chance(0.05)) {
        size_t deep = 1 + c.rng.below(c.rng.chance(0.3) ? 250000 : 1000);
        b = std::string(deep, '[') + std::string(deep, ']');
      }
      if (c.rng.chance(0.1)) {
        b.clear();
        for (size_t k = c.rng.below(40); k; --k) {
          char z = (char)c.rng.below(256);
          b += z == '\n' ? ' ' : z;
        }
      }
      json r = s.ask(b)["response"];
      c.expect(r["ok"] == false, "serve:nonsense", "accepted " + vh::show(b) + ": " + r.dump().substr(0, 200));
      c.count("nonsense_refused");
    } else {
      // clients come and go
      if (c.rng.chance(0.6)) {
        std::string q = c.rng.chance(0.6) || streams.empty() ? json{{"op", "document"}, {"docno", text.begin()->first}}.dump()
                                                             : json{{"op", "query"}, {"query", known.begin()->first}}.dump();
        if (c.rng.chance(0.3))
          q = q.substr(0, c.rng.below(q.size()));
        else {
          q += "\n";
          size_t many = c.rng.chance(0.5) ? 1 : 1 + c.rng.below(50);
          std::string one = q;
          while (--many)
            q += one;
        }
        s.put(q);
        s.trail += " <left after " + vh::show(q, 60) + ">";
      }
      s.hang_up(c.rng.chance(0.5));
      c.count("clients_gone");
      s.dial();
    }
  }
  for (auto &t : streams)
    while (!t.done)
      check(&t, s.ask(json{{"op", "next"}, {"qid", t.qid}}), "next");
  s.alive("at the end");
  (void)qids;
  if (asked && ks[0]->docs.size() > 1)
    c.nontrivial(c.id);
  c.sample(what);
}
} // namespace
