// The command driver: executes a behaviour, one JSON command per line, on real
// Cottontail objects through their public API, and prints what the API shows.
#include "verif.h"

#include <chrono>
#include <condition_variable>
#include <dirent.h>
#include <deque>
#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <pthread.h>
#include <set>

#include "gcl/materialize.h"
#include "gcl/mt.h"
#include "gcl/optimizer.h"
#include "gcl/parse.h"
#include "meadowlark/forager.h"
#include "meadowlark/meadowlark.h"
#include "src/array_hopper.h"
#include "src/fiver.h"
#include "src/hazel.h"
#include "src/json.h"
#include "src/ranking.h"
#include "src/scribe.h"
#include "src/simple_posting.h"
#include "src/simple_builder.h"
#include "src/stats.h"
#include "src/stemmer.h"
#include "src/tf_hopper.h"

// ---------------------------------------------------------------------------
// Threads started by the library are counted, so that a behaviour can wait for
// background work to finish without looking inside the library.
static std::atomic<int> live_threads{0};
static thread_local bool mine = false;
static std::atomic<int> own_threads{0};
// Points at which a thread can be held until it is told to go on: where a
// thread of the library starts, and where any but the main thread reads a file.
struct Point {
  int who; // threads of the library count from 0, the driver's from -1 down
  std::atomic<bool> go{false};
};
static std::atomic<bool> holding{false}, hold_starts{true};
static std::atomic<int> lib_threads{0};
static std::atomic_flag points_lock = ATOMIC_FLAG_INIT;
static std::vector<Point *> points;
static thread_local int whoami = 1 << 20; // never held
static thread_local bool in_hold = false;
struct PointsLock {
  PointsLock() {
    while (points_lock.test_and_set())
      sched_yield();
  }
  ~PointsLock() { points_lock.clear(); }
};
static void hold() {
  if (!holding.load() || whoami == 1 << 20 || in_hold)
    return;
  in_hold = true;
  Point here;
  here.who = whoami;
  {
    PointsLock l;
    points.push_back(&here);
  }
  while (!here.go.load() && holding.load())
    usleep(30);
  {
    PointsLock l;
    points.erase(std::find(points.begin(), points.end(), &here));
  }
  in_hold = false;
}
// Lets a thread go on: the one asked for, or else whoever waits longest.
static bool let_go(int who) {
  PointsLock l;
  Point *x = nullptr;
  for (auto p : points)
    if (!p->go.load() && (x == nullptr || (p->who == who && x->who != who)))
      x = p;
  if (x)
    x->go = true;
  return x != nullptr;
}
static void jitter();
struct Tramp {
  void *(*fn)(void *);
  void *arg;
  bool own;
  int who;
};
static std::atomic<bool> starting_own{false};
static void *tramp(void *a) {
  Tramp t = *(Tramp *)a;
  delete (Tramp *)a;
  if (!t.own) {
    whoami = t.who;
    jitter();
    if (hold_starts.load())
      hold();
  }
  void *r = t.fn(t.arg);
  if (!t.own)
    live_threads--;
  return r;
}
static thread_local bool creating_own = false;
extern "C" int pthread_create(pthread_t *th, const pthread_attr_t *at,
                              void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
                     void *) =
      (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *),
               void *))dlsym(RTLD_NEXT, "pthread_create");
  Tramp *t = new Tramp{fn, arg, creating_own, creating_own ? 0 : lib_threads++};
  if (!t->own)
    live_threads++;
  int r = real(th, at, tramp, t);
  if (r != 0) {
    if (!t->own)
      live_threads--;
    delete t;
  }
  return r;
}
static bool settle(int ms = 120000) {
  auto t0 = std::chrono::steady_clock::now();
  while (live_threads.load() > 0) {
    usleep(200);
    if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(ms))
      return false;
  }
  return true;
}

// Remembers what it was asked to name.
class Recorder : public ct::Featurizer {
public:
  std::vector<std::string> said;

private:
  std::string name_() final { return "recorder"; }
  std::string recipe_() final { return ""; }
  ct::addr featurize_(const char *key, ct::addr length) final {
    said.emplace_back(key, length);
    return said.size();
  }
  std::string translate_(ct::addr feature) final { return said[feature - 1]; }
};

// Perturbs schedules: sleeps at random lock operations when enabled.
static std::atomic<int> perturb{0}; // per-mille
static std::atomic<uint64_t> perturb_seed{1};
static thread_local uint64_t prng = 0;
static inline uint64_t rnd() {
  if (prng == 0)
    prng = perturb_seed.fetch_add(0x9E3779B97F4A7C15ULL) | 1;
  prng ^= prng << 13;
  prng ^= prng >> 7;
  prng ^= prng << 17;
  return prng;
}
static void jitter() {
  int p = perturb.load(std::memory_order_relaxed);
  if (p > 0 && (int)(rnd() % 1000) < p) {
    uint64_t r = rnd() % 10;
    if (r < 5)
      sched_yield();
    else
      usleep(rnd() % (r == 9 ? 3000 : 200));
  }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) =
      (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  jitter();
  return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*real)(pthread_mutex_t *) =
      (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = real(m);
  jitter();
  return r;
}

extern "C" ssize_t pread(int fd, void *buf, size_t n, off_t at) {
  static ssize_t (*real)(int, void *, size_t, off_t) =
      (ssize_t(*)(int, void *, size_t, off_t))dlsym(RTLD_NEXT, "pread");
  if (whoami != 1 << 20)
    jitter();
  hold();
  return real(fd, buf, n, at);
}
extern "C" ssize_t pread64(int fd, void *buf, size_t n, off64_t at) {
  static ssize_t (*real)(int, void *, size_t, off64_t) =
      (ssize_t(*)(int, void *, size_t, off64_t))dlsym(RTLD_NEXT, "pread64");
  if (whoami != 1 << 20)
    jitter();
  hold();
  return real(fd, buf, n, at);
}
extern "C" ssize_t read(int fd, void *buf, size_t n) {
  static ssize_t (*real)(int, void *, size_t) =
      (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
  if (whoami != 1 << 20)
    jitter();
  hold();
  return real(fd, buf, n);
}
extern "C" ssize_t __pread_chk(int fd, void *buf, size_t n, off_t at, size_t) {
  return pread(fd, buf, n, at);
}
extern "C" ssize_t __pread64_chk(int fd, void *buf, size_t n, off64_t at, size_t) {
  return pread64(fd, buf, n, at);
}
extern "C" ssize_t __read_chk(int fd, void *buf, size_t n, size_t) {
  return read(fd, buf, n);
}

// ---------------------------------------------------------------------------
static std::mutex names_lock;
static std::map<std::string, std::shared_ptr<ct::Warren>> warrens;
static std::map<std::string, std::vector<std::shared_ptr<ct::Warren>>> grave;
struct Piece {
  ct::addr p, q;
};
static std::map<std::string, Piece> pieces;
static std::map<std::string, std::shared_ptr<ct::meadowlark::Forager>> foragers;
static std::atomic<int> clockseq{0};

static std::shared_ptr<ct::Warren> W(const std::string &n) {
  std::lock_guard<std::mutex> _(names_lock);
  auto it = warrens.find(n);
  if (it == warrens.end() || it->second == nullptr)
    throw std::runtime_error("no warren " + n);
  return it->second;
}
static void setW(const std::string &n, std::shared_ptr<ct::Warren> w) {
  std::lock_guard<std::mutex> _(names_lock);
  warrens[n] = w;
}
static ct::addr where(const json &j) {
  if (j.is_object()) {
    std::lock_guard<std::mutex> _(names_lock);
    Piece pc = pieces.at(j["r"].get<std::string>());
    ct::addr base = j.value("from", "p") == std::string("q") ? pc.q : pc.p;
    return base + j.value("o", 0);
  }
  return dec(j.get<int64_t>());
}
static ct::fval value(const json &c) {
  if (c.contains("av"))
    return ct::addr2fval((ct::addr)c["av"].get<int64_t>());
  if (c.contains("v"))
    return (ct::fval)c["v"].get<int64_t>();
  return 0.0;
}
static ct::addr feature_of(std::shared_ptr<ct::Featurizer> f, const json &j) {
  if (j.is_number_integer())
    return j.get<int64_t>();
  return f->featurize(text_of(j));
}

static thread_local bool exact_values = false; // as "%.17g"
static json triple(ct::addr p, ct::addr q, ct::fval v) {
  if (exact_values) {
    char s[64];
    snprintf(s, sizeof s, "%.17g", (double)v);
    return json::array({enc(p), enc(q), s});
  }
  return json::array({enc(p), enc(q), encv(v)});
}
static json walk(ct::Hopper *h, size_t limit = 200000) {
  json l = json::array();
  ct::addr p, q;
  ct::fval v;
  for (h->tau(ct::minfinity + 1, &p, &q, &v); p < ct::maxfinity;
       h->tau(p + 1, &p, &q, &v)) {
    l.push_back(triple(p, q, v));
    if (l.size() > limit)
      break;
  }
  return l;
}
static json walk_back(ct::Hopper *h, size_t limit = 200000) {
  std::vector<json> l;
  ct::addr p, q;
  ct::fval v;
  for (h->uat(ct::maxfinity - 1, &p, &q, &v); q > ct::minfinity;
       h->uat(q - 1, &p, &q, &v)) {
    l.push_back(triple(p, q, v));
    if (l.size() > limit)
      break;
  }
  json r = json::array();
  for (auto it = l.rbegin(); it != l.rend(); ++it)
    r.push_back(*it);
  return r;
}
static json do_calls(ct::Hopper *h, const json &calls) {
  json out = json::array();
  for (auto &c : calls) {
    std::string op = c[0];
    ct::addr k = dec(c[1].get<int64_t>()), p = -55, q = -55;
    ct::fval v = 0.0;
    if (op == "t")
      h->tau(k, &p, &q, &v);
    else if (op == "r")
      h->rho(k, &p, &q, &v);
    else if (op == "u")
      h->uat(k, &p, &q, &v);
    else if (op == "o")
      h->ohr(k, &p, &q, &v);
    else if (op == "L") {
      p = h->L(k);
      q = p;
    } else if (op == "R") {
      p = h->R(k);
      q = p;
    }
    out.push_back(triple(p, q, v));
  }
  return out;
}

// direct construction of an operator tree over array/posting leaves
static std::unique_ptr<ct::Hopper> leaf(const json &l, const std::string &kind) {
  size_t n = l.size();
  if (n == 0)
    return std::make_unique<ct::EmptyHopper>();
  if (n == 1 && kind != "posting")
    return std::make_unique<ct::SingletonHopper>(
        dec(l[0][0].get<int64_t>()), dec(l[0][1].get<int64_t>()),
        ct::addr2fval(l[0][2].get<int64_t>()));
  if (kind == "posting") {
    auto comp = ct::Compressor::make("null", "");
    auto fac = ct::SimplePostingFactory::make(comp, comp);
    auto post = fac->posting_from_feature(1);
    for (auto &e : l)
      post->push(e[0].get<int64_t>(), e[1].get<int64_t>(),
                 ct::addr2fval(e[2].get<int64_t>()));
    return ct::ArrayHopper::make(post);
  }
  auto ps = ct::shared_array<ct::addr>(n), qs = ct::shared_array<ct::addr>(n);
  auto fs = ct::shared_array<ct::fval>(n);
  for (size_t i = 0; i < n; i++) {
    ps.get()[i] = l[i][0].get<int64_t>();
    qs.get()[i] = l[i][1].get<int64_t>();
    fs.get()[i] = ct::addr2fval(l[i][2].get<int64_t>());
  }
  return ct::ArrayHopper::make((ct::addr)n, ps, qs, fs);
}
static std::unique_ptr<ct::Hopper> direct(const json &ast, const json &lists,
                                          const std::string &kind) {
  std::string op = ast["op"];
  if (op == "t")
    return leaf(lists.at(ast["f"].get<std::string>()), kind);
  if (op == "#")
    return std::make_unique<ct::FixedWidthHopper>(ast["n"].get<int>());
  const json &x = ast["x"];
  if (op == "@")
    return std::make_unique<ct::gcl::Link>(direct(x[0], lists, kind));
  if (op == "m")
    return std::make_unique<ct::gcl::Materialize>(direct(x[0], lists, kind));
  if (op == "T")
    return std::make_unique<ct::TfHopper>(direct(x[0], lists, kind),
                                          direct(x[1], lists, kind));
  if (op == "V") {
    std::vector<std::unique_ptr<ct::Hopper>> hs;
    for (auto &s : x)
      hs.push_back(direct(s, lists, kind));
    return ct::gcl::VectorHopper::make(&hs, false);
  }
  auto l = direct(x[0], lists, kind);
  for (size_t i = 1; i < x.size(); i++) {
    auto r = direct(x[i], lists, kind);
    if (op == "^")
      l = std::make_unique<ct::gcl::And>(std::move(l), std::move(r));
    else if (op == "+")
      l = std::make_unique<ct::gcl::Or>(std::move(l), std::move(r));
    else if (op == "...")
      l = std::make_unique<ct::gcl::FollowedBy>(std::move(l), std::move(r));
    else if (op == "<<")
      l = std::make_unique<ct::gcl::ContainedIn>(std::move(l), std::move(r));
    else if (op == ">>")
      l = std::make_unique<ct::gcl::Containing>(std::move(l), std::move(r));
    else if (op == "!<")
      l = std::make_unique<ct::gcl::NotContainedIn>(std::move(l), std::move(r));
    else if (op == "!>")
      l = std::make_unique<ct::gcl::NotContaining>(std::move(l), std::move(r));
    else if (op == "M")
      l = std::make_unique<ct::gcl::Merge>(std::move(l), std::move(r));
    else
      abort();
  }
  return l;
}

static json ls(const std::string &dir) {
  std::vector<std::string> v;
  if (DIR *d = opendir(dir.c_str())) {
    while (dirent *e = readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
        v.push_back(e->d_name);
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return json(v);
}

static json exec(const json &c);

static json observe(std::shared_ptr<ct::Warren> w, const json &c) {
  json r;
  exact_values = c.value("exact", false);
  if (c.contains("fs")) {
    json lists = json::array(), counts = json::array();
    std::vector<std::unique_ptr<ct::Hopper>> burst; // all asked for first
    if (c.value("burst", false))
      for (auto &f : c["fs"])
        burst.push_back(w->idx()->hopper(feature_of(w->featurizer(), f)));
    size_t nth = 0;
    for (auto &f : c["fs"]) {
      ct::addr ft = feature_of(w->featurizer(), f);
      if (c.value("count", true))
        counts.push_back(enc(w->idx()->count(ft)));
      auto h = nth < burst.size() ? std::move(burst[nth++]) : w->idx()->hopper(ft);
      json l = walk(h.get());
      auto h2 = w->idx()->hopper(ft);
      json b = walk_back(h2.get());
      if (b != l)
        r["fwdback"] = json::array({f, l, b});
      lists.push_back(l);
    }
    r["lists"] = lists;
    r["counts"] = counts;
  }
  if (c.contains("tr")) {
    json t = json::array();
    for (auto &pq : c["tr"])
      t.push_back(bytes(w->txt()->translate(where(pq[0]), where(pq[1]))));
    r["tr"] = t;
  }
  if (c.contains("raw")) {
    json t = json::array();
    for (auto &pq : c["raw"])
      t.push_back(bytes(w->txt()->raw(where(pq[0]), where(pq[1]))));
    r["raw"] = t;
  }
  if (c.contains("trj")) { // as JSON
    json t = json::array();
    for (auto &pq : c["trj"]) {
      std::string s = w->txt()->translate(where(pq[0]), where(pq[1]));
      t.push_back(bytes(c.value("jt", false) ? ct::json_translate(s) : s));
    }
    r["trj"] = t;
  }
  if (c.contains("trs")) { // as strings
    json t = json::array();
    for (auto &pq : c["trs"])
      t.push_back(latin(w->txt()->translate(where(pq[0]), where(pq[1]))));
    r["trs"] = t;
  }
  if (c.value("range", false)) {
    ct::addr p = -1, q = -1;
    bool ok = w->txt()->range(&p, &q);
    r["range"] = ok ? json::array({enc(p), enc(q)}) : json::array();
    r["tokens"] = enc(w->txt()->tokens());
  }
  return r;
}

static json exec_(const json &c) {
  std::string cmd = c["c"];
  json r;
  std::string err;
  if (cmd == "mk") {
    // recipe options as a string; dir empty for a memory-only burrow
    std::string dir = c.value("dir", "");
    std::shared_ptr<ct::Bigwig> b;
    if (dir == "") {
      auto f = ct::Featurizer::make(c.value("featurizer", "hashing"),
                                  c.value("featurizer_recipe", ""), &err);
      auto t = ct::Tokenizer::make(c.value("tokenizer", "utf8"),
                                   c.value("tokenizer_recipe", ""), &err);
      auto mkc = [&](const char *k) {
        return ct::Compressor::make(c.value(k, "null"), "", &err);
      };
      b = ct::Bigwig::make(nullptr, f, t, &err, nullptr, mkc("pc"), mkc("fc"),
                           mkc("tc"));
    } else
      b = ct::Bigwig::make(dir, c.value("recipe", ""), &err);
    if (b) {
      if (c.contains("merge"))
        b->merge(c["merge"].get<bool>());
      setW(c["w"], b);
    }
    r["ok"] = b != nullptr;
  } else if (cmd == "open") {
    auto w = ct::Warren::make(c["dir"].get<std::string>(), &err);
    if (w) {
      r["kind"] = w->name();
      setW(c["w"], w);
    }
    r["ok"] = w != nullptr;
  } else if (cmd == "meadow") { // a burrow for files
    std::string op = c["op"];
    namespace md = ct::meadowlark;
    std::map<std::string, std::string> ps;
    if (c.contains("ps"))
      for (auto &kv : c["ps"].items())
        ps[kv.key()] = kv.value().get<std::string>();
    std::string file = c.contains("file") ? text_of(c["file"]) : "";
    bool ok = false;
    if (op == "create" || op == "open") {
      std::shared_ptr<ct::Warren> w =
          op == "open" ? md::open_meadow(c["dir"].get<std::string>(), &err)
                       : md::create_meadow(c["dir"].get<std::string>(), &err);
      ok = w != nullptr;
      if (ok)
        setW(c["w"], w);
      auto b = std::dynamic_pointer_cast<ct::Bigwig>(w);
      if (b && c.contains("merge"))
        b->merge(c["merge"].get<bool>());
    } else if (op == "jsonl") {
      ok = md::append_jsonl(W(c["w"]), file, &err, c.value("threads", 0), false);
    } else if (op == "tsv") {
      ok = md::append_tsv(W(c["w"]), file, &err, c.value("header", false),
                          c.value("sep", "\t"), c.value("threads", 0));
    } else if (op == "appended") {
      bool yes = false;
      auto w = W(c["w"]);
      w->start();
      ok = md::already_appended(w, file, &yes, &err);
      w->end();
      r["appended"] = yes;
    } else if (op == "forage") {
      auto w = W(c["w"]);
      if (c.contains("gcl"))
        ok = md::forage(w, text_of(c["gcl"]), c.value("from", ct::minfinity),
                        c.value("to", ct::maxfinity), c["name"], c["tag"], ps,
                        &err, c.value("threads", 0));
      else {
        std::vector<std::pair<ct::addr, ct::addr>> l;
        for (auto &pq : c["l"])
          l.emplace_back(pq[0].get<ct::addr>(), pq[1].get<ct::addr>());
        ok = md::forage(w, l, c["name"], c["tag"], ps, &err,
                        c.value("threads", 0));
      }
    }
    r["ok"] = ok;
  } else if (cmd == "forager") { // one used directly
    std::string op = c["op"];
    bool ok = true;
    std::shared_ptr<ct::meadowlark::Forager> f;
    if (op != "make") {
      std::lock_guard<std::mutex> _(names_lock);
      f = foragers[c["f"].get<std::string>()];
    }
    if (op == "make") {
      std::map<std::string, std::string> ps;
      for (auto &kv : c["ps"].items())
        ps[kv.key()] = kv.value().get<std::string>();
      f = ct::meadowlark::Forager::make(W(c["w"]), c["name"], c["tag"], ps,
                                        &err);
      ok = f != nullptr;
      std::lock_guard<std::mutex> _(names_lock);
      foragers[c["f"].get<std::string>()] = f;
    } else if (op == "txn") {
      ok = f->transaction(&err);
    } else if (op == "label") {
      ok = f->label(&err);
    } else if (op == "one") {
      ok = f->forage(dec(c["p"].get<int64_t>()), dec(c["q"].get<int64_t>()),
                     &err);
    } else if (op == "list") {
      std::vector<std::pair<ct::addr, ct::addr>> l;
      for (auto &pq : c["l"])
        l.emplace_back(pq[0].get<ct::addr>(), pq[1].get<ct::addr>());
      ok = f->forage(l, c["start"].get<size_t>(), c["n"].get<size_t>(), &err);
    } else if (op == "hop") {
      std::shared_ptr<ct::Hopper> h =
          W(c["w"])->hopper_from_gcl(text_of(c["gcl"]), &err);
      ok = h != nullptr &&
           f->forage(h, dec(c["from"].get<int64_t>()),
                     dec(c["to"].get<int64_t>()), &err);
    } else if (op == "ready") {
      ok = f->ready(&err);
    } else if (op == "commit") {
      f->commit();
    } else if (op == "abort") {
      f->abort();
    } else if (op == "drop") {
      std::lock_guard<std::mutex> _(names_lock);
      foragers.erase(c["f"].get<std::string>());
    }
    r["ok"] = ok;
  } else if (cmd == "f2j") { // a forager's description, written and read
    std::map<std::string, std::string> ps, ps2;
    for (auto &kv : c["ps"])
      ps[text_of(kv[0])] = text_of(kv[1]);
    std::string name, tag;
    std::string j = ct::meadowlark::forager2json(text_of(c["name"]),
                                                 text_of(c["tag"]), ps);
    r["ok"] = ct::meadowlark::json2forager(j, &name, &tag, &ps2, &err);
    r["valid"] = json::accept(j);
    r["name"] = bytes(name);
    r["tag"] = bytes(tag);
    json l = json::array();
    for (auto &kv : ps2)
      l.push_back(json::array({bytes(kv.first), bytes(kv.second)}));
    r["ps"] = l;
  } else if (cmd == "stem") {
    auto s = ct::Stemmer::make(c["stemmer"], "", &err);
    json l = json::array();
    for (auto &x : c["l"])
      l.push_back(bytes(s->stem(text_of(x))));
    r["l"] = l;
    r["ok"] = true;
  } else if (cmd == "tfann") { // ranking statistics for all there is
    auto w = W(c["w"]);
    std::string k = c["kind"];
    if (k == "idf")
      r["ok"] = ct::tf_idf_annotations(w, &err, c.value("unst", true),
                                       c.value("idf", true), c.value("rsj", true));
    else if (k == "df")
      r["ok"] = ct::tf_df_annotations(w, &err);
    else if (k == "field")
      r["ok"] = ct::tf_field_annotations(w, &err);
    else
      r["ok"] = c.contains("from")
                    ? ct::tf_annotations(w, &err, dec(c["from"].get<int64_t>()),
                                         dec(c["to"].get<int64_t>()))
                    : ct::tf_annotations(w, &err);
  } else if (cmd == "stats") {
    auto w = W(c["w"]);
    auto s = c.contains("name") ? ct::Stats::make(c["name"], c["tag"], w, &err)
                                : ct::Stats::make(w, &err);
    r["ok"] = s != nullptr;
    if (s) {
      r["avgl"] = s->avgl();
      json l = json::array();
      for (auto &t : c["terms"]) {
        std::string term = text_of(t[0]);
        json x;
        x["idf"] = s->idf(term);
        x["rsj"] = s->rsj(term);
        auto h = s->tf_hopper(term);
        x["r"] = do_calls(h.get(), t[1]);
        if (c.value("walk", true)) {
          x["walk"] = walk(s->tf_hopper(term).get());
          x["back"] = walk_back(s->tf_hopper(term).get());
        }
        l.push_back(x);
      }
      r["terms"] = l;
      json cs = json::array(), is = json::array();
      ct::addr p, q;
      auto h = s->container_hopper();
      for (h->tau(ct::minfinity + 1, &p, &q); p < ct::maxfinity;
           h->tau(p + 1, &p, &q))
        cs.push_back(json::array({enc(p), enc(q)}));
      h = s->id_hopper();
      for (h->tau(ct::minfinity + 1, &p, &q); p < ct::maxfinity;
           h->tau(p + 1, &p, &q))
        is.push_back(json::array({enc(p), enc(q)}));
      r["conts"] = cs;
      r["ids"] = is;
      json have = json::object();
      for (auto &k : {"avgl", "tf", "idf", "rsj", "unstemmed"})
        have[k] = s->have(k);
      r["have"] = have;
      r["stem"] = bytes(s->stemmer()->stem("Runnings"));
    }
  } else if (cmd == "drop") {
    std::lock_guard<std::mutex> _(names_lock);
    if (c.contains("w"))
      warrens.erase(c["w"].get<std::string>());
    else
      warrens.clear();
    r["ok"] = true;
  } else if (cmd == "rmdir") {
    std::filesystem::remove_all(c["dir"].get<std::string>());
    r["ok"] = true;
  } else if (cmd == "cp") {
    std::filesystem::copy(c["from"].get<std::string>(),
                          c["to"].get<std::string>(),
                          std::filesystem::copy_options::recursive |
                              std::filesystem::copy_options::overwrite_existing);
    r["ok"] = true;
  } else if (cmd == "subst") { // edits a file of a burrow, as a user would
    std::string name = c["file"], from = c["from"], to = c["to"];
    std::ifstream in(name);
    std::string all((std::istreambuf_iterator<char>(in)),
                    std::istreambuf_iterator<char>());
    in.close();
    size_t at = all.find(from);
    if (at != std::string::npos) {
      all.replace(at, from.size(), to);
      std::ofstream(name) << all;
    }
    r["ok"] = at != std::string::npos;
  } else if (cmd == "ls") {
    r["ls"] = ls(c["dir"]);
  } else if (cmd == "clone") {
    auto w = W(c["w"]);
    auto k = w ? w->clone(&err) : nullptr;
    if (k)
      setW(c["as"], k);
    r["ok"] = k != nullptr;
  } else if (cmd == "start") {
    W(c["w"])->start();
    r["ok"] = true;
  } else if (cmd == "end") {
    W(c["w"])->end();
    r["ok"] = true;
  } else if (cmd == "txn") {
    r["ok"] = W(c["w"])->transaction(&err);
  } else if (cmd == "append") {
    ct::addr p = 0, q = 0;
    auto ap = W(c["w"])->appender();
    bool ok = ap && ap->append(text_of(c["t"]), &p, &q, &err);
    r["ok"] = ok;
    if (ok) {
      r["n"] = enc(q - p + 1);
      r["p"] = enc(p);
      if (c.contains("id")) {
        std::lock_guard<std::mutex> _(names_lock);
        pieces[c["id"].get<std::string>()] = {p, q};
      }
    }
  } else if (cmd == "json") {
    ct::addr p = 0, q = 0;
    bool ok = ct::json_scribe(text_of(c["t"]), ct::Scribe::make(W(c["w"])), &p,
                              &q, &err);
    r["ok"] = ok;
    if (ok) {
      r["n"] = enc(q - p + 1);
      if (c.contains("id")) {
        std::lock_guard<std::mutex> _(names_lock);
        pieces[c["id"].get<std::string>()] = {p, q};
      }
    }
  } else if (cmd == "ann") {
    auto w = W(c["w"]);
    r["ok"] = w->annotator()->annotate(feature_of(w->featurizer(), c["f"]),
                                       where(c["p"]), where(c["q"]), value(c),
                                       &err);
  } else if (cmd == "anns") { // many: [[f,p,q,v],...]
    auto w = W(c["w"]);
    bool ok = true;
    bool av = c.value("addr", false);
    for (auto &a : c["l"])
      ok = ok && w->annotator()->annotate(
                     feature_of(w->featurizer(), a[0]), where(a[1]),
                     where(a[2]),
                     av ? ct::addr2fval(a[3].get<int64_t>())
                        : (ct::fval)a[3].get<int64_t>(),
                     &err);
    r["ok"] = ok;
  } else if (cmd == "erase") {
    r["ok"] = W(c["w"])->annotator()->erase(where(c["p"]), where(c["q"]), &err);
  } else if (cmd == "ready") {
    r["ok"] = W(c["w"])->ready(&err);
  } else if (cmd == "commit") {
    W(c["w"])->commit();
    r["ok"] = true;
  } else if (cmd == "abort") {
    W(c["w"])->abort();
    r["ok"] = true;
  } else if (cmd == "commitall") {
    std::vector<std::shared_ptr<ct::Warren>> ws;
    for (auto &n : c["ws"])
      ws.push_back(W(n));
    ct::Warren::commit_all(ws);
    r["ok"] = true;
  } else if (cmd == "merge") {
    auto b = std::dynamic_pointer_cast<ct::Bigwig>(W(c["w"]));
    b->merge(c["on"].get<bool>());
    r["ok"] = true;
  } else if (cmd == "locate") { // where a committed marker annotation is now
    auto w = W(c["w"])->clone(&err);
    bool ok = w != nullptr;
    if (ok) {
      w->start();
      auto hop = w->idx()->hopper(feature_of(w->featurizer(), c["f"]));
      ct::addr p, q;
      hop->tau(0, &p, &q);
      r["p"] = enc(p);
      r["q"] = enc(q);
      if (c.contains("id") && p < ct::maxfinity) {
        std::lock_guard<std::mutex> _(names_lock);
        pieces[c["id"].get<std::string>()] = {p, q};
      }
      w->end();
    }
    r["ok"] = ok;
  } else if (cmd == "settle") {
    r["ok"] = settle();
  } else if (cmd == "perturb") {
    perturb = c["n"].get<int>();
    perturb_seed = c.value("seed", 1);
    r["ok"] = true;
  } else if (cmd == "sleep") {
    usleep(c["us"].get<int>());
    r["ok"] = true;
  } else if (cmd == "obs") {
    r = observe(W(c["w"]), c);
    r["ok"] = true;
  } else if (cmd == "hop") {
    auto w = W(c["w"]);
    bool opt = c.value("opt", false);
    if (opt)
      ct::gcl::Optimizer::enable();
    std::string gcl = text_of(c["gcl"]);
    auto h = w->hopper_from_gcl(gcl, &err);
    if (opt)
      ct::gcl::Optimizer::disable();
    r["ok"] = h != nullptr;
    if (h) {
      if (c.contains("calls"))
        r["r"] = do_calls(h.get(), c["calls"]);
      if (c.value("walk", false)) {
        r["walk"] = walk(h.get());
        auto h2 = w->hopper_from_gcl(gcl, &err);
        r["back"] = walk_back(h2.get());
      }
    }
  } else if (cmd == "fhop") { // cursor over one feature's list
    auto w = W(c["w"]);
    auto h = w->idx()->hopper(feature_of(w->featurizer(), c["f"]));
    r["ok"] = h != nullptr;
    if (h)
      r["r"] = do_calls(h.get(), c["calls"]);
  } else if (cmd == "direct") {
    json rs = json::array();
    for (auto &q : c["qs"]) {
      auto h = direct(q["ast"], c["lists"], c.value("leaf", "array"));
      rs.push_back(do_calls(h.get(), q["calls"]));
    }
    r["rs"] = rs;
  } else if (cmd == "rank") {
    // rankings; scores come back in units of 1/u, or negative when they are
    // not a whole number of units
    auto w = W(c["w"]);
    std::string how = c["how"];
    size_t depth = c.value("depth", 1000);
    std::string cont = c.contains("cont") ? text_of(c["cont"]) : "";
    std::map<std::string, ct::fval> ps;
    if (c.contains("K"))
      ps[c.value("kname", "ssr:K")] = c["K"].get<double>();
    if (c.contains("delta"))
      ps["tiered:delta"] = c["delta"].get<double>();
    if (c.contains("pdepth"))
      ps["depth"] = c["pdepth"].get<double>();
    int64_t u = c.value("u", 1);
    bool rnd = c.value("round", false);
    auto show = [&](const std::vector<ct::RankingResult> &rs) {
      json l = json::array();
      for (auto &x : rs) {
        double v = x.score() * u, n = std::round(v);
        int64_t s = (rnd || std::fabs(v - n) < 1e-4) && n < 2e9 ? (int64_t)n : -1;
        l.push_back({{"p", enc(x.p())},
                     {"q", enc(x.q())},
                     {"cp", enc(x.container_p())},
                     {"cq", enc(x.container_q())},
                     {"s", s}});
      }
      return l;
    };
    r["ok"] = true;
    if (how == "ssr") {
      ct::addr a = c.contains("from") ? dec(c["from"].get<int64_t>()) : ct::minfinity;
      ct::addr b = c.contains("to") ? dec(c["to"].get<int64_t>()) : ct::maxfinity;
      r["r"] = show(ct::ssr_ranking(w, text_of(c["gcl"]), cont, ps, depth, a, b));
    } else if (how == "par") {
      r["r"] = show(ct::parallel_ssr(w, text_of(c["gcl"]), cont, ps, depth,
                                     c.value("threads", 0)));
    } else if (how == "tier") {
      std::vector<std::string> tiers;
      for (auto &t : c["tiers"])
        tiers.push_back(text_of(t));
      r["r"] = show(ct::tiered_ranking(w, tiers, cont, ps, depth));
    } else if (how == "words") { // tiers made from the words of a query
      json l = json::array();
      for (auto &t : ct::build_tiers(w, text_of(c["gcl"]), ps))
        l.push_back(bytes(t));
      r["tiers"] = l;
      r["r"] = show(ct::tiered_ranking(w, text_of(c["gcl"]), cont, ps, depth));
    } else if (how == "product") {
      std::map<std::string, ct::fval> q;
      for (auto &kv : c["terms"])
        q[text_of(kv[0])] = kv[1].get<double>();
      ps["depth"] = (double)depth;
      r["r"] = show(ct::product_ranking(w, q, ps, c.value("tag", "tf"), c.value("convert", true)));
    } else if (how == "fuse") {
      std::vector<std::vector<ct::RankingResult>> rs;
      for (auto &l : c["rankings"]) {
        rs.emplace_back();
        for (auto &x : l)
          rs.back().emplace_back(x[0].get<int64_t>(), x[1].get<int64_t>(), 1.0);
      }
      r["r"] = show(ct::rrf_fusion(rs));
    }
  } else if (cmd == "parse") {
    auto e = ct::gcl::SExpression::from_string(text_of(c["s"]), &err);
    r["ok"] = e != nullptr;
    if (e) {
      r["str"] = bytes(e->to_string());
      r["bin"] = bytes(e->to_binary()->to_string());
      if (c.contains("tok")) {
        auto t = ct::Tokenizer::make(c["tok"], c.value("tokr", ""), &err);
        r["exp"] = e->expand_phrases(t)->to_string();
      }
    }
  } else if (cmd == "infix") {
    static std::map<std::string, std::shared_ptr<ct::Mt>> mts;
    auto &m = mts[c["m"].get<std::string>()];
    if (m == nullptr)
      m = std::make_shared<ct::Mt>();
    r["ok"] = m->infix_expression(text_of(c["s"]), &err);
    if (r["ok"]) {
      r["str"] = bytes(m->s_expression());
      r["hop"] = ct::gcl::SExpression::from_string(m->s_expression(), &err) != nullptr;
    }
  } else if (cmd == "setp") {
    r["ok"] = W(c["w"])->set_parameter(text_of(c["k"]), text_of(c["v"]), &err);
  } else if (cmd == "setcont") {
    r["ok"] = W(c["w"])->set_default_container(text_of(c["v"]), &err);
  } else if (cmd == "cont") {
    auto w = W(c["w"]);
    w->start();
    r["v"] = bytes(w->default_container());
    w->end();
  } else if (cmd == "setstem") {
    auto st = ct::Stemmer::make(c["v"], "", &err);
    r["ok"] = st != nullptr && W(c["w"])->set_stemmer(st, &err);
  } else if (cmd == "stemmer") {
    auto w = W(c["w"]);
    w->start();
    r["v"] = w->stemmer() ? w->stemmer()->name() : "";
    w->end();
  } else if (cmd == "recipe") {
    r["s"] = bytes(W(c["w"])->recipe());
  } else if (cmd == "opt") {
    std::string s = text_of(c["m"]);
    r["ok"] = ct::interpret_option(&s, text_of(c["o"]), &err);
    r["s"] = bytes(s);
  } else if (cmd == "ext") {
    std::string v;
    r["ok"] = ct::extract_option(text_of(c["m"]), text_of(c["o"]), &v, &err);
    r["v"] = bytes(v);
  } else if (cmd == "getp") {
    std::string v;
    r["ok"] = W(c["w"])->get_parameter(text_of(c["k"]), &v, &err);
    r["v"] = bytes(v);
  } else if (cmd == "sbuild") {
    auto working = ct::Working::mkdir(c["dir"].get<std::string>(), &err);
    bool ok = working != nullptr;
    json app = json::array();
    if (ok) {
      std::shared_ptr<ct::Builder> b;
      if (c.contains("tok_file")) {
        auto f = ct::Featurizer::make(c.value("featurizer", "hashing"),
                                  c.value("featurizer_recipe", ""), &err);
        auto t = ct::Tokenizer::make(c.value("tokenizer", "ascii"),
                                     c.value("tokenizer_recipe", ""), &err);
        b = ct::SimpleBuilder::make(working, f, t, &err,
                                    c["tok_file"].get<size_t>(),
                                    c["ann_file"].get<size_t>(),
                                    c.value("pc", "post"), "",
                                    c.value("fc", "zlib"), "",
                                    c.value("tc", "zlib"), "");
      } else
        b = ct::SimpleBuilder::make(working, c.value("recipe", ""), &err);
      ok = b != nullptr;
      if (ok) {
        for (auto &o : c["ops"]) {
          if (o[0] == "text") {
            ct::addr p = -1, q = -1;
            ok = ok && b->add_text(text_of(o[1]), &p, &q, &err);
            app.push_back(json::array({enc(p), enc(q)}));
          } else if (o[0] == "json") {
            ct::addr p = -1, q = -1;
            bool jok = ct::json_scribe(text_of(o[1]), ct::Scribe::make(b), &p,
                                       &q, &err);
            app.push_back(jok ? json::array({enc(p), enc(q)}) : json::array());
          } else {
            ok = ok && b->add_annotation(o[1].get<std::string>(),
                                         (ct::addr)o[2].get<int64_t>(),
                                         (ct::addr)o[3].get<int64_t>(),
                                         (ct::fval)o[4].get<int64_t>(), &err);
          }
          if (!ok)
            break;
        }
        ok = b->finalize(&err) && ok;
      }
    }
    r["ok"] = ok;
    r["app"] = app;
  } else if (cmd == "recover") {
    // static recovery of a simple burrow after a crash
    auto working = ct::Working::make(c["dir"].get<std::string>(), &err);
    bool ok = working != nullptr, commit = c["commit"].get<bool>();
    if (ok) {
      ok = ct::Appender::recover("simple", c.value("arecipe", ""), commit, &err,
                                 working);
      bool ok2 = ct::Annotator::recover("simple", c.value("nrecipe", ""),
                                        commit, &err, working);
      r["app"] = ok;
      r["ann"] = ok2;
      ok = ok && ok2;
    }
    r["ok"] = ok;
  } else if (cmd == "tohazel") {
    // converts the fiver shard files of a burrow into archives, in place
    // (what the background conversion does), or exports to another directory
    std::string dir = c["dir"];
    auto w = std::dynamic_pointer_cast<ct::Bigwig>(W(c["w"]));
    json made = json::array();
    bool ok = true;
    auto working = ct::Working::make(dir, &err);
    std::map<std::string, std::string> parameters;
    std::string pf;
    if (c.value("params", false) &&
        ct::cook(W(c["w"])->recipe(), &parameters, &err))
      pf = parameters["parameters"];
    auto mkc = [&](const char *k) {
      return ct::Compressor::make(c.value(k, "null"), "", &err);
    };
    auto f = ct::Featurizer::make(c.value("featurizer", "hashing"),
                                  c.value("featurizer_recipe", ""), &err);
    auto t = ct::Tokenizer::make(c.value("tokenizer", "utf8"),
                                 c.value("tokenizer_recipe", ""), &err);
    size_t i = 0;
    for (auto &n : working->ls("fiver")) {
      if (c.contains("only")) {
        bool sel = false;
        for (auto &o : c["only"])
          sel = sel || o.get<size_t>() == i;
        i++;
        if (!sel)
          continue;
      }
      auto fv = ct::Fiver::unpickle(working->make_name(n), working, f, t, &err,
                                    mkc("pc"), mkc("fc"), mkc("tc"));
      if (fv == nullptr) {
        ok = false;
        break;
      }
      fv->start();
      auto hz = fv->hazel(&err, c.value("chunk", 64 * 1024), pf);
      if (hz == nullptr) {
        ok = false;
        break;
      }
      made.push_back(n);
      if (c.value("discard", true))
        fv->discard();
    }
    r["made"] = made;
    r["ok"] = ok;
  } else if (cmd == "hmerge") {
    auto working = ct::Working::make(c["dir"].get<std::string>(), &err);
    std::vector<std::string> names;
    for (auto &n : c["names"])
      names.push_back(n);
    r["ok"] = ct::Hazel::merge(working, names,
                               c.contains("params") ? text_of(c["params"]) : "", &err);
  } else if (cmd == "freeze") {
    std::map<std::string, std::string> m;
    for (auto &kv : c["m"])
      m[text_of(kv[0])] = text_of(kv[1]);
    std::string s = ct::freeze(m);
    r["s"] = bytes(s);
    std::map<std::string, std::string> back;
    bool ok = ct::cook(s, &back, &err);
    r["ok"] = ok;
    json b = json::array();
    for (auto &kv : back)
      b.push_back(json::array({bytes(kv.first), bytes(kv.second)}));
    r["back"] = b;
  } else if (cmd == "cook") {
    std::map<std::string, std::string> back;
    bool ok = ct::cook(text_of(c["s"]), &back, &err);
    r["ok"] = ok;
    json b = json::array();
    for (auto &kv : back)
      b.push_back(json::array({bytes(kv.first), bytes(kv.second)}));
    r["back"] = b;
  } else if (cmd == "tok") {
    // one answer per text: tokens with the texts they are known by, split,
    // where skipping ends
    auto t = ct::Tokenizer::make(c["tok"], c.value("tokr", ""), &err);
    json all = json::array();
    for (auto &x : c["l"]) {
      auto f = std::make_shared<Recorder>();
      std::string s = text_of(x);
      std::vector<char> buf(s.begin(), s.end());
      buf.push_back('\0');
      auto toks = t->tokenize(f, buf.data(), s.size());
      json l = json::array(), sp = json::array(), sk = json::array();
      int top = 0;
      for (auto &k : toks) {
        l.push_back(json::array({enc(k.address), (int)k.offset, (int)k.length,
                                 bytes(f->said[(size_t)k.feature - 1])}));
        top = std::max(top, (int)k.address + 1);
      }
      for (auto &y : t->split(s))
        sp.push_back(bytes(y));
      // an allocation of exactly that size, so that reading past it shows
      std::unique_ptr<char[]> exact(new char[s.size() + 1]);
      memcpy(exact.get(), s.data(), s.size());
      exact[s.size()] = '\0';
      for (int n = 0; n <= top + 1; n++)
        sk.push_back((int)(t->skip(exact.get(), s.size(), n) - exact.get()));
      all.push_back(json::array({l, sp, sk}));
    }
    r["all"] = all;
    r["ok"] = true;
  } else if (cmd == "feat") {
    auto f = ct::Featurizer::make("hashing", "", &err);
    json l = json::array();
    for (auto &x : c["l"])
      l.push_back(std::to_string(f->featurize(text_of(x))));
    r["l"] = l;
  } else if (cmd == "par") {
    // each thread executes its own command list; every call is bracketed by
    // two ticks of one clock
    std::vector<std::thread> ts;
    std::atomic<int> go{0};
    size_t n = c["th"].size();
    for (size_t i = 0; i < n; i++) {
      creating_own = true;
      ts.emplace_back([&, i] {
        go++;
        while (go.load() < (int)n)
          ;
        int k = 0;
        for (auto &cc : c["th"][i]) {
          int b = ++clockseq;
          json res = exec(cc);
          int e = ++clockseq;
          res["th"] = (int)i;
          res["k"] = k++;
          res["b"] = b;
          res["e"] = e;
          put(res);
        }
      });
      creating_own = false;
    }
    for (auto &t : ts)
      t.join();
    r["ok"] = true;
  } else if (cmd == "sched") {
    // threads that are told, step by step, what to do and which of the points
    // they and the library's threads are held at may be passed:
    //   ["ask", t, command]  thread t executes the command
    //   ["do", t, command]   and is waited for
    //   ["lib", j]           the j-th thread that the library started goes on
    //   ["own", t]           thread t goes on
    // In the end everybody goes on, and all must finish.
    struct Worker {
      std::mutex m;
      std::deque<std::pair<int, json>> todo;
      std::atomic<int> busy{0};
      bool over = false;
    };
    size_t n = c["n"].get<size_t>();
    int patience = c.value("us", 1500);
    auto ws = std::make_shared<std::vector<Worker>>(n);
    std::vector<std::thread> ts;
    lib_threads = 0;
    for (size_t i = 0; i < n; i++) {
      creating_own = true;
      ts.emplace_back([ws, i] {
        whoami = -1 - (int)i;
        Worker &me = (*ws)[i];
        for (;;) {
          std::pair<int, json> x(-1, json());
          bool over;
          {
            in_hold = true;
            std::lock_guard<std::mutex> l(me.m);
            over = me.over;
            if (!me.todo.empty()) {
              x = me.todo.front();
              me.todo.pop_front();
            }
            in_hold = false;
          }
          if (x.first < 0) {
            if (over)
              return;
            usleep(20);
            continue;
          }
          json res = exec(x.second);
          res["th"] = (int)i;
          res["step"] = x.first;
          put(res);
          me.busy--;
        }
      });
      creating_own = false;
    }
    auto push = [&](int t, int k, const json &cc) {
      Worker &w = (*ws)[t];
      w.busy++;
      std::lock_guard<std::mutex> l(w.m);
      w.todo.emplace_back(k, cc);
    };
    using clk = std::chrono::steady_clock;
    auto since = [](clk::time_point t0) {
      return std::chrono::duration_cast<std::chrono::microseconds>(clk::now() - t0).count();
    };
    // until the thread is idle, others being let go if it takes long
    auto finished = [&](int t) {
      auto t0 = clk::now(), t1 = t0;
      while ((*ws)[t].busy.load() > 0) {
        usleep(20);
        if (since(t1) > 2 * patience) {
          let_go(-1 - t);
          t1 = clk::now();
        }
        if (since(t0) > 60000000)
          return false;
      }
      return true;
    };
    auto quiet = [&] {
      auto t0 = clk::now();
      for (;;) {
        bool busy = false;
        for (auto &w : *ws)
          busy = busy || w.busy.load() > 0;
        if (!busy || since(t0) > patience)
          return;
        usleep(20);
      }
    };
    hold_starts = c.value("starts", true);
    holding = c.value("hold", true);
    bool stuck = false;
    int k = 0, went = 0;
    for (auto &st : c["steps"]) {
      std::string what = st[0];
      int t = st[1];
      if (what == "ask" || what == "do") {
        if (what == "do" || c.value("hold", true))
          stuck = stuck || !finished(t);
        if (stuck)
          break;
        push(t, k, st[2]);
        if (what == "do") {
          stuck = stuck || !finished(t);
          if (stuck)
            break;
        } else if (c.value("hold", true))
          quiet();
      } else {
        if (let_go(what == "lib" ? t : -1 - t))
          went++;
        quiet();
      }
      k++;
    }
    {
      PointsLock l;
      r["held"] = points.size();
    }
    holding = false;
    for (size_t t = 0; t < n && !stuck; t++)
      stuck = !finished(t);
    if (stuck) { // somebody's call never ends
      put(json{{"stuck", true}});
      _exit(7);
    }
    for (size_t t = 0; t < n; t++) {
      std::lock_guard<std::mutex> l((*ws)[t].m);
      (*ws)[t].over = true;
    }
    for (auto &t : ts)
      t.join();
    r["ok"] = true;
    r["went"] = went;
    r["lib"] = lib_threads.load();
  } else if (cmd == "exit") {
    _exit(c.value("rc", 0));
  } else {
    r["ok"] = false;
    err = "unknown command " + cmd;
  }
  if (err != "")
    r["err"] = err;
  return r;
}

static json exec(const json &c) {
  try {
    return exec_(c);
  } catch (const std::runtime_error &e) {
    return json{{"ok", false}, {"err", std::string("driver: ") + e.what()}};
  }
}

int main() {
  void (*vf_mark)(int) = (void (*)(int))dlsym(RTLD_DEFAULT, "vf_mark");
  own_stdout();
  alarm(getenv("VF_ALARM") ? atoi(getenv("VF_ALARM")) : 600);
  std::string line;
  int i = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty())
      continue;
    json c = json::parse(line);
    if (vf_mark)
      vf_mark(2 * i);
    json r = exec(c);
    if (vf_mark)
      vf_mark(2 * i + 1);
    r["i"] = i++;
    put(r);
  }
  {
    std::lock_guard<std::mutex> _(names_lock);
    warrens.clear();
  }
  settle(5000);
  _exit(0);
}
