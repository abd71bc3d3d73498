// Thread primitives: reader-writer lock, mutex and condition, count-down latch
// and thread pool, driven by scripts of several threads.
#include "h_common.h"
#include <functional>
#include <set>
#include "kanon/thread/condition.h"
#include "kanon/thread/count_down_latch.h"
#include "kanon/thread/mutex_lock.h"
#include "kanon/thread/rw_lock.h"
#include "kanon/thread/thread_local.h"
#include "kanon/thread/thread_pool.h"
#include <sys/prctl.h>
#include <unistd.h>
using namespace kanon;
namespace {
int me() { return vrt::self(); }
bool is(Op const &o, char const *n) { return o.name == n; }
void points(int k) { while (k-- > 0) vrt::point(); }
struct Meet { // rendezvous of the scripts, outside the code under test
  std::map<int, int> cnt;
  void arrive(int m) { vrt::atomically([&] { ++cnt[m]; }); vrt::point(); }
  void wait(int m, int n) { vrt::block([this, m, n] { return cnt[m] >= n; }); }
};
// threads of the script; quiet() tells which have not finished
struct Crew {
  std::vector<UThread *> th; std::vector<int> busy;
  template <class F> void start(Script const &s, F f)
  {
    size_t k = 0;
    for (auto &p : s.thr) k += p.first[0] == 't';
    busy.assign(k, 1); th.reserve(k); k = 0; // nothing moves once they run
    for (auto &p : s.thr) if (p.first[0] == 't') {
      auto const *ops = &p.second; size_t me_ = k++;
      th.push_back(new UThread([this, me_, ops, f] { for (auto &o : *ops) f(o); vrt::atomically([&] { busy[me_] = 0; }); }));
    }
  }
  int left() const { int n = 0; vrt::atomically([&] { for (int b : busy) n += b; }); return n; }
  void quiet(int64_t d) { vrt::quiesce(vrt::now() + d); ev("{\"e\":\"Q\",\"left\":%d}", left()); }
  void join_or_leave() // blocked threads end with the process
  {
    if (left()) vrt::end();
    for (auto t : th) { t->join(); delete t; }
  }
};
Crew C; Meet M;
// ------------------------------------------------------------ rw lock
void run_rw(Script const &s)
{
  struct W { RWLock l; int val = 0; };
  static W *w; w = new W;
  C.start(s, [](Op const &o) {
    int t = me();
    if (is(o, "bar")) { M.arrive(o.i(0)); M.wait(o.i(0), o.i(1)); return; }
    bool wr = o.name[0] == 'w';
    auto body = [&] {
      int v = w->val; ev("{\"e\":\"Got\",\"t\":%d,\"w\":%d,\"v\":%d}", t, wr, v);
      points(o.i(0));
      if (is(o, "rm")) { M.arrive(o.i(1)); M.wait(o.i(1), o.i(2)); }
      if (wr) { w->val = v + 1; points(o.i(0) / 2); }
      v = w->val; ev("{\"e\":\"Rel\",\"t\":%d,\"w\":%d,\"v\":%d}", t, wr, v);
    };
    ev("{\"e\":\"Ask\",\"t\":%d,\"w\":%d}", t, wr);
    if (is(o, "rg")) { RLockGuard g(w->l); body(); }
    else if (is(o, "wg")) { WLockGuard g(w->l); body(); }
    else { wr ? w->l.WLock() : w->l.RLock(); body(); wr ? w->l.WUnlock() : w->l.RUnlock(); }
    ev("{\"e\":\"Free\",\"t\":%d}", t);
  });
  C.quiet(0);
  C.join_or_leave();
  delete w;
}
// ------------------------------------------------------- mutex, condition
void run_mtx(Script const &s)
{
  struct W { MutexLock m; Condition c; int val = 0; W() : c(m) {} };
  static W *w; w = new W;
  C.start(s, [](Op const &o) {
    int t = me();
    auto held = [&] { int h = w->m.IsLockedInThisThread(); ev("{\"e\":\"Held\",\"t\":%d,\"h\":%d}", t, h); };
    auto in = [&] {
      int v = w->val; ev("{\"e\":\"Got\",\"t\":%d,\"v\":%d}", t, v); held();
      w->m.AssertLocked();
      for (size_t k = 0; k < o.a.size(); ++k) {
        std::string const &a = o.a[k];
        if (a == "p") vrt::point();
        else if (a == "n") { ev("{\"e\":\"Note\",\"t\":%d,\"all\":0}", t); w->c.Notify(); }
        else if (a == "N") { ev("{\"e\":\"Note\",\"t\":%d,\"all\":1}", t); w->c.NotifyAll(); }
        else if (a[0] == 'a') vrt::advance(atoi(a.c_str() + 1));
        else if (a[0] == 'm') M.arrive(atoi(a.c_str() + 1));
        else if (a[0] == 'M') M.wait(atoi(a.c_str() + 1), 1);
        else if (a == "h") held();
        else if (a[0] == 'w') { // w: wait, w<us>: timed
          bool to = false; long us = a.size() > 1 ? atol(a.c_str() + 1) : -1;
          w->val = v + 1; v = w->val;
          ev("{\"e\":\"WaitB\",\"t\":%d,\"v\":%d,\"us\":%ld,\"now\":%lld}", t, v, us, (long long)vrt::now());
          if (us < 0) w->c.Wait();
          else if (us % 1000000 == 0) to = w->c.WaitForSeconds(int(us / 1000000));
          else to = w->c.WaitForSeconds(double(us) / 1e6);
          v = w->val;
          ev("{\"e\":\"WaitE\",\"t\":%d,\"v\":%d,\"to\":%d,\"now\":%lld}", t, v, to, (long long)vrt::now());
          held();
        }
      }
      w->val = v + 1; ev("{\"e\":\"Rel\",\"t\":%d,\"v\":%d}", t, w->val);
    };
    auto ask = [&] { ev("{\"e\":\"Ask\",\"t\":%d}", t); };
    auto free_ = [&] { ev("{\"e\":\"Free\",\"t\":%d}", t); held(); };
    if (is(o, "l")) { ask(); w->m.Lock(); in(); w->m.Unlock(); free_(); }
    else if (is(o, "lg")) { ask(); { MutexLock &m = w->m; KANON_MUTEX_GUARD(m); in(); } free_(); }
    else if (is(o, "lt")) { ask(); { MutexGuardT<MutexLock> g(w->m); in(); } free_(); }
    else if (is(o, "try")) {
      ev("{\"e\":\"TryB\",\"t\":%d}", t);
      bool ok = w->m.TryLock();
      ev("{\"e\":\"TryE\",\"t\":%d,\"ok\":%d}", t, ok);
      if (ok) { in(); w->m.Unlock(); free_(); } else held();
    }
    else if (is(o, "h")) held();
    else if (is(o, "arr")) M.arrive(o.i(0));
    else if (is(o, "meet")) M.wait(o.i(0), 1);
    else if (is(o, "sleep")) vrt::sleep_until(vrt::now() + o.i(0));
    else if (is(o, "p")) points(o.i(0));
  });
  C.quiet(s.geti("tail", 100000000));
  C.join_or_leave();
  delete w;
}
// ------------------------------------------------------------------ latch
void run_latch(Script const &s)
{
  static CountDownLatch *l; l = s.geti("dflt", 0) ? new CountDownLatch : new CountDownLatch(s.geti("n", 1));
  ev("{\"e\":\"New\",\"n\":%d}", s.geti("dflt", 0) ? 0 : s.geti("n", 1));
  auto f = [](Op const &o) {
    int t = me(), n = o.i(0, 1);
    auto b = [&](int d) { ev("{\"e\":\"OpB\",\"t\":%d,\"d\":%d}", t, d); };
    auto e = [&] { ev("{\"e\":\"OpE\",\"t\":%d}", t); };
    auto wb = [&](int d) { ev("{\"e\":\"WaitB\",\"t\":%d,\"d\":%d}", t, d); };
    auto we = [&] { ev("{\"e\":\"WaitE\",\"t\":%d}", t); };
    if (is(o, "cd")) { b(-1); l->Countdown(); e(); }
    else if (is(o, "minus")) { b(-n); l->Minus(n); e(); }
    else if (is(o, "decr")) { b(-1); l->Decr(); e(); }
    else if (is(o, "add")) { b(n); l->Add(n); e(); }
    else if (is(o, "incr")) { b(1); l->Incr(); e(); }
    else if (is(o, "wait")) { wb(0); l->Wait(); we(); }
    else if (is(o, "aw")) { wb(n); l->AddAndWait(n); we(); }
    else if (is(o, "iw")) { wb(1); l->IncrAndWait(); we(); }
    else if (is(o, "get")) { ev("{\"e\":\"GetB\",\"t\":%d}", t); int v = l->GetCount(); ev("{\"e\":\"GetE\",\"t\":%d,\"v\":%d}", t, v); }
    else if (is(o, "p")) points(n);
  };
  C.start(s, f);
  auto *m = s.find("m");
  if (m) for (auto &o : *m) { // the others are blocked or done
    C.quiet(0);
    if (is(o, "reset")) { ev("{\"e\":\"Reset\",\"n\":%d}", o.i(0)); l->Reset(o.i(0)); }
    else if (is(o, "rw")) {
      int n = o.i(0); Op cd; cd.name = "cd";
      UThread h([n, cd, f] { (void)n; vrt::quiesce(vrt::now()); for (int i = 0; i < n; ++i) f(cd); });
      ev("{\"e\":\"ResetW\",\"t\":%d,\"n\":%d}", me(), n); l->ResetAndWait(n); ev("{\"e\":\"WaitE\",\"t\":%d}", me());
      h.join();
    } else f(o);
  }
  C.quiet(0);
  C.join_or_leave();
  delete l;
}
// ------------------------------------------------------------------- pool
struct Held { int id; explicit Held(int id) : id(id) {} ~Held() { ev("{\"e\":\"Rel\",\"k\":\"q\",\"id\":%d}", id); } };
struct PTask { int id; std::function<void()> f; std::shared_ptr<Held> h; PTask(int id, std::function<void()> f) : id(id), f(f), h(new Held(id)) {} void operator()() const { f(); } };
void run_pool(Script const &s)
{
  struct W { Script const *s; ThreadPool *p; int next = 1; std::set<int> gates; };
  static W w; w.s = &s;
  int q = s.geti("q", 5);
  w.p = s.geti("named", 0) ? new ThreadPool(q, "Named") : new ThreadPool(q);
  static std::function<void(Op const &)> f;
  f = [](Op const &o) {
    int t = me();
    if (is(o, "push")) {
      int id = 0; vrt::atomically([&] { id = w.next++; }); std::string b = o.s(0, "-");
      if (id > 60) return;
      ev("{\"e\":\"PushB\",\"t\":%d,\"k\":%d}", t, id);
      w.p->Push(PTask(id, [id, b] {
        ev("{\"e\":\"RunB\",\"t\":%d,\"k\":%d}", me(), id);
        if (b != "-") { auto *ops = w.s->find(b.c_str()); if (ops) for (auto &x : *ops) f(x); }
        ev("{\"e\":\"RunE\",\"t\":%d,\"k\":%d}", me(), id);
      }));
      ev("{\"e\":\"PushE\",\"t\":%d,\"k\":%d}", t, id);
    } else if (is(o, "p")) points(o.i(0));
    else if (is(o, "gate")) { int g = o.i(0); vrt::block([g] { return w.gates.count(g) > 0; }); }
    else if (is(o, "open")) vrt::atomically([&] { w.gates.insert(o.i(0)); });
    else if (is(o, "adv")) vrt::advance(o.i(0));
    else if (is(o, "sleep")) vrt::sleep_until(vrt::now() + o.i(0));
  };
  ev("{\"e\":\"New\",\"t\":%d,\"q\":%d}", me(), q);
  int setq = s.geti("setq", 0); // before anything else happens
  if (setq) { w.p->SetMaxQueueSize(setq); ev("{\"e\":\"SetQ\",\"q\":%d}", setq); }
  C.start(s, [](Op const &o) { f(o); });
  auto *m = s.find("m"); bool quick = false;
  if (m) for (auto &o : *m) {
    if (is(o, "start")) { ev("{\"e\":\"Start\",\"n\":%d}", o.i(0)); w.p->StartRun(o.i(0)); ev("{\"e\":\"Started\"}"); }
    else if (is(o, "quiet")) C.quiet(o.i(0));
    else if (is(o, "now")) quick = true; // destroy as soon as the pushers are done
    else f(o);
  }
  if (quick) { vrt::block([] { return C.left() == 0; }, vrt::now() + 1000); }
  else { vrt::atomically([&] { for (int g = 0; g < 10; ++g) w.gates.insert(g); }); C.quiet(0); }
  if (C.left()) { C.quiet(0); vrt::end(); } // a pusher is inside the pool
  ev("{\"e\":\"DelB\"}");
  vrt::atomically([&] { for (int g = 0; g < 10; ++g) w.gates.insert(g); });
  delete w.p;
  int lt = vrt::live_threads();
  ev("{\"e\":\"DelE\"}"); (void)lt;
  C.join_or_leave();
}
// ---------------------------------------------------------------- threads
struct Cell { int k = 0, i = 0, n = 0; ~Cell() { ev("{\"e\":\"CellD\",\"t\":%d,\"k\":%d,\"i\":%d,\"n\":%d}", me(), k, i, n); } };
struct Token { int k; ~Token() { ev("{\"e\":\"FnD\",\"k\":%d}", k); } };
void run_thread(Script const &s)
{
  struct W { Script const *s; std::set<int> gates; int next = 1; Thread *sl[10] = {}; ThreadLocal<Cell> tl[2]; };
  static W *w; w = new W; w->s = &s;
  static auto where = [](char const *e, int k) { // what the running thread knows about itself
    char pn[32] = {}; prctl(PR_GET_NAME, pn);
    char const *nm = CurrentThread::tidName(); char id[32]; snprintf(id, sizeof id, "%d", int(gettid()));
    int ok = nm && !strncmp(pn, nm, 15) && CurrentThread::tid() == int(gettid()) && !strcmp(CurrentThread::tidString(), id) &&
             CurrentThread::tidLength() == int(strlen(id)) && !CurrentThread::isMainThread();
    ev("{\"e\":\"%s\",\"t\":%d,\"k\":%d,\"nm\":\"%s\",\"ok\":%d}", e, me(), k, nm ? nm : "-", ok);
  };
  auto body = [](int k, std::string const &b) {
    auto tok = std::make_shared<Token>(); tok->k = k;
    return [k, b, tok] {
      where("RunB", k);
      auto *ops = w->s->find(b.c_str());
      if (ops) for (auto &o : *ops) {
        if (is(o, "p")) points(o.i(0));
        else if (is(o, "gate")) { int g = o.i(0); vrt::block([g] { return w->gates.count(g) > 0; }); }
        else if (is(o, "open")) vrt::atomically([&] { w->gates.insert(o.i(0)); });
        else if (is(o, "where")) where("In", k);
        else if (is(o, "tl")) { Cell &c = w->tl[o.i(0)].value(); c.k = k; c.i = o.i(0); ++c.n; ev("{\"e\":\"Cell\",\"t\":%d,\"k\":%d,\"i\":%d,\"n\":%d}", me(), k, c.i, c.n); }
        else if (is(o, "sleep")) vrt::sleep_until(vrt::now() + o.i(0));
      }
      ev("{\"e\":\"RunE\",\"k\":%d}", tok->k);
    };
  };
  auto st = [](char const *e, int a, int b = -1) { ev("{\"e\":\"%s\",\"a\":%d,\"b\":%d}", e, a, b); };
  auto *m = s.find("m");
  for (auto &o : *m) {
    int a = o.i(0), b = o.i(1); Thread *&x = w->sl[a % 10];
    if (is(o, "new") || is(o, "newf")) { // newf: with its function
      if (x) continue;
      int k = 0; std::string nm = o.s(1);
      bool df = nm == "-"; if (df) nm = "";
      if (is(o, "newf")) { k = w->next++; x = new Thread(body(k, o.s(2)), nm); } else x = new Thread(nm);
      ev("{\"e\":\"New\",\"a\":%d,\"k\":%d,\"df\":%d,\"nm\":\"%s\",\"ask\":\"%s\"}", a, k, df, x->tidName().c_str(), nm.c_str());
    }
    else if (is(o, "start")) { st("StartB", a); x->StartRun(); st("StartE", a); }
    else if (is(o, "startf")) { int k = w->next++; ev("{\"e\":\"Put\",\"a\":%d,\"k\":%d}", a, k); st("StartB", a); x->StartRun(body(k, o.s(1))); st("StartE", a); }
    else if (is(o, "join")) { st("JoinB", a); x->Join(); st("JoinE", a); }
    else if (is(o, "mov")) { if (w->sl[b]) continue; w->sl[b] = new Thread(std::move(*x)); st("Mov", a, b); }
    else if (is(o, "mas")) { st("MasB", a, b); *w->sl[b] = std::move(*x); st("MasE", a, b); }
    else if (is(o, "del")) { st("DelB", a); delete x; x = nullptr; st("DelE", a); }
    else if (is(o, "open")) vrt::atomically([&] { w->gates.insert(a); });
    else if (is(o, "p")) points(a);
    else if (is(o, "quiet")) C.quiet(0);
  }
  vrt::atomically([&] { for (int g = 0; g < 10; ++g) w->gates.insert(g); });
  vrt::quiesce(vrt::now() + 1000000);
  for (int a = 0; a < 10; ++a) if (w->sl[a]) { st("DelB", a); delete w->sl[a]; w->sl[a] = nullptr; st("DelE", a); }
  ev("{\"e\":\"End\",\"live\":%d,\"left\":%d}", vrt::live_threads() - 1, vrt::unjoined_threads());
  delete w;
}
void run(Script const &s, uint64_t)
{
  vrt::begin(vrt::next_params);
  UThread T([&] {
    std::string k = s.gets("k");
    if (k == "rw") run_rw(s);
    else if (k == "mtx") run_mtx(s);
    else if (k == "latch") run_latch(s);
    else if (k == "thread") run_thread(s);
    else run_pool(s);
  });
  T.join();
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
