// Event loops: queued tasks, quit, timers (one loop), loop threads and pools.
#include "h_common.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/event_loop_pool.h"
#include "kanon/net/event_loop_thread.h"
#include "kanon/net/channel.h"
#include "kanon/util/time_stamp.h"
#include <set>
#include <unistd.h>
using namespace kanon;
namespace {
struct Tm { TimerId h; int id; };
struct World {
  Script const *s; EventLoop *loop = nullptr; int loop_tid = -1;
  bool ready = false, go = false, ended = false, looping = false; int left = 0, turn = 0;
  int next_id = 1, next_tm = 1, ops = 0; std::map<int, Tm> tms; int firing = 0; int conn = -1;
} *W;
int me() { int t = vrt::self(); return t == W->loop_tid ? 0 : t ? t : 99; }
int64_t base_us() { int64_t a = TimeStamp::Now().GetMicrosecondsSinceEpoch(); return a - vrt::now(); }
TimeStamp at_virtual(int64_t us) { return TimeStamp(base_us() + us); } // the instant the virtual clock calls us
void body(std::string const &b);
// what a callable given to the loop captures; its end is recorded
struct Held { char k; int id; Held(char k, int id) : k(k), id(id) {} ~Held() { ev("{\"e\":\"Rel\",\"k\":\"%c\",\"id\":%d}", k, id); } };
void task_body(int id, std::string const &b);
struct Task { int id; std::string b; std::shared_ptr<Held> h; Task(int id, std::string const &b) : id(id), b(b), h(new Held('q', id)) {} void operator()() const { task_body(id, b); } };
void task_body(int id, std::string const &b)
{
  ev("{\"e\":\"Exec\",\"t\":%d,\"id\":%d}", me(), id);
  body(b);
  ev("{\"e\":\"ExecEnd\",\"id\":%d}", id);
}
void fire(int id, int label, std::string const &b)
{
  ev("{\"e\":\"Fire\",\"t\":%d,\"id\":%d,\"now\":%lld}", me(), id, (long long)vrt::now());
  int save = W->firing; W->firing = label;
  body(b);
  W->firing = save;
  ev("{\"e\":\"FireEnd\",\"id\":%d,\"now\":%lld}", id, (long long)vrt::now());
}
struct Tick { int id, lb; std::string b; std::shared_ptr<Held> h; Tick(int id, int lb, std::string const &b) : id(id), lb(lb), b(b), h(new Held('t', id)) {} void operator()() const { fire(id, lb, b); } };
void cancel(int label)
{
  auto it = W->tms.find(label);
  if (it == W->tms.end()) return;
  Tm tm = it->second; int t = me();
  ev("{\"e\":\"CanCall\",\"t\":%d,\"id\":%d}", t, tm.id);
  W->loop->CancelTimer(tm.h);
  ev("{\"e\":\"CanRet\",\"t\":%d,\"id\":%d}", t, tm.id);
  if (t != 0) { // the marker runs behind the cancel
    int m = tm.id;
    W->loop->QueueToLoop([m] { ev("{\"e\":\"CanEff\",\"id\":%d}", m); });
  }
}
void quiet(int64_t d)
{
  vrt::quiesce(vrt::now() + d);
  ev("{\"e\":\"Quiet\",\"now\":%lld}", (long long)vrt::now());
}
void op1(Op const &o)
{
  if (++W->ops > 60) return;
  EventLoop *L = W->loop; int t = me();
  if (o.name == "q") {
    int id = W->next_id++; std::string b = o.s(0, "-");
    ev("{\"e\":\"QCall\",\"t\":%d,\"id\":%d}", t, id);
    L->QueueToLoop(Task(id, b));
    ev("{\"e\":\"QRet\",\"t\":%d,\"id\":%d}", t, id);
  } else if (o.name == "r") {
    int id = W->next_id++; std::string b = o.s(0, "-");
    ev("{\"e\":\"RCall\",\"t\":%d,\"id\":%d}", t, id);
    L->RunInLoop(Task(id, b));
    ev("{\"e\":\"RRet\",\"t\":%d,\"id\":%d}", t, id);
  } else if (o.name == "quit") {
    ev("{\"e\":\"QuitCall\",\"t\":%d}", t); L->Quit(); ev("{\"e\":\"QuitRet\",\"t\":%d}", t);
  } else if (o.name == "tset" || o.name == "taft" || o.name == "tms" || o.name == "tev") {
    // label, delay, interval, body
    int lb = o.i(0), id = W->next_tm++; int64_t d = atoll(o.s(1, "0").c_str()); int iv = o.i(2); std::string b = o.s(3, "-");
    TimerId h; int64_t lo = vrt::now() + d, hi = lo;
    int ex = o.name == "tset";
    if (o.name == "tev") { iv = int(d); }
    if (o.name != "tset") lo -= 1; // the delay goes through a double
    TimeStamp when = at_virtual(vrt::now() + d);
    if (ex) lo = hi = when.GetMicrosecondsSinceEpoch() - base_us();
    auto clamp = [](int64_t x) { return (long long)std::max<int64_t>(-1900000000, std::min<int64_t>(1900000000, x)); };
    ev("{\"e\":\"TCall\",\"t\":%d,\"id\":%d,\"lo\":%lld,\"ex\":%d,\"iv\":%d}", t, id, clamp(lo), ex, iv);
    if (o.name == "tset") h = iv ? L->RunEvery(Tick(id, lb, b), when, iv / 1e6) : L->RunAt(Tick(id, lb, b), when);
    else if (o.name == "taft") h = (d & 1) ? L->RunAfterUs(Tick(id, lb, b), uint64_t(d)) : L->RunAfter(Tick(id, lb, b), double(d) / 1e6);
    else if (o.name == "tms") h = L->RunAfterMs(Tick(id, lb, b), uint64_t(d / 1000));
    else h = L->RunEvery(Tick(id, lb, b), double(d) / 1e6);
    if (!ex) hi = vrt::now() + d + 1;
    W->tms[lb] = Tm{h, id};
    ev("{\"e\":\"TRet\",\"t\":%d,\"id\":%d,\"hi\":%lld}", t, id, clamp(hi));
  } else if (o.name == "tcan") cancel(o.i(0));
  else if (o.name == "tself") { if (W->firing) cancel(W->firing); }
  else if (o.name == "burn") { // timers nobody looks at: numbers and storage go on
    for (int i = 0, n = o.i(0); i < n; ++i) L->CancelTimer(L->RunAfter([] {}, 5000.0));
  }
  else if (o.name == "adv") vrt::advance(o.i(0, 1));
  else if (o.name == "point") vrt::point();
  else if (o.name == "io") vrt::net_send(W->conn, "x");
  else if (t != 0) {
    if (o.name == "wait") quiet(o.i(0, 1));
    else if (o.name == "settle") quiet(0);
    else if (o.name == "turn") { int k = o.i(0); vrt::block([k] { return W->turn == k; }); W->turn = k + 1; }
  }
}
void body(std::string const &b)
{
  if (b == "-") return;
  auto *ops = W->s->find(b.c_str());
  if (ops) for (auto &o : *ops) op1(o);
}
void run_loop(Script const &s)
{
  vrt::hooks.on_poll = [](int r) { if (vrt::self() == W->loop_tid && W->looping) ev("{\"e\":\"Poll%s\",\"now\":%lld}", r ? "R" : "B", (long long)vrt::now()); };
  UThread L([&] {
    W->loop_tid = vrt::self();
    EventLoop loop(bool(s.geti("poller", 0)));
    if (s.geti("et", 0)) loop.SetEdgeTriggerMode();
    W->loop = &loop;
    W->conn = vrt::net_make_connected();
    Channel ch(&loop, vrt::net_fd(W->conn));
    ch.SetReadCallback([](TimeStamp) {
      char b[64]; ssize_t n = ::read(vrt::net_fd(W->conn), b, sizeof b); (void)n; body("onio"); });
    ch.EnableReading();
    W->ready = true;
    vrt::block([] { return W->go; });
    body("init");
    W->looping = true;
    ev("{\"e\":\"StartCall\"}");
    loop.StartLoop();
    ev("{\"e\":\"StartRet\",\"now\":%lld}", (long long)vrt::now());
    W->looping = false;
    W->ended = true;
    vrt::block([] { return W->left == 0; });
    ch.DisableAll(); ch.Remove();
    ev("{\"e\":\"DtorCall\"}");
  });
  vrt::block([] { return W->ready; });
  std::vector<std::unique_ptr<UThread>> th;
  for (auto &p : s.thr) if (p.first[0] == 't') ++W->left;
  ++W->left;
  if (!s.geti("late", 0)) { W->go = true; }
  for (auto &p : s.thr) if (p.first[0] == 't') {
    auto const *ops = &p.second;
    th.emplace_back(new UThread([ops] { for (auto &o : *ops) op1(o); --W->left; }));
  }
  if (s.geti("late", 0)) { for (int i = 0; i < s.geti("late", 0); ++i) vrt::point(); W->go = true; }
  for (auto &t : th) t->join();
  quiet(0);
  if (s.geti("tail", 0)) quiet(s.geti("tail", 0));
  W->ops = 0;
  if (!W->ended) { Op o; o.name = "quit"; op1(o); }
  quiet(0);
  --W->left;
  L.join();
  ev("{\"e\":\"Exit\"}");
}
// ------------------------------------------------------------------ threads
struct PW { std::map<EventLoop *, int> idx; int next = 0, id = 1; std::vector<EventLoop *> loops; bool hasinit = false; int main_tid = 0; std::set<int> dead; } *Q;
int idx_of(EventLoop *l, bool add = true)
{
  if (!l) return -1;
  auto it = Q->idx.find(l);
  if (it != Q->idx.end()) return it->second;
  if (!add) return -2;
  Q->idx[l] = Q->next; Q->loops.push_back(l); return Q->next++;
}
void loop_ops(EventLoop *l, char const *name);
void loop_op(EventLoop *l, Op const &o, bool inside)
{
  int k = idx_of(l, false);
  if (o.name == "quit") { ev("{\"e\":\"QuitCall\",\"k\":%d}", k); l->Quit(); }
  else if (o.name == "busy") vrt::advance(o.i(0, 50));
  else if (o.name == "q") {
    int id = Q->id++; std::string b = o.s(0, "-");
    if (id > 40) return;
    ev("{\"e\":\"QCall\",\"k\":%d,\"id\":%d}", k, id);
    l->QueueToLoop([l, id, k, b] {
      ev("{\"e\":\"Exec\",\"k\":%d,\"id\":%d,\"th\":%d}", k, id, vrt::self());
      if (b != "-") loop_ops(l, b.c_str()); });
    ev("{\"e\":\"QRet\",\"k\":%d,\"id\":%d}", k, id);
  } else if (o.name == "every") l->RunEvery([l] { vrt::point(); }, o.i(0, 1000) / 1e6);
  else if (o.name == "spin") { // a task that queues itself again and again
    struct S { static void f(EventLoop *l) { l->QueueToLoop([l] { f(l); }); } }; S::f(l);
  }
  (void)inside;
}
void loop_ops(EventLoop *l, char const *name)
{
  auto *ops = W->s->find(name);
  if (ops) for (auto &o : *ops) loop_op(l, o, true);
}
void run_threads(Script const &s)
{
  static PW pw; Q = &pw;
  bool pool = s.gets("kind") == "pool";
  int n = s.geti("n", 1);
  bool hasinit = s.geti("initcb", 1);
  UThread M([&] {
    Q->main_tid = vrt::self();
    std::unique_ptr<EventLoop> base;
    std::unique_ptr<EventLoopPool> p; std::unique_ptr<EventLoopThread> th;
    if (pool) {
      base.reset(new EventLoop(false));
      p.reset(new EventLoopPool(base.get(), s.gets("name", "P"))); p->SetLoopNum(n);
    } else th.reset(new EventLoopThread(s.gets("name", "T")));
    int live0 = vrt::live_threads();
    auto init = [&](EventLoop *l) {
      int k = idx_of(l);
      ev("{\"e\":\"Init\",\"k\":%d,\"th\":%d}", k, vrt::self());
      loop_ops(l, "init");
    };
    EventLoop *cur = nullptr;
    for (auto &o : *s.find("main")) {
      if (o.name == "start") {
        ev("{\"e\":\"StartCall\",\"th\":%d,\"pool\":%d,\"n\":%d,\"init\":%d}", vrt::self(), pool ? 1 : 0, pool ? n : 1, hasinit ? 1 : 0);
        int k = -1;
        if (pool) { if (hasinit) p->StartRun(init); else p->StartRun(); }
        else { cur = hasinit ? th->StartRun(init) : th->StartRun(); k = idx_of(cur); }
        ev("{\"e\":\"StartRet\",\"k\":%d}", k);
      } else if (o.name == "next") {
        cur = pool ? p->GetNextLoop() : th->GetLoop();
        ev("{\"e\":\"Next\",\"k\":%d}", cur == base.get() && cur ? 100 : idx_of(cur));
      } else if (o.name == "settle") { vrt::quiesce(vrt::now()); ev("{\"e\":\"Quiet\"}"); }
      else if (o.name == "point") vrt::point();
      else if (o.name == "sleep") { vrt::quiesce(vrt::now() + o.i(0, 1000)); ev("{\"e\":\"Quiet\"}"); }
      else if (o.name == "del") {
        ev("{\"e\":\"DelCall\"}");
        p.reset(); th.reset(); cur = nullptr;
        ev("{\"e\":\"DelRet\",\"live\":%d}", vrt::live_threads() - live0);
      } else if (cur && cur != base.get() && !Q->dead.count(idx_of(cur))) {
        loop_op(cur, o, false);
        // a loop that was told to quit goes away by itself
        if (o.name == "quit" || o.s(0) == "bq") Q->dead.insert(idx_of(cur));
      }
    }
    p.reset(); th.reset();
  });
  M.join();
  vrt::quiesce(vrt::now() + 1000000);
  ev("{\"e\":\"Exit\",\"live\":%d}", vrt::live_threads());
}
void run(Script const &s, uint64_t seed)
{
  (void)seed;
  static World w; W = &w; w.s = &s;
  vrt::begin(vrt::next_params);
  vrt::hooks.on_badfd = [](int, char const *op) { ev("{\"e\":\"BadFd\",\"op\":\"%s\"}", op); };
  if (s.opt.count("kind")) run_threads(s); else run_loop(s);
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
