// TcpServer with 0..n I/O loops against scripted clients, accept failures and destruction.
#include "h_common.h"
#include "kanon/net/channel.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/user_server.h"
#include "kanon/net/connection/tcp_connection.h"
#include <map>
#include <set>
using namespace kanon;
namespace {
struct World {
  Script const *s; EventLoop *loop = nullptr; int base_tid = -1; bool ready = false, over = false; int turn = 0;
  std::unique_ptr<TcpServer> srv; bool gone = false, leaving = false; int starts = 0;
  std::map<int, int> loop_of;              // thread -> loop index (base: 0, I/O loops: 1..)
  std::vector<EventLoop *> loops;          // in start order
  std::map<TcpConnection *, int> ids; std::map<std::string, int> names;
  std::map<int, std::vector<int>> mine;    // harness thread -> its clients
  std::map<int, TcpConnectionPtr> held;
  int users = 0; // threads using the server: it is destroyed only when they are done
  int ups = 0, downs = 0, msgs = 0;
} *W;
int me() { int t = vrt::self(); auto it = W->loop_of.find(t); return it == W->loop_of.end() ? 100 + t : it->second; }
long long now() { return (long long)vrt::now(); }
int cid_of(int fd) { for (int i = vrt::net_conns() - 1; i >= 0; --i) if (vrt::net_fd(i) == fd) return i; return -1; }
void quiet(int64_t d) { vrt::quiesce(vrt::now() + d); ev("{\"e\":\"Quiet\",\"now\":%lld}", now()); }
void body(char const *n, int k, TcpConnectionPtr const *c);
bool is(Op const &o, char const *n) { return o.name == n; }
void destroy()
{
  if (!W->srv) return;
  ev("{\"e\":\"DelCall\"}"); W->srv.reset(); ev("{\"e\":\"DelRet\"}");
}
void act(TcpConnectionPtr const &c, std::string const &what)
{
  if (what == "send") c->Send(StringView("hello"));
  else {
    auto it = W->ids.find(c.get());
    if (it == W->ids.end()) return; // not announced (any more)
    if (what == "fclose") { ev("{\"e\":\"Cause\",\"c\":%d}", it->second); c->ForceClose(); }
    else if (what == "shut") c->ShutdownWrite();
  }
}
void op1(Op const &o, TcpConnectionPtr const *cur)
{
  EventLoop *L = W->loop;
  bool loopthr = W->loop_of.count(vrt::self());
  if (is(o, "send") || is(o, "fclose") || is(o, "shut")) { if (cur) act(*cur, o.name); }
  else if (is(o, "hold")) { if (cur) { int id = W->ids.count(cur->get()) ? W->ids[cur->get()] : -1; if (id >= 0) { ev("{\"e\":\"Hold\",\"c\":%d}", id); W->held[id] = *cur; } } }
  else if (is(o, "unhold")) { while (!W->held.empty()) { auto p = *W->held.begin(); W->held.erase(p.first); ev("{\"e\":\"Unhold\",\"c\":%d}", p.first); } }
  else if (is(o, "apply")) { // the server outlives the call: only on the base loop, or before destruction is asked for
    bool base = vrt::self() == W->base_tid; // other threads use the server only before its destruction is asked for
    if ((base || !W->leaving) && W->srv) {
      std::string a = o.s(0, "send"); TcpServer *v = W->srv.get();
      if (!base) ++W->users;
      v->ApplyAllPeers([a](TcpConnectionPtr const &c) { act(c, a); });
      if (!base) --W->users;
    }
  }
  else if (is(o, "adv")) vrt::advance(o.i(0, 1));
  else if (is(o, "point")) vrt::point();
  else if (!loopthr) {
    int t = vrt::self();
    auto &m = W->mine[t];
    auto pick = [&]() -> int { return m.empty() ? -1 : m[size_t(o.i(0, 0)) % m.size()]; };
    if (is(o, "wait")) quiet(atoll(o.s(0, "1").c_str()));
    else if (is(o, "settle")) quiet(0);
    else if (is(o, "conn")) { int c = vrt::net_connect(2000); if (c >= 0) m.push_back(c); }
    else if (is(o, "psend")) { int c = pick(); if (c >= 0) vrt::net_send(c, "hi"); }
    else if (is(o, "pfin") || is(o, "prst")) { int c = pick(); if (c >= 0) { ev("{\"e\":\"Cause\",\"c\":%d}", c); if (is(o, "pfin")) vrt::net_fin(c); else vrt::net_rst(c); } }
    else if (is(o, "err")) vrt::net_push_accept_err(o.i(0, EINTR));
    else if (is(o, "room")) { // not amid an accept
      int n = o.i(0, 0); L->QueueToLoop([n] { vrt::net_set_max_fds(n < 0 ? 1 << 20 : vrt::open_fds() + n); }); }
    else if (is(o, "start")) { if (!W->leaving) { W->starts++; W->srv->StartRun(); } }
    else if (is(o, "task")) { std::string b = o.s(0, "-"); L->QueueToLoop([b] { body(b.c_str(), -1, nullptr); }); }
    else if (is(o, "del")) { if (!W->leaving) { vrt::block([] { return !W->users; }); if (W->leaving) return; W->leaving = true; L->QueueToLoop([] { destroy(); }); } }
  }
}
void body(char const *n, int k, TcpConnectionPtr const *c)
{
  char t[48]; if (k >= 0) { snprintf(t, sizeof t, "%s%d", n, k); n = t; }
  auto *ops = W->s->find(n);
  if (ops) for (auto &o : *ops) op1(o, c);
}
void run(Script const &s, uint64_t)
{
  static World w; W = &w; w.s = &s;
  vrt::begin(vrt::next_params);
  if (s.opt.count("win")) vrt::net_set_default_window(size_t(s.geti("win", 0)));
  vrt::hooks.on_arrive = [](int c) { ev("{\"e\":\"Arrive\",\"c\":%d}", c); };
  vrt::hooks.on_accept = [](int c, int err) { ev("{\"e\":\"Acc\",\"c\":%d,\"err\":%d,\"t\":%d}", c, err, me()); };
  vrt::hooks.on_close = [](int, int kind, int c) { if (kind == vrt::K_SOCK && c >= 0) ev("{\"e\":\"Close\",\"c\":%d}", c); };
  vrt::hooks.on_badfd = [](int, char const *op) { ev("{\"e\":\"BadFd\",\"op\":\"%s\"}", op); };
  int nl = s.geti("loops", 0);
  UThread L([&] {
    w.base_tid = vrt::self(); w.loop_of[w.base_tid] = 0;
    EventLoop loop(bool(s.geti("poller", 0)));
    if (s.geti("et", 0)) loop.SetEdgeTriggerMode();
    w.loop = &loop;
    w.srv.reset(new TcpServer(&loop, (s.geti("v6", 0) ? InetAddr(2000, true, true) : InetAddr("127.0.0.1:2000")), "S"));
    w.srv->SetLoopNum(nl);
    if (s.geti("pool", 0)) { w.srv->EnablePool(true); if (s.opt.count("chunks")) w.srv->SetChunkPerBlock(size_t(s.geti("chunks", 1))); }
    int et = s.geti("iet", 0);
    w.srv->SetThreadInitCallback([et, nl](EventLoop *l) { if (nl) { W->loops.push_back(l); W->loop_of[vrt::self()] = int(W->loops.size()); if (et) l->SetEdgeTriggerMode(); } });
    w.srv->SetConnectionCallback([](TcpConnectionPtr const &c) {
      if (c->IsConnected()) {
        int id = cid_of(c->channel()->GetFd()); W->ids[c.get()] = id;
        int nm = int(W->names.size()), old = W->names.count(c->GetName()); W->names[c->GetName()] = nm;
        ev("{\"e\":\"Up\",\"c\":%d,\"t\":%d,\"fresh\":%d}", id, me(), !old);
        body("onup", ++W->ups, &c);
      } else {
        auto it = W->ids.find(c.get()); int id = it == W->ids.end() ? -1 : it->second;
        if (it != W->ids.end()) W->ids.erase(it);
        ev("{\"e\":\"Down\",\"c\":%d,\"t\":%d}", id, me());
        body("ondown", ++W->downs, &c);
      }
    });
    w.srv->SetMessageCallback([](TcpConnectionPtr const &c, Buffer &b, TimeStamp) { std::string m = b.RetrieveAllAsString(); c->Send(StringView(m)); body("onmsg", ++W->msgs, &c); });
    w.srv->SetWriteCompleteCallback([](TcpConnectionPtr const &) { return true; });
    w.ready = true;
    loop.StartLoop();
    destroy();
    w.loop = nullptr;
  });
  vrt::block([&] { return w.ready; });
  if (s.geti("start", 1)) { w.starts++; w.srv->StartRun(); quiet(0); }
  std::vector<std::unique_ptr<UThread>> th;
  for (auto &p : s.thr) if (p.first[0] == 't') {
    auto const *ops = &p.second;
    th.emplace_back(new UThread([ops] { for (auto &o : *ops) op1(o, nullptr); }));
  }
  for (auto &t : th) t->join();
  quiet(0);
  { Op o; o.name = "unhold"; op1(o, nullptr); }
  if (s.geti("end", 0) == 0) { Op o; o.name = "del"; op1(o, nullptr); quiet(0); }
  vrt::block([] { return !W->users; }); w.leaving = true;
  w.loop->Quit();
  L.join();
  { Op o; o.name = "unhold"; op1(o, nullptr); }
  ev("{\"e\":\"Exit\",\"socks\":%d,\"fds\":%d}", vrt::open_fds(vrt::K_SOCK) + vrt::open_fds(vrt::K_LISTEN), vrt::open_fds());
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
