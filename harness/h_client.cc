// Connector (kind=con) and TcpClient (kind=cli) against scripted outcomes of connect().
#include "h_common.h"
#include "kanon/net/channel.h"
#include "kanon/net/connector.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/user_client.h"
#include <deque>
#include <set>
using namespace kanon;
namespace {
struct World {
  Script const *s; EventLoop *loop = nullptr; int loop_tid = -1; bool ready = false; int turn = 0, req = 0;
  std::shared_ptr<Connector> con; TcpClientPtr cli; bool gone = false;
  TcpConnectionPtr held; int news = 0, ups = 0, downs = 0, msgs = 0, stops = 0;
  int cur = -1;              // the connection announced last
  int users = 0;             // operations using the client: it is destroyed when the last of them lets go
  std::map<TcpConnection *, int> ids; std::set<int> handed; std::deque<vrt::Outcome> outs; vrt::Outcome def;
  std::map<int, bool> up; bool con_stopped = false; bool mine = false;
  std::map<int, std::vector<int>> bye; // connection -> descriptors the harness owns (kind=con)
} *W;
int me() { int t = vrt::self(); return t == W->loop_tid ? 0 : t ? t : 99; }
long long now() { return (long long)vrt::now(); }
int cid_of(int fd) { for (int i = vrt::net_conns() - 1; i >= 0; --i) if (vrt::net_fd(i) == fd) return i; return -1; }
void quiet(int64_t d)
{
  vrt::quiesce(vrt::now() + d);
  ev("{\"e\":\"Quiet\",\"now\":%lld}", now());
}
void body(char const *n, int k = -1);
bool is(Op const &o, char const *n) { return o.name == n; }
template <typename F> void request(char const *what, F f)
{
  int t = me(), id = W->req++;
  ev("{\"e\":\"%sCall\",\"t\":%d,\"id\":%d,\"now\":%lld}", what, t, id, now());
  f();
  ev("{\"e\":\"%sRet\",\"t\":%d,\"id\":%d,\"now\":%lld}", what, t, id, now());
  if (t != 0) W->loop->QueueToLoop([id] { ev("{\"e\":\"Eff\",\"id\":%d}", id); });
}
struct Use {
  TcpClientPtr k;
  Use() : k(W->cli) { if (k) ++W->users; }
  ~Use() { if (k && --W->users == 0 && !W->cli) request("Del", [&] { k.reset(); }); }
  TcpClient *operator->() const { return k.get(); }
  explicit operator bool() const { return bool(k); }
};
void op1(Op const &o)
{
  int t = me();
  EventLoop *L = W->loop;
  (void)L;
  if (is(o, "start")) { auto c = W->con; if (c) request("Start", [&] { c->StartRun(); }); }
  else if (is(o, "stop")) {
    if (auto c = W->con) request("Stop", [&] { c->Stop(); });
    else { Use k; if (k) request("Stop", [&] { k->Stop(); }); }
  }
  else if (is(o, "rest")) { auto c = W->con; if (c) request("Rest", [&] { c->Restrat(); }); }
  else if (is(o, "connect")) { Use k; if (k) request("Connect", [&] { k->Connect(); }); }
  else if (is(o, "disc")) { Use k; if (k) request("Disc", [&] { k->Disconnect(); }); }
  else if (is(o, "enretry")) { Use k; if (k) request("EnR", [&] { k->EnableRetry(); }); }
  else if (is(o, "get")) {
    Use k; if (!k) return;
    ev("{\"e\":\"GetCall\",\"t\":%d}", t);
    auto c = k->GetConnection();
    auto it = c ? W->ids.find(c.get()) : W->ids.end();
    ev("{\"e\":\"GetRet\",\"t\":%d,\"c\":%d}", t, !c ? -1 : it == W->ids.end() ? -2 : it->second);
  }
  else if (is(o, "hold")) { Use k; if (k) { auto c = k->GetConnection(); if (c && W->ids.count(c.get())) { ev("{\"e\":\"Hold\"}"); W->held = c; } } }
  else if (is(o, "unhold")) { if (W->held) { ev("{\"e\":\"Unhold\"}"); TcpConnectionPtr c; c.swap(W->held); } }
  else if (is(o, "fclose")) { Use k; auto c = k ? k->GetConnection() : W->held; if (c && (c == W->held || W->ids.count(c.get()))) { ev("{\"e\":\"FClose\"}"); c->ForceClose(); } }
  else if (is(o, "send")) { Use k; auto c = k ? k->GetConnection() : W->held; if (c) c->Send(StringView("hello")); }
  else if (is(o, "del")) {
    Use k; W->cli.reset();
  }
  else if (is(o, "adv")) vrt::advance(o.i(0, 1));
  else if (is(o, "point")) vrt::point();
  else if (t != 0) {
    if (is(o, "wait")) quiet(atoll(o.s(0, "1").c_str()));
    else if (is(o, "settle")) quiet(0);
    else if (is(o, "turn")) { int k = o.i(0); vrt::block([k] { return W->turn == k; }); W->turn = k + 1; }
    else if (is(o, "pfin") || is(o, "prst") || is(o, "psend")) {
      int c = W->cur; if (c < 0 || vrt::net_local_closed(c)) return;
      if (is(o, "psend")) { vrt::net_send(c, "hi"); return; }
      ev("{\"e\":\"Peer\",\"c\":%d}", c);
      if (is(o, "pfin")) vrt::net_fin(c); else vrt::net_rst(c);
    }
    else if (is(o, "task")) { std::string b = o.s(0, "-"); L->QueueToLoop([b] { body(b.c_str()); }); }
    else if (is(o, "later")) { std::string b = o.s(1, "-"); L->RunAfterUs([b] { body(b.c_str()); }, uint64_t(o.i(0, 1))); }
  }
}
void body(char const *n, int k)
{
  char t[48]; if (k >= 0) { snprintf(t, sizeof t, "%s%d", n, k); n = t; }
  auto *ops = W->s->find(n);
  if (ops) for (auto &o : *ops) op1(o);
}
// imm,delay,res,self;  several separated by /
vrt::Outcome parse_out(std::string const &x)
{
  vrt::Outcome o; int imm = 115, res = 0, self = 0; long long d = 0;
  sscanf(x.c_str(), "%d,%lld,%d,%d", &imm, &d, &res, &self);
  o.imm = imm; o.delay = d; o.res = res; o.selfc = self; return o;
}
int cls(int imm)
{
  if (imm == 0 || imm == EINTR || imm == EINPROGRESS) return 0;                 // decided later
  if (imm == EAGAIN || imm == EADDRNOTAVAIL || imm == ENETUNREACH || imm == EHOSTUNREACH || imm == ECONNREFUSED || imm == ETIMEDOUT) return 1; // transient
  return 2;                                                                     // fatal
}
void run(Script const &s, uint64_t)
{
  static World w; W = &w; w.s = &s;
  vrt::begin(vrt::next_params);
  bool con = s.gets("kind", "con") == "con";
  { std::string o = s.gets("out"), cur; for (char c : o + "/") { if (c == '/') { if (!cur.empty()) w.outs.push_back(parse_out(cur)); cur.clear(); } else cur += c; } }
  w.def = parse_out(s.gets("def", "115,100,0,0"));
  for (auto &x : w.outs) vrt::net_push_outcome(x);
  vrt::net_set_default_outcome(w.def);
  if (s.opt.count("win")) vrt::net_set_default_window(size_t(s.geti("win", 0)));
  vrt::hooks.on_socket = [](int c) { ev("{\"e\":\"Sock\",\"c\":%d}", c); };
  vrt::hooks.on_connect = [](int c, int imm) {
    vrt::Outcome o = W->def;
    if (!W->outs.empty()) { o = W->outs.front(); W->outs.pop_front(); }
    int k = cls(imm);
    ev("{\"e\":\"Try\",\"c\":%d,\"cls\":%d,\"ok\":%d,\"at\":%lld,\"now\":%lld,\"t\":%d}", c, k, k == 0 && !o.res && !o.selfc ? 1 : 0, now() + (long long)(k == 0 && imm ? o.delay : 0), now(), me());
  };
  vrt::hooks.on_close = [](int, int kind, int c) {
    if (kind == vrt::K_SOCK && !W->mine) ev("{\"e\":\"Close\",\"c\":%d,\"now\":%lld,\"t\":%d}", c, now(), me()); };
  vrt::hooks.on_shutdown = [](int c, int) { ev("{\"e\":\"Fin\",\"c\":%d}", c); };
  vrt::hooks.on_badfd = [](int, char const *op) { ev("{\"e\":\"BadFd\",\"op\":\"%s\"}", op); };
  UThread L([&] {
    w.loop_tid = vrt::self();
    EventLoop loop(bool(s.geti("poller", 0)));
    if (s.geti("et", 0)) loop.SetEdgeTriggerMode();
    w.loop = &loop; w.ready = true;
    loop.StartLoop();
  });
  vrt::block([&] { return w.ready; });
  if (con) {
    w.con = Connector::NewConnector(w.loop, (s.geti("v6", 0) ? InetAddr(2000, true, true) : InetAddr("127.0.0.1:2000")));
    w.con->SetNewConnectionCallback([](FdType fd) {
      int c = cid_of(fd);
      ev("{\"e\":\"New\",\"c\":%d,\"t\":%d}", c, me());
      body("onnew", ++W->news);
      W->mine = true; ::close(fd); W->mine = false; // the user's
    });
  } else {
    w.cli = NewTcpClient(w.loop, (s.geti("v6", 0) ? InetAddr(2000, true, true) : InetAddr("127.0.0.1:2000")), "C", s.geti("compact", 1));
    w.cli->SetConnectionCallback([](TcpConnectionPtr const &c) {
      if (c->IsConnected()) {
        int id = -1;
        for (int i = vrt::net_conns() - 1; i >= 0; --i) if (vrt::net_fd(i) >= 0 && !W->up.count(i)) { id = i; break; }
        W->ids[c.get()] = id; W->up[id] = true; W->cur = id;
        ev("{\"e\":\"Up\",\"c\":%d,\"t\":%d}", id, me());
        body("onup", ++W->ups);
        ev("{\"e\":\"UpEnd\",\"c\":%d}", id);
      } else {
        int id = W->ids.count(c.get()) ? W->ids[c.get()] : -1;
        ev("{\"e\":\"Down\",\"c\":%d,\"t\":%d}", id, me());
        body("ondown", ++W->downs);
        W->ids.erase(c.get());
        ev("{\"e\":\"DownEnd\",\"c\":%d,\"now\":%lld}", id, now());
      }
    });
    w.cli->SetMessageCallback([](TcpConnectionPtr const &, Buffer &b, TimeStamp) { b.AdvanceAll(); body("onmsg", ++W->msgs); });
    w.cli->SetWriteCompleteCallback([](TcpConnectionPtr const &) { return true; });
  }
  std::vector<std::unique_ptr<UThread>> th;
  for (auto &p : s.thr) if (p.first[0] == 't') {
    auto const *ops = &p.second;
    th.emplace_back(new UThread([ops] { for (auto &o : *ops) op1(o); }));
  }
  for (auto &t : th) t->join();
  quiet(0);
  if (s.opt.count("tail")) quiet(atoll(s.gets("tail").c_str()));
  // the user is done: stop, release, and let everything end
  if (con) { Op o; o.name = "stop"; op1(o); w.con.reset(); }
  else {
    Op o; o.name = "del"; op1(o);
    quiet(0);
    o.name = "unhold"; op1(o);
  }
  quiet(200000);
  if (!con && w.cur >= 0 && !vrt::net_local_closed(w.cur)) { ev("{\"e\":\"Peer\",\"c\":%d}", w.cur); vrt::net_fin(w.cur); quiet(1000); }
  w.loop->Quit();
  L.join();
  ev("{\"e\":\"Exit\",\"socks\":%d,\"fds\":%d}", vrt::open_fds(vrt::K_SOCK), vrt::open_fds());
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
