// Drives one TcpConnection (accepted by a TcpServer) through its public API.
#include "h_common.h"
#include "kanon/net/user_server.h"
#include "kanon/net/channel.h"
using namespace kanon;
namespace {
struct World {
  Script const *s; EventLoop *loop = nullptr; TcpConnectionPtr conn; std::weak_ptr<TcpConnection> wconn;
  int loop_tid = -1; bool ready = false, isup = false, isdown = false, torn = false;
  Decoder dec; int next_m = 1; long consumed = 0, seen = 0; int msgs = 0, wcs = 0, hws = 0;
  std::string arrived; int cid = 0; long arr = 0; std::string consume = "all"; bool hold = true;
  int turn = 0; bool finished = false, pended = false;
} *W;
unsigned char rxb(long k) { return payload_byte(7, k + 1); }
int me() { return vrt::self() == W->loop_tid ? 0 : vrt::self(); }
long clen(long len) { return len; }
void do_send(TcpConnectionPtr const &c, std::string const &form, long len)
{
  int m = W->next_m++;
  if (m > 250) return;
  W->dec.len[m] = len;
  std::string p = payload(m, len);
  int t = me();
  if (form == "raw") { ev("{\"e\":\"SendCall\",\"t\":%d,\"m\":%d,\"n\":%ld}", t, m, clen(len)); c->Send((void const *)p.data(), p.size()); }
  else if (form == "sv") { ev("{\"e\":\"SendCall\",\"t\":%d,\"m\":%d,\"n\":%ld}", t, m, clen(len)); c->Send(StringView(p.data(), p.size())); }
  else if (form == "buf") { Buffer b; b.Append(p.data(), p.size()); ev("{\"e\":\"SendCall\",\"t\":%d,\"m\":%d,\"n\":%ld}", t, m, clen(len)); c->Send(b); }
  else { ChunkList l; l.Append(p.data(), p.size()); ev("{\"e\":\"SendCall\",\"t\":%d,\"m\":%d,\"n\":%ld}", t, m, clen(len)); c->Send(l); }
  ev("{\"e\":\"SendRet\",\"t\":%d,\"m\":%d}", t, m);
}
// order between threads: "turn k" waits for all lower turns; "settle" lets everything else finish
bool order_op(Op const &o)
{
  if (o.name == "turn") { int k = o.i(0); vrt::block([k] { return W->turn == k; }); W->turn = k + 1; }
  else if (o.name == "settle") vrt::quiesce(vrt::now() + 1000);
  else if (o.name == "point") vrt::point();
  else return false;
  return true;
}
void user_ops(std::vector<Op> const *ops);
void user_op(Op const &o)
{
  TcpConnectionPtr c = W->wconn.lock();
  int t = me();
  if (o.name == "send") { if (c) do_send(c, o.s(0, "raw"), o.i(1, 1)); }
  else if (o.name == "shut") { if (c) { ev("{\"e\":\"ShutCall\",\"t\":%d}", t); c->ShutdownWrite(); ev("{\"e\":\"ShutRet\",\"t\":%d}", t); } }
  else if (o.name == "close") { if (c) { ev("{\"e\":\"CloseCall\",\"t\":%d}", t); c->ForceClose(); ev("{\"e\":\"CloseRet\",\"t\":%d}", t); } }
  else if (o.name == "disr") { if (c) { ev("{\"e\":\"DisR\"}"); c->DisbaleRead(); ev("{\"e\":\"DisRet\"}"); } }
  else if (o.name == "enr") { if (c) { ev("{\"e\":\"EnR\"}"); c->EnableRead(); ev("{\"e\":\"EnRet\"}"); } }
  else if (o.name == "adv") vrt::advance(o.i(0, 1));
  else if (o.name == "point") vrt::point();
  else if (o.name == "drop") { ev("{\"e\":\"Drop\"}"); W->hold = false; W->conn.reset(); }
}
void user_ops(std::vector<Op> const *ops) { if (ops) for (auto &o : *ops) user_op(o); }
void thread_ops(std::vector<Op> const *ops) { if (ops) for (auto &o : *ops) if (!order_op(o)) user_op(o); }
void cb_ops(char const *base, int k)
{
  char n[32]; snprintf(n, sizeof n, "%s%d", base, k);
  user_ops(W->s->find(n));
}
void env_op(Op const &o)
{
  int c = W->cid;
  if (o.name == "psend") {
    long n = o.i(0, 1); std::string b;
    for (long i = 0; i < n; ++i) b += char(rxb(W->arr + i));
    if (vrt::net_local_closed(c) || W->pended) return;
    W->arr += n; ev("{\"e\":\"Arr\",\"n\":%ld}", n);
    vrt::net_send(c, b);
  } else if (o.name == "pfin") { if (!vrt::net_local_closed(c)) ev("{\"e\":\"PeerFin\"}"); W->pended = true; vrt::net_fin(c); }
  else if (o.name == "prst") { if (!vrt::net_local_closed(c)) ev("{\"e\":\"PeerRst\"}"); W->pended = true; vrt::net_rst(c); }
  else if (o.name == "grant") vrt::net_grant(c, size_t(o.i(0, 1)));
  else if (o.name == "open") vrt::net_grant(c, SIZE_MAX / 2);
  else order_op(o);
}
void run(Script const &s, uint64_t seed)
{
  (void)seed;
  static World w; W = &w; w.s = &s;
  vrt::begin(vrt::next_params);
  bool et = s.geti("et", 0), poller = s.geti("poller", 0);
  w.consume = s.gets("consume", "all");
  vrt::net_set_default_window(s.opt.count("win") ? size_t(s.geti("win", 0)) : SIZE_MAX);
  vrt::hooks.on_write = [](int, char const *d, size_t n, size_t) {
    std::string segs = W->dec.feed(d, n);
    ev("{\"e\":\"W\",\"n\":%zu,\"segs\":%s,\"t\":%d}", n, segs.c_str(), me());
  };
  vrt::hooks.on_write_err = [](int, int e) { ev("{\"e\":\"WErr\",\"again\":%d}", e == EAGAIN ? 1 : 0); };
  vrt::hooks.on_shutdown = [](int, int how) { ev("{\"e\":\"Fin\",\"how\":%d,\"t\":%d}", how, me()); };
  vrt::hooks.on_close = [](int, int kind, int cid) { if (kind == vrt::K_SOCK && cid == W->cid) ev("{\"e\":\"FdClose\",\"t\":%d}", me()); };
  vrt::hooks.on_badfd = [](int fd, char const *op) { (void)fd; ev("{\"e\":\"BadFd\",\"op\":\"%s\"}", op); };
  vrt::hooks.on_read_end = [](int, int e) { ev("{\"e\":\"REnd\",\"err\":%d}", e ? 1 : 0); };
  int mark = s.geti("mark", 0);
  UThread L([&] {
    w.loop_tid = vrt::self();
    EventLoop loop(poller);
    if (et) loop.SetEdgeTriggerMode();
    {
      std::unique_ptr<TcpServer> srv(new TcpServer(&loop, (s.geti("v6", 0) ? InetAddr(2000, true, true) : InetAddr("127.0.0.1:2000")), "S"));
      srv->SetConnectionCallback([&](TcpConnectionPtr const &c) {
        if (c->IsConnected()) {
          ev("{\"e\":\"Up\",\"t\":%d,\"hold\":%d}", me(), W->hold ? 1 : 0);
          W->wconn = c; if (W->hold) W->conn = c;
          if (mark) c->SetHighWaterMarkCallback([](TcpConnectionPtr const &, size_t n) {
            ev("{\"e\":\"HW\",\"n\":%zu,\"t\":%d}", n, me()); ++W->hws; cb_ops("onhw", W->hws); }, size_t(mark));
          user_ops(W->s->find("onup"));
          W->isup = true;
        } else {
          ev("{\"e\":\"Down\",\"t\":%d,\"st\":%d}", me(), c->IsDisconnected() ? 1 : 0);
          W->isdown = true;
          user_ops(W->s->find("ondown"));
        }
      });
      if (s.geti("msgcb", 1)) srv->SetMessageCallback([&](TcpConnectionPtr const &, Buffer &b, TimeStamp) {
        long n = long(b.GetReadableSize()); char const *p = b.GetReadBegin(); bool ok = true;
        for (long i = 0; i < n; ++i) if ((unsigned char)p[i] != rxb(W->consumed + i)) { ok = false; break; }
        ev("{\"e\":\"Msg\",\"from\":%ld,\"to\":%ld,\"ok\":%d,\"t\":%d}", W->consumed, W->consumed + n, ok ? 1 : 0, me());
        ++W->msgs;
        long k = n;
        if (W->consume == "none") k = 0; else if (W->consume == "half") k = n / 2; else if (W->consume == "one") k = n ? 1 : 0; else if (W->consume == "alt") k = W->msgs % 2 ? n / 3 : n;
        b.AdvanceRead(size_t(k)); W->consumed += k;
        cb_ops("onmsg", W->msgs);
      });
      if (s.geti("wc", 0)) srv->SetWriteCompleteCallback([&](TcpConnectionPtr const &) -> bool {
        ev("{\"e\":\"WC\",\"t\":%d}", me()); ++W->wcs; cb_ops("onwc", W->wcs); return true; });
      srv->StartRun();
      w.loop = &loop; w.ready = true;
      loop.StartLoop();
      ev("{\"e\":\"Teardown\"}");
      srv.reset();
      w.torn = true;
    }
  });
  vrt::block([&] { return w.ready; });
  vrt::quiesce(1000);
  w.cid = vrt::net_connect(2000);
  vrt::block([&] { return w.isup; });
  std::vector<std::unique_ptr<UThread>> th;
  for (auto &p : s.thr) {
    auto const *ops = &p.second;
    if (p.first == "env") th.emplace_back(new UThread([ops] { for (auto &o : *ops) env_op(o); }));
    else if (p.first == "loop") th.emplace_back(new UThread([ops] { // each op is a task of the loop
      for (auto &o : *ops) { Op const *po = &o; if (order_op(o)) continue; W->loop->QueueToLoop([po] { user_op(*po); }); vrt::point(); } }));
    else if (p.first[0] == 't') th.emplace_back(new UThread([ops] { thread_ops(ops); }));
  }
  for (auto &t : th) t->join();
  vrt::quiesce(vrt::now() + 1000000);
  if (s.geti("finish", 1)) { // open the window, enable reading; everything must settle
    vrt::net_grant(w.cid, SIZE_MAX / 2);
    bool done = false;
    w.loop->QueueToLoop([&] { Op o; o.name = "enr"; user_op(o); done = true; });
    vrt::block([&] { return done; }, vrt::now() + 1000000);
  }
  vrt::quiesce(vrt::now() + 30000000);
  if (s.geti("finish", 1)) ev("{\"e\":\"Quiet\",\"closed\":%d}", vrt::net_local_closed(w.cid) ? 1 : 0);
  if (w.conn) { ev("{\"e\":\"Drop\"}"); w.conn.reset(); }
  vrt::quiesce(vrt::now() + 1000000);
  if (s.geti("endclose", 1) && !vrt::net_local_closed(w.cid)) {
    ev("{\"e\":\"PeerFin\"}"); vrt::net_fin(w.cid);
    vrt::quiesce(vrt::now() + 1000000);
    if (s.geti("finish", 1)) ev("{\"e\":\"Quiet\",\"closed\":%d}", vrt::net_local_closed(w.cid) ? 1 : 0);
  }
  w.loop->Quit();
  L.join();
  ev("{\"e\":\"Exit\",\"closed\":%d,\"fds\":%d}", vrt::net_local_closed(w.cid) ? 1 : 0, vrt::open_fds());
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
