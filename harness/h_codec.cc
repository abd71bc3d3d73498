// LengthHeaderCodec (example/length_codec) on server connections against scripted peers.
#include "h_common.h"
#include "kanon/net/channel.h"
#include "kanon/net/event_loop.h"
#include "kanon/net/user_server.h"
#include "kanon/net/connection/tcp_connection.h"
#include "example/length_codec/codec.h"
#include <map>
using namespace kanon;
namespace {
struct Conn { TcpConnectionPtr p; std::string pending, wire; std::vector<std::pair<int, long>> frames; size_t seen = 0; };
struct World {
  Script const *s; EventLoop *loop = nullptr; bool ready = false; int loop_tid = -1;
  std::unique_ptr<TcpServer> srv; std::unique_ptr<LengthHeaderCodec> codec;
  std::map<int, Conn> c; std::map<TcpConnection *, int> ids; int next_m = 1, next_f = 1, msgs = 0; std::map<int, long> len;
  std::string take = "all";
} *W;
bool is(Op const &o, char const *n) { return o.name == n; }
int me() { return vrt::self() == W->loop_tid ? 0 : vrt::self(); }
int cid_of(int fd) { for (int i = vrt::net_conns() - 1; i >= 0; --i) if (vrt::net_fd(i) == fd) return i; return -1; }
std::string be32(uint32_t n) { std::string r; for (int s = 24; s >= 0; s -= 8) r += char((n >> s) & 255); return r; }
void wire(int c, char const *d, size_t n)
{
  auto &w = W->c[c].wire; w.append(d, n);
  while (w.size() >= 4) {
    uint32_t l = 0; for (int i = 0; i < 4; ++i) l = (l << 8) | (unsigned char)w[size_t(i)];
    if (l > 4000000) { ev("{\"e\":\"W\",\"c\":%d,\"m\":0,\"n\":0,\"ok\":0}", c); w.clear(); return; }
    if (w.size() - 4 < l) return;
    std::string x = w.substr(4, l); w.erase(0, 4 + size_t(l));
    int m = l ? (unsigned char)x[0] : 0;
    ev("{\"e\":\"W\",\"c\":%d,\"m\":%d,\"n\":%u,\"ok\":%d}", c, m, l, x == payload(m, long(l)));
  }
}
void quiet(int64_t d, bool full = false) // full: the kernel took what it was given
{
  vrt::quiesce(vrt::now() + d);
  for (auto &p : W->c) ev("{\"e\":\"Quiet\",\"c\":%d,\"part\":%d,\"full\":%d}", p.first, int(p.second.wire.size()), full);
}
void do_send(int cid, TcpConnectionPtr const &c, std::string const &form, long len, int cut)
{
  int m = W->next_m++;
  if (m > 250) return;
  std::string p = payload(m, len); int t = me();
  ev("{\"e\":\"SendB\",\"c\":%d,\"t\":%d,\"m\":%d,\"n\":%ld}", cid, t, m, len);
  if (form == "sv") W->codec->Send(c, StringView(p.data(), p.size()));
  else { // assembled from several pieces
    OutputBuffer b; size_t o = 0;
    if (form == "pre" && p.size() > 4) { b.Append(StringView(p.data() + 4, p.size() - 4)); b.Prepend(p.data(), 4); }
    else while (o < p.size()) { size_t k = std::min(p.size() - o, size_t(cut > 0 ? cut : 1)); b.Append(p.data() + o, k); o += k; }
    W->codec->Send(c, b);
  }
  ev("{\"e\":\"SendE\",\"c\":%d,\"m\":%d}", cid, m);
}
void user_op(Op const &o, int cid, TcpConnectionPtr const &c)
{
  if (is(o, "send")) do_send(cid, c, o.s(0, "sv"), o.i(1, 1), o.i(2, 100));
  else if (is(o, "cast")) { for (auto &p : W->c) if (p.second.p) do_send(p.first, p.second.p, o.s(0, "sv"), o.i(1, 1), 100); }
  else if (is(o, "shut")) { ev("{\"e\":\"Shut\",\"c\":%d}", cid); c->ShutdownWrite(); }
  else if (is(o, "close")) { ev("{\"e\":\"Hard\",\"c\":%d}", cid); c->ForceClose(); }
  else if (is(o, "take")) W->take = o.s(0, "all");
}
void op(Op const &o, int c)
{
  auto &w = W->c[c];
  if (is(o, "fr")) { int m = W->next_f++; if (m > 250) return; w.pending += be32(uint32_t(o.i(0))) + payload(m, o.i(0)); vrt::atomically([&] { w.frames.push_back({m, o.i(0)}); }); ev("{\"e\":\"Frame\",\"c\":%d,\"m\":%d,\"n\":%d}", c, m, o.i(0)); }
  else if (is(o, "bad")) { w.pending += be32(uint32_t(strtoul(o.s(0).c_str(), nullptr, 10))); ev("{\"e\":\"BadFrame\",\"c\":%d}", c); }
  else if (is(o, "huge")) { w.pending += be32(uint32_t(strtoul(o.s(0).c_str(), nullptr, 10))); vrt::atomically([&] { w.frames.push_back({0, 1000000000}); }); ev("{\"e\":\"Frame\",\"c\":%d,\"m\":0,\"n\":1000000000}", c); }
  else if (is(o, "junk")) { w.pending += std::string(size_t(o.i(0)), '\0'); ev("{\"e\":\"Junk\",\"c\":%d,\"n\":%d}", c, o.i(0)); }
  else if (is(o, "seg") || is(o, "rest")) {
    size_t n = is(o, "rest") ? w.pending.size() : std::min(w.pending.size(), size_t(o.i(0)));
    if (n) { std::string x = w.pending.substr(0, n); w.pending.erase(0, n); ev("{\"e\":\"Arrive\",\"c\":%d,\"n\":%zu}", c, n); vrt::net_send(c, x); }
  }
  else if (is(o, "settle")) quiet(0);
  else if (is(o, "p")) vrt::point();
  else if (is(o, "grant")) vrt::net_grant(c, size_t(o.i(0)));
  else if (is(o, "fin")) vrt::net_fin(c);
  else if (is(o, "rst")) { ev("{\"e\":\"Hard\",\"c\":%d}", c); vrt::net_rst(c); }
  else if (is(o, "task")) { std::string b = o.s(0); W->loop->QueueToLoop([b, c] { TcpConnectionPtr p = W->c[c].p; if (p) for (auto &x : *W->s->find(b.c_str())) user_op(x, c, p); }); }
  else { TcpConnectionPtr p; vrt::atomically([&] { p = w.p; }); if (p) user_op(o, c, p); }
}
void run(Script const &s, uint64_t)
{
  static World w; W = &w; w.s = &s;
  vrt::begin(vrt::next_params);
  if (s.opt.count("win")) vrt::net_set_default_window(size_t(s.geti("win", 0)));
  vrt::hooks.on_write = [](int c, char const *d, size_t n, size_t) { wire(c, d, n); };
  vrt::hooks.on_write_err = [](int c, int err) { if (err != EAGAIN && err != EINTR) ev("{\"e\":\"Hard\",\"c\":%d}", c); };
  vrt::hooks.on_arrive = [](int c) { ev("{\"e\":\"Conn\",\"c\":%d}", c); };
  vrt::hooks.on_shutdown = [](int c, int) { ev("{\"e\":\"Fin\",\"c\":%d}", c); };
  UThread L([&] {
    w.loop_tid = vrt::self();
    EventLoop loop(bool(s.geti("poller", 0)));
    if (s.geti("et", 0)) loop.SetEdgeTriggerMode();
    w.loop = &loop;
    w.codec.reset(new LengthHeaderCodec([](TcpConnectionPtr const &c, Buffer &b, TimeStamp) {
      // the callback takes its message, and no more, from the front of the buffer
      int id = W->ids[c.get()], m = 0; size_t n = 0; bool ok = false;
      auto &f = W->c[id].frames; size_t i = W->c[id].seen++;
      if (i < f.size()) {
        m = f[i].first; n = size_t(f[i].second);
        ok = b.GetReadableSize() >= n && std::string(b.GetReadBegin(), n) == payload(m, long(n));
      }
      ev("{\"e\":\"Dlv\",\"c\":%d,\"m\":%d,\"n\":%zu,\"ok\":%d}", id, m, std::min(n, size_t(2000000000)), ok);
      if (W->take == "read") for (size_t j = 0; ok && j < n; ++j) b.Read8();
      else b.AdvanceRead(std::min(n, b.GetReadableSize()));
      char k[24]; snprintf(k, sizeof k, "onmsg%d", ++W->msgs);
      auto *ops = W->s->find(k); if (ops) for (auto &o : *ops) user_op(o, id, c);
    }));
    if (s.opt.count("max")) w.codec->SetMaximumAcceptLength(strtoull(s.gets("max").c_str(), nullptr, 10));
    w.srv.reset(new TcpServer(&loop, InetAddr("127.0.0.1:2000"), "S"));
    w.srv->SetConnectionCallback([](TcpConnectionPtr const &c) {
      if (c->IsConnected()) { int id = cid_of(c->channel()->GetFd()); W->ids[c.get()] = id; ev("{\"e\":\"Up\",\"c\":%d}", id); vrt::atomically([&] { W->c[id].p = c; }); }
      else { int id = W->ids[c.get()]; ev("{\"e\":\"Down\",\"c\":%d}", id); vrt::atomically([&] { W->c[id].p.reset(); }); }
    });
    w.srv->SetMessageCallback([](TcpConnectionPtr const &c, Buffer &b, TimeStamp t) { W->codec->OnMessage(c, b, t); });
    w.ready = true;
    loop.StartLoop();
    w.loop = nullptr;
    w.srv.reset();
  });
  vrt::block([&] { return w.ready; });
  w.srv->StartRun();
  vrt::quiesce(vrt::now());
  static std::vector<int> cids; int n = s.geti("conns", 1);
  for (int i = 0; i < n; ++i) { cids.push_back(vrt::net_connect(2000)); w.c[cids.back()]; }
  quiet(0);
  std::vector<std::unique_ptr<UThread>> th;
  for (auto &p : s.thr) if (p.first[0] == 'c' || p.first[0] == 'u') { // c<i>: peer of connection i; u<i>.. : a user thread of it
    int c = atoi(p.first.c_str() + 1); auto const *ops = &p.second;
    if (c >= int(cids.size())) continue;
    c = cids[size_t(c)];
    th.emplace_back(new UThread([ops, c] { for (auto &o : *ops) op(o, c); }));
  }
  for (auto &t : th) t->join();
  for (auto &p : w.c) vrt::net_grant(p.first, size_t(1) << 30);
  quiet(0, true);
  for (auto &p : w.c) ev("{\"e\":\"Hard\",\"c\":%d}", p.first);
  th.clear();
  w.loop->Quit();
  L.join();
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
