// Event dispatch: channels over raw sockets on one event loop (P08).
#include "h_common.h"
#include "kanon/net/channel.h"
#include "kanon/net/event_loop.h"
#include <poll.h>
#include <unistd.h>
using namespace kanon;
namespace {
struct Slot { int id = 0, conn = -1, fd = -1; bool open = false, dead = false; Channel *ch = nullptr; };
struct World {
  Script const *s; EventLoop *loop = nullptr; int loop_tid = -1; bool ready = false;
  std::vector<Slot> sl; std::map<int, int> on_fd; // descriptor -> channel
  int next = 1, cbs = 0, ops = 0; int ended = 0;
} *W;
int me() { return vrt::self() == W->loop_tid ? 0 : 1 + vrt::self(); }
bool is(Op const &o, char const *n) { return o.name == n; }
void body(std::string const &b, int slot);
void op1(Op const &o, int self, bool must = false);
void say(char const *e, int c) { ev("{\"e\":\"%s\",\"c\":%d}", e, c); }
void call(int slot, int id, char const *k)
{
  ev("{\"e\":\"Cb\",\"c\":%d,\"k\":\"%s\",\"t\":%d}", id, k, me());
  char t[16]; snprintf(t, sizeof t, "cb%d", ++W->cbs);
  Slot &s = W->sl[size_t(slot)];
  if (W->cbs < 40 && W->s->find(t)) body(t, slot);
  else if (s.id == id && s.open) { // what a well-behaved user does
    if (*k == 'r') {
      char b[256]; ssize_t n;
      while ((n = ::read(s.fd, b, sizeof b)) > 0) {}
      if (n == 0 || (n < 0 && errno != EAGAIN)) { Op o; o.name = (W->cbs & 1) ? "rm" : "dr"; o.a = {std::to_string(slot)}; op1(o, slot, true); }
    } else { Op o; o.name = *k == 'w' ? "dw" : "rm"; o.a = {std::to_string(slot)}; op1(o, slot, true); }
  }
  ev("{\"e\":\"CbEnd\",\"c\":%d}", id);
}
void make(int i)
{
  Slot &s = W->sl[size_t(i)];
  if (s.ch) { Channel *old = s.ch; W->loop->QueueToLoop([old] { delete old; }); }
  if (s.fd >= 0) { W->on_fd.erase(s.fd); ::close(s.fd); }
  s.conn = vrt::net_make_connected(); s.fd = vrt::net_fd(s.conn); s.id = W->next++; s.open = false; s.dead = false;
  s.ch = new Channel(W->loop, s.fd);
  W->on_fd[s.fd] = s.id;
  int id = s.id;
  s.ch->SetReadCallback([i, id](TimeStamp) { call(i, id, "r"); });
  s.ch->SetWriteCallback([i, id] { call(i, id, "w"); });
  s.ch->SetCloseCallback([i, id] { call(i, id, "c"); });
  s.ch->SetErrorCallback([i, id] { call(i, id, "x"); });
  say("New", id);
}
void op1(Op const &o, int self, bool must)
{
  if (!must && ++W->ops > 100) return;
  int i = o.s(0) == "me" ? self : o.i(0, 0);
  if (is(o, "q")) { std::string b = o.s(0, "-"); W->loop->QueueToLoop([b] { body(b, -1); }); return; }
  if (is(o, "point")) { vrt::point(); return; }
  if (is(o, "settle")) { if (me()) { vrt::quiesce(vrt::now()); ev("{\"e\":\"Quiet\"}"); } return; }
  if (is(o, "wait")) { if (me()) { vrt::quiesce(vrt::now() + o.i(0, 1)); } return; }
  if (i < 0) return;
  Slot &s = W->sl[size_t(i) % W->sl.size()]; i = int(size_t(i) % W->sl.size());
  if (is(o, "ps")) { vrt::net_send(s.conn, std::string(size_t(o.i(1, 1)), 'x')); return; }
  if (is(o, "pf")) { vrt::net_fin(s.conn); return; }
  if (is(o, "pr")) { vrt::net_rst(s.conn); return; }
  if (is(o, "gr")) { vrt::net_grant(s.conn, size_t(o.i(1, 1))); return; }
  if (me()) return; // the rest is for the loop's thread
  if (is(o, "re")) { if (!s.open) make(i); return; }
  if (is(o, "rm")) { if (s.open) { bool none = s.ch->IsNoneEvent(); say("RM", s.id); s.open = false; s.dead = !none; s.ch->Remove(); } return; }
  // (whether a channel removed with interest left is added again with it is left open)
  if (s.dead) return;
  if (is(o, "er")) { say("ER", s.id); s.open = true; s.ch->EnableReading(); return; }
  if (is(o, "ew")) { say("EW", s.id); s.open = true; s.ch->EnableWriting(); return; }
  if (!s.open) return;
  if (is(o, "dr")) { say("DR", s.id); s.ch->DisableReading(); }
  else if (is(o, "dw")) { say("DW", s.id); s.ch->DisableWriting(); }
  else if (is(o, "da")) { say("DA", s.id); s.ch->DisableAll(); }
  else if (is(o, "drain")) { char b[64]; while (::read(s.fd, b, sizeof b) > 0) {} }
  else if (is(o, "fill")) { char b[8] = {}; for (int n = 0; n < 3 && ::write(s.fd, b, 8) > 0; ++n) {} }
  else if (is(o, "sh")) ::shutdown(s.fd, SHUT_WR);
}
void body(std::string const &b, int slot)
{
  auto *ops = W->s->find(b.c_str());
  if (ops) for (auto &o : *ops) op1(o, slot);
}
void run(Script const &s, uint64_t)
{
  static World w; W = &w; w.s = &s;
  vrt::begin(vrt::next_params);
  if (s.opt.count("win")) vrt::net_set_default_window(size_t(s.geti("win", 0)));
  vrt::hooks.on_badfd = [](int, char const *op) { ev("{\"e\":\"BadFd\",\"op\":\"%s\"}", op); };
  vrt::hooks.on_pollset = [](int ret, std::vector<std::pair<int, int>> const &v) {
    if (!W->ready) return;
    std::string r;
    for (auto &p : v) {
      auto it = W->on_fd.find(p.first); int c = it == W->on_fd.end() ? 0 : it->second; char t[96];
      if (ret) snprintf(t, sizeof t, "%s{\"c\":%d,\"r\":%d,\"w\":%d,\"h\":%d,\"i\":%d,\"x\":%d}", r.empty() ? "" : ",", c, !!(p.second & (POLLIN | POLLPRI | POLLRDHUP)),
               !!(p.second & POLLOUT), !!(p.second & POLLHUP), !!(p.second & POLLIN), !!(p.second & (POLLERR | POLLNVAL)));
      else snprintf(t, sizeof t, "%s{\"c\":%d,\"r\":%d,\"w\":%d}", r.empty() ? "" : ",", c, !!(p.second & POLLIN), !!(p.second & POLLOUT));
      r += t;
    }
    ev("{\"e\":\"Poll%s\",\"k\":[%s]}", ret ? "R" : "B", r.c_str());
  };
  UThread L([&] {
    w.loop_tid = vrt::self();
    EventLoop loop(bool(s.geti("poller", 0)));
    if (s.geti("et", 0)) loop.SetEdgeTriggerMode();
    w.loop = &loop;
    w.sl.resize(size_t(s.geti("ch", 3)));
    for (size_t i = 0; i < w.sl.size(); ++i) make(int(i));
    if (s.geti("all", 0)) for (size_t i = 0; i < w.sl.size(); ++i) { vrt::net_send(w.sl[i].conn, "x"); Op o; o.a = {std::to_string(i)}; o.name = "er"; op1(o, -1, true); if (i % 3 == 0) { o.name = "ew"; op1(o, -1, true); } }
    body("init", -1);
    w.ready = true;
    loop.StartLoop();
    w.ready = false;
    for (auto &x : w.sl) { if (x.open) x.ch->Remove(); delete x.ch; ::close(x.fd); }
    w.loop = nullptr;
  });
  vrt::block([&] { return w.ready; });
  std::vector<std::unique_ptr<UThread>> th;
  for (auto &p : s.thr) if (p.first[0] == 't') {
    auto const *ops = &p.second;
    th.emplace_back(new UThread([ops] { for (auto &o : *ops) op1(o, -1); }));
  }
  for (auto &t : th) t->join();
  vrt::quiesce(vrt::now());
  ev("{\"e\":\"Quiet\"}");
  w.loop->Quit();
  L.join();
  ev("{\"e\":\"Exit\",\"fds\":%d}", vrt::open_fds());
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
