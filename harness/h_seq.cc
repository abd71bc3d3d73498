// The sequential structures: byte buffers, chunk lists, forward lists,
// growable arrays and memory pools. Every operation is logged with what it was
// given, what it returned and what all objects look like afterwards.
#include "h_common.h"
#include <sys/resource.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include "kanon/algo/fixed_vector.h"
#include "kanon/algo/forward_list.h"
#include "kanon/algo/reserved_array.h"
#include "kanon/buffer/buffer.h"
#include "kanon/buffer/chunk_list.h"
#include "kanon/mem/fixed_chunk_memory_pool.h"
#include "kanon/mem/linear_fixed_memory_pool.h"
#include "kanon/mem/object_memory_pool.h"
#include "kanon/mem/object_pool_allocator.h"
#include "kanon/net/buffer.h"
#include "kanon/net/chunk_list.h"
#include "kanon/string/fmt_stream.h"
#include "kanon/string/lexical_cast.h"
#include "kanon/string/lexical_stream.h"
#include "kanon/string/string_view.h"
#include "kanon/string/string_view_util.h"
#include <cmath>
#include "kanon/util/any.h"
#include "kanon/util/optional.h"
#include "kanon/util/time_stamp.h"
#include "kanon/util/unique_any.h"
using namespace kanon;
namespace {
typedef unsigned char u8;
// ------------------------------------------------------------ byte content
// the byte loops are not instrumented: whole ranges are checked by touch()
#define PLAIN __attribute__((no_sanitize("thread"), noinline))
PLAIN size_t run_len(u8 const *p, size_t n) { size_t i = 1; while (i < n && p[i] == u8(p[i - 1] + 1)) ++i; return i; }
PLAIN int first(u8 const *p) { return *p; }
PLAIN void count_up(char *p, int start, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = char(u8(start + int(i))); }
void touch(void const *p, size_t n) { vrt::check_range(p, n); }
// canonical runs: [[first byte, length], ...], the bytes of a run count up
struct Runs {
  std::vector<std::pair<int, long>> v;
  void add(u8 const *p, size_t n)
  {
    if (n) touch(p, n);
    for (size_t i = 0; i < n;) {
      size_t k = run_len(p + i, n - i); int c = first(p + i);
      if (!v.empty() && (v.back().first + v.back().second) % 256 == c) v.back().second += long(k);
      else v.push_back({c, long(k)});
      i += k;
    }
  }
  std::string str() const
  {
    std::string s = "["; char t[48];
    for (size_t i = 0; i < v.size(); ++i) { snprintf(t, sizeof t, "%s[%d,%ld]", i ? "," : "", v[i].first, v[i].second); s += t; }
    return s + "]";
  }
};
std::string runs(void const *p, size_t n) { Runs r; r.add((u8 const *)p, n); return r.str(); }
std::string fill(int start, long n) { std::string s; s.resize(size_t(n)); count_up(&s[0], start, size_t(n)); return s; }
void fill_at(char *p, int start, long n) { if (n > 0) { touch(p, size_t(n)); count_up(p, start, size_t(n)); } }
std::string big_endian(uint64_t x, int w) { u8 b[8]; for (int i = 0; i < w; ++i) b[i] = u8(x >> (8 * (w - 1 - i))); return runs(b, size_t(w)); }
uint64_t u64(std::string const &s) { return strtoull(s.c_str(), nullptr, 10); }
bool is(Op const &o, char const *n) { return o.name == n; }
// sizes relative to the object: letter with an optional +k or -k
long size_of(std::string const &a, std::function<long(char)> const &rel, long cap)
{
  long n;
  if (a[0] >= '0' && a[0] <= '9') n = atol(a.c_str());
  else { n = rel(a[0]); if (a.size() > 1) n += atol(a.c_str() + 1); }
  return std::max(0l, std::min(n, cap));
}
// the peer of a connected socket
struct Peer {
  int conn = -1, fd = -1; std::string out, in; int werr = 0, rerr = 0; long asked = 0;
  void open()
  {
    vrt::Kernel k; conn = vrt::net_make_connected(); fd = vrt::net_fd(conn);
    vrt::hooks.on_write = [this](int, char const *d, size_t n, size_t a) { out.append(d, n); asked += long(a); };
    vrt::hooks.on_write_err = [this](int, int e) { werr = e; };
    vrt::hooks.on_read = [this](int, char const *d, size_t n) { in.append(d, n); };
    vrt::hooks.on_read_end = [this](int, int e) { rerr = e; };
  }
};
// ------------------------------------------------------------------ buffer
struct Bufs {
  Buffer b[2]; Peer p;
  Bufs(long n0, long n1) : b{Buffer(size_t(n0)), Buffer(size_t(n1))} { p.open(); }
  std::string st()
  {
    std::string s = "[";
    for (int i = 0; i < 2; ++i) {
      char t[160];
      StringView v = b[i].ToStringView();
      bool same = v.data() == b[i].GetReadBegin() && v.size() == b[i].GetReadableSize() && b[i].HasReadable() == (v.size() > 0);
      snprintf(t, sizeof t, "%s{\"rs\":%ld,\"ws\":%ld,\"ps\":%ld,\"ok\":%d,\"q\":", i ? "," : "", long(b[i].GetReadableSize()), long(b[i].GetWritableSize()), long(b[i].GetPrependableSize()), same);
      s += t; s += runs(v.data(), v.size()); s += "}";
    }
    return s + "]";
  }
  void log(char const *e, int i, std::string const &rest) { ev("{\"e\":\"%s\",\"b\":%d%s,\"st\":%s}", e, i + 1, rest.c_str(), st().c_str()); }
  void run(std::vector<Op> const &ops)
  {
    log("New", 0, "");
    for (auto &o : ops) {
      int i = o.i(0) & 1; Buffer &B = b[i];
      auto sz = [&](size_t k, long cap) { return size_of(o.s(k, "0"), [&](char c) { return c == 'w' ? long(B.GetWritableSize()) : c == 'r' ? long(B.GetReadableSize()) : c == 'p' ? long(B.GetPrependableSize()) : long(B.GetPrependableSize() + B.GetWritableSize()) - 8; }, cap); };
      auto S = [](long n) { return ",\"n\":" + std::to_string(n); };
      auto D = [](std::string const &r) { return ",\"d\":" + r; };
      if (is(o, "app")) {
        std::string d = fill(o.i(2), sz(1, 200000)); std::string k = o.s(3, "v");
        if (k == "v") B.Append((void const *)d.data(), d.size()); else if (k == "c") B.Append(d.data(), d.size()); else B.Append(StringView(d.data(), d.size()));
        log("App", i, D(runs(d.data(), d.size())));
      } else if (is(o, "pre")) {
        if (B.GetPrependableSize() < 8) continue;
        std::string d = fill(o.i(2), sz(1, long(B.GetPrependableSize()))); std::string k = o.s(3, "v");
        if (k == "v") B.Prepend((void const *)d.data(), d.size()); else if (k == "c") B.Prepend(d.data(), d.size()); else B.Prepend(StringView(d.data(), d.size()));
        log("Pre", i, D(runs(d.data(), d.size())));
      } else if (is(o, "appi") || is(o, "prei")) {
        int w = o.i(1); uint64_t x = u64(o.s(2)); bool a = is(o, "appi");
        if (!a && (B.GetPrependableSize() < 8)) continue;
        switch (w) {
          case 1: a ? B.Append8(uint8_t(x)) : B.Prepend8(uint8_t(x)); break;
          case 2: a ? B.Append16(uint16_t(x)) : B.Prepend16(uint16_t(x)); break;
          case 4: a ? B.Append32(uint32_t(x)) : B.Prepend32(uint32_t(x)); break;
          default: a ? B.Append64(x) : B.Prepend64(x); w = 8;
        }
        log(a ? "App" : "Pre", i, D(big_endian(x, w)));
      } else if (is(o, "rdi") || is(o, "pki")) {
        int w = o.i(1); uint64_t x; bool r = is(o, "rdi");
        if (B.GetReadableSize() < size_t(w)) continue;
        switch (w) {
          case 1: x = r ? B.Read8() : B.GetReadBegin8(); break;
          case 2: x = r ? B.Read16() : B.GetReadBegin16(); break;
          case 4: x = r ? B.Read32() : B.GetReadBegin32(); break;
          default: x = r ? B.Read64() : B.GetReadBegin64();
        }
        log(r ? "Take" : "Peek", i, S(w) + D(big_endian(x, w)));
      } else if (is(o, "adv")) { long n = sz(1, long(B.GetReadableSize())); B.AdvanceRead(size_t(n)); log("Adv", i, S(n)); }
      else if (is(o, "advi")) {
        int w = o.i(1); if (B.GetReadableSize() < size_t(w)) continue;
        w == 1 ? B.AdvanceRead8() : w == 2 ? B.AdvanceRead16() : w == 4 ? B.AdvanceRead32() : B.AdvanceRead64();
        log("Adv", i, S(w));
      } else if (is(o, "all")) { long n = long(B.GetReadableSize()); B.AdvanceAll(); log("Adv", i, S(n)); }
      else if (is(o, "ret")) {
        long n = sz(1, long(B.GetReadableSize())); int k = o.i(2);
        if (k >= 2) n = long(B.GetReadableSize());
        std::string d;
        if (k == 0) d = B.RetrieveAsString(size_t(n));
        else if (k == 1) { auto v = B.RetrieveAsVector(size_t(n)); d.assign(v.begin(), v.end()); }
        else if (k == 2) d = B.RetrieveAllAsString();
        else { auto v = B.RetrieveAllAsVector(); d.assign(v.begin(), v.end()); }
        log("Take", i, S(n) + D(runs(d.data(), d.size())));
      } else if (is(o, "lf") || is(o, "crlf")) {
        bool c = is(o, "crlf"), str = o.i(1) == 1, f; std::string d; StringView v;
        if (str) f = c ? B.FindCrLf(d) : B.FindLf(d);
        else { f = c ? B.FindCrLf(v) : B.FindLf(v); if (f) d.assign(v.data(), v.size()); }
        if (!f) d.clear();
        log(c ? "FindC" : "FindL", i, std::string(",\"f\":") + (f ? "1" : "0") + ",\"t\":" + (str ? "1" : "0") + D(runs(d.data(), d.size())));
      } else if (is(o, "res")) { long n = sz(1, 300000); B.ReserveWriteSpace(size_t(n)); log("Res", i, S(n)); }
      else if (is(o, "inp")) { // reserve and write in place
        long n = sz(1, 200000); B.ReserveWriteSpace(size_t(n)); fill_at(B.GetWriteBegin(), o.i(2), n); B.AdvanceWrite(size_t(n));
        std::string d = fill(o.i(2), n); log("App", i, D(runs(d.data(), d.size())));
      } else if (is(o, "wr")) { // write what fits in place
        long n = sz(1, long(B.GetWritableSize())); fill_at(B.GetWriteBegin(), o.i(2), n); B.AdvanceWrite(size_t(n));
        std::string d = fill(o.i(2), n); log("App", i, D(runs(d.data(), d.size())));
      } else if (is(o, "shr")) { long n = sz(1, 300000); B.Shrink(size_t(n)); log("Same", i, S(n)); }
      else if (is(o, "swap")) { if (o.i(1)) { b[0].swap(b[1]); } else b[1].swap(b[0]); log("Swap", 0, ""); }
      else if (is(o, "copy")) { Buffer c(b[1 - i]); b[i].swap(c); log("Copy", i, ""); }
      else if (is(o, "asg")) { b[i] = b[1 - i]; log("Copy", i, ""); }
      else if (is(o, "rd")) { // the peer sends, then the buffer reads from the descriptor
        long n = sz(1, 300000); { vrt::Kernel ker; if (n) vrt::net_send(p.conn, fill(o.i(2), n)); }
        p.in.clear(); int err = 0; usize r = BufferReadFromFd(B, p.fd, err);
        log("Read", i, D(runs(p.in.data(), p.in.size())) + S(r == usize(-1) ? -1 : long(r)) + ",\"err\":" + std::to_string(err) + ",\"av\":" + std::to_string(vrt::net_unread(p.conn)));
      }
    }
  }
};
// -------------------------------------------------------------- chunk list
struct Chunks {
  ChunkList l[2]; Peer p;
  Chunks() { p.open(); }
  std::string st()
  {
    std::string s = "[";
    for (int i = 0; i < 2; ++i) {
      Runs r; long cnt = 0; bool ok = true; ChunkList const &c = l[i];
      for (auto const &k : c) {
        StringView v = k.ToStringView(); r.add((u8 const *)v.data(), v.size()); ++cnt;
        ok &= v.size() == k.GetReadableSize() && v.data() == k.GetReadBegin() && k.GetReadBegin() + k.GetReadableSize() == k.GetWriteBegin();
      }
      if (c.GetReadableSize()) ok &= !r.v.empty() && l[i].GetReadBegin8() == u8(r.v[0].first);
      ok &= c.GetChunkSize() == size_t(cnt) && c.IsEmpty() == !c.HasReadable();
      if (cnt) ok &= l[i].GetFirstChunk() == &*l[i].begin() && l[i].GetLastChunk()->GetReadableSize() + l[i].GetLastChunk()->GetWritableSize() <= l[i].GetLastChunk()->GetMaxSize();
      char t[160];
      snprintf(t, sizeof t, "%s{\"rs\":%ld,\"hr\":%d,\"ok\":%d,\"fr\":%ld,\"c\":%ld,\"q\":", i ? "," : "", long(c.GetReadableSize()), c.HasReadable(), ok, long(c.GetFreeChunkSize()), cnt);
      s += t + r.str() + "}";
    }
    return s + "]";
  }
  void log(char const *e, int i, std::string const &rest) { ev("{\"e\":\"%s\",\"b\":%d%s,\"st\":%s}", e, i + 1, rest.c_str(), st().c_str()); }
  void run(std::vector<Op> const &ops)
  {
    log("New", 0, "");
    for (auto &o : ops) {
      int i = o.i(0) & 1; ChunkList &L = l[i];
      auto sz = [&](size_t k, long cap) { return size_of(o.s(k, "0"), [&](char c) { return c == 'r' ? long(L.GetReadableSize()) : c == 'f' ? (L.IsEmpty() ? 0 : long(L.GetFirstChunk()->GetReadableSize())) : (L.IsEmpty() ? 0 : long(L.GetLastChunk()->GetWritableSize())); }, cap); };
      auto S = [](long n) { return ",\"n\":" + std::to_string(n); };
      auto D = [](std::string const &r) { return ",\"d\":" + r; };
      if (is(o, "app") || is(o, "pre")) {
        bool a = is(o, "app"); std::string d = fill(o.i(2), sz(1, 100000));
        if (!a) L.Prepend(d.data(), d.size()); else if (o.s(3, "v") == "v") L.Append(d.data(), d.size()); else L.Append(StringView(d.data(), d.size()));
        log(a ? "App" : "Pre", i, D(runs(d.data(), d.size())));
      } else if (is(o, "appi") || is(o, "prei")) {
        int w = o.i(1); uint64_t x = u64(o.s(2)); bool a = is(o, "appi");
        switch (w) {
          case 1: a ? L.Append8(uint8_t(x)) : L.Prepend8(uint8_t(x)); break;
          case 2: a ? L.Append16(uint16_t(x)) : L.Prepend16(uint16_t(x)); break;
          case 4: a ? L.Append32(uint32_t(x)) : L.Prepend32(uint32_t(x)); break;
          default: a ? L.Append64(x) : L.Prepend64(x); w = 8;
        }
        log(a ? "App" : "Pre", i, D(big_endian(x, w)));
      } else if (is(o, "rdi") || is(o, "pki")) {
        int w = o.i(1); uint64_t x; bool r = is(o, "rdi");
        if (L.GetReadableSize() < size_t(w)) continue;
        switch (w) {
          case 1: x = r ? L.Read8() : L.GetReadBegin8(); break;
          case 2: x = r ? L.Read16() : L.GetReadBegin16(); break;
          case 4: x = r ? L.Read32() : L.GetReadBegin32(); break;
          default: x = r ? L.Read64() : L.GetReadBegin64();
        }
        log(r ? "Take" : "Peek", i, S(w) + D(big_endian(x, w)));
      } else if (is(o, "adv")) { long n = sz(1, long(L.GetReadableSize())); L.AdvanceRead(size_t(n)); log("Adv", i, S(n)); }
      else if (is(o, "all")) { long n = long(L.GetReadableSize()); L.AdvanceReadAll(); log("Adv", i, S(n)); }
      else if (is(o, "apl")) { L.AppendChunkList(&l[1 - i]); log("Apl", i, ""); }
      else if (is(o, "cas")) { L.CopyAssign(l[1 - i]); log("Copy", i, ""); }
      else if (is(o, "self")) { L.CopyAssign(L); log("Same", i, S(0)); }
      else if (is(o, "cln")) { ChunkList c = l[1 - i].Clone(); L.swap(c); log("Copy", i, ""); }
      else if (is(o, "mas")) { L = std::move(l[1 - i]); log("Mas", i, ""); }
      else if (is(o, "mct")) { ChunkList c(std::move(l[1 - i])); bool e = !l[1 - i].HasReadable() && l[1 - i].GetReadableSize() == 0; L.swap(c); log("Mct", i, S(e)); }
      else if (is(o, "swap")) { if (o.i(1)) l[0].swap(l[1]); else swap(l[1], l[0]); log("Swap", 0, ""); }
      else if (is(o, "shr")) { int n = o.i(1); if (o.i(2)) L.Shrink(size_t(n)); else L.ShrinkChunk(size_t(n)); log("Shr", i, S(n)); }
      else if (is(o, "rfc")) { int n = o.i(1); L.ReserveFreeChunk(size_t(n)); log("Rfc", i, S(n)); }
      else if (is(o, "rws")) { long n = std::max(1l, sz(1, 40000)); L.ReserveWriteSpace(size_t(n)); log("Same", i, S(n)); }
      else if (is(o, "wr")) {
        if (L.IsEmpty()) continue; // nothing to write
        std::string m = o.s(1, "w");
        if (m == "e") vrt::net_window(p.conn, 0); else if (m != "k") vrt::net_window(p.conn, size_t(sz(1, 1 << 30)));
        p.out.clear(); p.werr = 0; p.asked = 0; int err = 0; auto r = ChunkListWriteFd(L, p.fd, err);
        log("Write", i, D(runs(p.out.data(), p.out.size())) + S(long(r)) + ",\"err\":" + std::to_string(err) + ",\"kerr\":" + std::to_string(p.werr));
        if (o.i(2, 1)) { L.AdvanceRead(r); log("Adv", i, S(long(r))); }
      } else if (is(o, "rst")) { vrt::net_rst(p.conn); }
    }
  }
};
// ---------------------------------------------------------------- elements
long g_live, g_bad;
std::set<void const *> *g_at;
struct El {
  int v;
  void born() { ++g_live; if (!g_at->insert(this).second) ++g_bad; }
  El(int x = 0) : v(x) { born(); }
  El(El const &o) : v(o.v) { born(); }
  El(El &&o) noexcept : v(o.v) { born(); o.v = -7; }
  El &operator=(El const &o) { v = o.v; return *this; }
  El &operator=(El &&o) noexcept { int t = o.v; o.v = -7; v = t; return *this; }
  ~El() { --g_live; if (!g_at->erase(this)) ++g_bad; }
  friend bool operator<(El const &a, El const &b) { return a.v / 10 < b.v / 10; }
  friend bool operator==(El const &a, El const &b) { return a.v / 10 == b.v / 10; }
};
template <class It> std::string vals(It a, It b)
{
  std::string s = "["; char t[24]; long n = 0;
  for (; a != b; ++a) { snprintf(t, sizeof t, "%s%d", n ? "," : "", int((*a).v)); s += t; if (++n > 5000) break; }
  return s + "]";
}
struct Lists {
  typedef zstl::ForwardList<El> L;
  L l[3]; std::vector<L::Iterator> held;
  long at(L &x, L::ConstIterator it) { long k = 0; for (L::ConstIterator i = x.cbefore_begin(); i != L::ConstIterator(); ++i, ++k) if (i == it) return k; return it == L::ConstIterator() ? k : -1; }
  L::ConstIterator pos(L &x, long k) { L::ConstIterator i = x.cbefore_begin(); while (k-- > 0 && i != L::ConstIterator()) ++i; return i; }
  std::string st()
  {
    std::string s = "["; char t[96];
    for (int i = 0; i < 3; ++i) {
      L const &c = l[i];
      snprintf(t, sizeof t, "%s{\"n\":%ld,\"e\":%d,\"bk\":%d,\"fr\":%d,\"q\":", i ? "," : "", long(c.size()), c.empty(), c.empty() ? -1 : c.back().v, c.empty() ? -1 : c.front().v);
      s += t + vals(c.begin(), c.end()) + "}";
    }
    snprintf(t, sizeof t, "],\"lv\":%ld,\"bad\":%ld", g_live, g_bad);
    return s + t;
  }
  void log(char const *e, std::string const &rest) { ev("{\"e\":\"%s\"%s,\"st\":%s}", e, rest.c_str(), st().c_str()); }
  static std::string N(char const *k, long n) { return std::string(",\"") + k + "\":" + std::to_string(n); }
  void run(std::vector<Op> const &ops)
  {
    log("New", "");
    for (auto &o : ops) {
      int i = o.i(0) % 3, j = o.i(1) % 3; L &A = l[i]; std::string I = N("l", i + 1), J = N("m", j + 1);
      long n = long(A.size());
      auto P = [&](size_t k, long lim) { return lim < 0 ? -1 : o.i(k) % (lim + 1); };
      if (is(o, "pf")) { int v = o.i(1), k = o.i(2); if (k == 0) { El e(v); A.push_front(e); } else if (k == 1) A.push_front(El(v)); else if (k == 2) A.emplace_front(v); else A.push_front(A.create_node(v)); log("Ins", I + N("p", 0) + ",\"d\":[" + std::to_string(v) + "]"); }
      else if (is(o, "pb")) { int v = o.i(1), k = o.i(2); if (k == 0) { El e(v); A.push_back(e); } else if (k == 1) A.push_back(El(v)); else if (k == 2) A.emplace_back(v); else A.push_back(A.create_node_size(0, v)); log("Ins", I + N("p", n) + ",\"d\":[" + std::to_string(v) + "]"); }
      else if (is(o, "ia")) { long p = P(1, n); int v = o.i(2), k = o.i(3); if (k == 0) { El e(v); A.insert_after(pos(A, p), e); } else if (k == 1) A.insert_after(pos(A, p), El(v)); else if (k == 2) A.emplace_after(pos(A, p), v); else A.insert_after(pos(A, p), A.create_node(v)); log("Ins", I + N("p", p) + ",\"d\":[" + std::to_string(v) + "]"); }
      else if (is(o, "ian")) { long p = P(1, n); int c = o.i(2), v = o.i(3); { El e(v); A.insert_after(pos(A, p), size_t(c), e); } std::string d = "["; for (int k = 0; k < c; ++k) d += (k ? "," : "") + std::to_string(v); log("Ins", I + N("p", p) + ",\"d\":" + d + "]"); }
      else if (is(o, "iar") || is(o, "asr") || is(o, "cr")) {
        std::string d = "["; long p = P(1, n);
        { std::vector<int> v; for (size_t k = 2; k < o.a.size(); ++k) { v.push_back(o.i(k)); d += (k > 2 ? "," : "") + o.a[k]; }
          if (is(o, "iar")) A.insert_after(pos(A, p), v.begin(), v.end()); else if (is(o, "asr")) A.assign(v.begin(), v.end()); else { L c(v.begin(), v.end()); A.swap(c); } }
        if (is(o, "iar")) log("Ins", I + N("p", p) + ",\"d\":" + d + "]"); else log("Set", I + ",\"d\":" + d + "]");
      }
      else if (is(o, "pop")) { if (!n) continue; if (o.i(1)) A.pop_front_size(0); else A.pop_front(); log("Era", I + N("p", 0) + N("c", 1) + N("r", -1)); }
      else if (is(o, "ea")) { if (!n) continue; long p = P(1, n - 1); auto it = o.i(2) ? A.erase_after_size(pos(A, p), 0) : A.erase_after(pos(A, p)); log("Era", I + N("p", p) + N("c", 1) + N("r", at(A, it))); }
      else if (is(o, "ear")) { long p = P(1, n), q = p + 1 + o.i(2) % (n - p + 1); auto it = o.i(3) ? A.erase_after_size(pos(A, p), pos(A, q), 0) : A.erase_after(pos(A, p), pos(A, q)); log("Era", I + N("p", p) + N("c", q - p - 1) + N("r", at(A, it))); }
      else if (is(o, "clr")) { int k = o.i(1); long c = 0; if (k == 0) A.clear(); else if (k == 1) A.clear_size(0); else A.clear([&](L::BaseNode *x) { ++c; l[1 - (i & 1)].drop_node(x); }); if (k == 2 && c != n) log("Bad", ""); log("Set", I + ",\"d\":[]"); }
      else if (is(o, "il")) { int v = o.i(2), w = o.i(3); { if (o.i(1)) A.assign({El(v), El(w)}); else { L c({El(v), El(w)}); A.swap(c); } } log("Set", I + ",\"d\":[" + std::to_string(v) + "," + std::to_string(w) + "]"); }
      else if (is(o, "dn")) { int c = o.i(1); std::string d = "["; { L x((size_t(c))); A.swap(x); } for (int k = 0; k < c; ++k) d += k ? ",0" : "0"; log("Set", I + ",\"d\":" + d + "]"); }
      else if (is(o, "mod")) { if (!n) continue; long p = P(1, n - 1); int v = o.i(2); if (p == 0) A.front() = El(v); else if (p == n - 1) A.back() = El(v); else { L::Iterator it = A.begin(); for (long k = 0; k < p; ++k) it++; it->v = v; } log("Mod", I + N("p", p + 1) + N("v", v)); }
      else if (is(o, "asn") || is(o, "cn")) { int c = o.i(1), v = o.i(2); { El e(v); if (is(o, "asn")) A.assign(size_t(c), e); else { L x(size_t(c), e); A.swap(x); } } std::string d = "["; for (int k = 0; k < c; ++k) d += (k ? "," : "") + std::to_string(v); log("Set", I + ",\"d\":" + d + "]"); }
      else if (is(o, "rsz")) { int c = o.i(1), v = o.i(2); if (v == 0) A.resize(size_t(c)); else { El e(v); A.resize(size_t(c), e); } log("Rsz", I + N("c", c) + N("v", v)); }
      else if (is(o, "cas")) { A = l[j]; log("Cpy", I + J); }
      else if (is(o, "cct")) { { L c(l[j]); A.swap(c); } log("Cpy", I + J); }
      else if (is(o, "mas")) { if (i == j) continue; A = std::move(l[j]); log("Mas", I + J); }
      else if (is(o, "mct")) { if (i == j) continue; long z; { L c(std::move(l[j])); z = long(l[j].size()); A.swap(c); } log("Mct", I + J + N("z", z)); }
      else if (is(o, "swap")) { if (o.i(2)) A.swap(l[j]); else swap(A, l[j]); log("Swp", I + J); }
      else if (is(o, "spw")) { if (i == j) continue; long p = P(2, n); if (o.i(3)) A.splice_after(pos(A, p), l[j]); else A.splice_after(pos(A, p), std::move(l[j])); log("Spl", I + J + N("p", p) + N("f", 0) + N("t", -1)); }
      else if (is(o, "sp1")) { long m = long(l[j].size()); if (!m) continue; long p = P(2, n), f = P(3, m - 1); if (o.i(4)) A.splice_after(pos(A, p), std::move(l[j]), pos(l[j], f)); else A.splice_after(pos(A, p), l[j], pos(l[j], f)); log("Spl", I + J + N("p", p) + N("f", f) + N("t", f + 2)); }
      else if (is(o, "spr")) { long m = long(l[j].size()), p = P(2, n), f = P(3, m), t = f + 1 + o.i(4) % (m - f + 1); if (i == j && p > f && p < t) continue; if (o.i(5)) A.splice_after(pos(A, p), std::move(l[j]), pos(l[j], f), pos(l[j], t)); else A.splice_after(pos(A, p), l[j], pos(l[j], f), pos(l[j], t)); log("Spl", I + J + N("p", p) + N("f", f) + N("t", t)); }
      else if (is(o, "mrg")) { if (i == j || !std::is_sorted(A.begin(), A.end()) || !std::is_sorted(l[j].begin(), l[j].end())) continue; if (o.i(2) == 1) A.merge(l[j]); else if (o.i(2) == 2) A.merge(std::move(l[j])); else A.merge(std::move(l[j]), [](El const &x, El const &y) { return x.v / 10 < y.v / 10; }); log("Mrg", I + J); }
      else if (is(o, "srt")) { if (o.i(1)) A.sort(); else A.sort([](El const &x, El const &y) { return x.v / 10 < y.v / 10; }); log("Srt", I); }
      else if (is(o, "srg")) { A.sort([](El const &x, El const &y) { return x.v / 10 > y.v / 10; }); log("Srg", I); }
      else if (is(o, "sr2")) { A.sort2(); log("Sr2", I); }
      else if (is(o, "rev")) { A.reverse(); log("Rev", I); }
      else if (is(o, "rem")) { size_t c; int v = o.i(1); { El e(v); if (o.i(2)) c = A.remove(e); else c = A.remove_if([&](El const &x) { return x.v / 10 == v / 10; }); } log("Rem", I + N("v", v) + N("c", long(c))); }
      else if (is(o, "unq")) { size_t c = o.i(1) ? A.unique() : A.unique([](El const &x, El const &y) { return x.v / 10 == y.v / 10; }); log("Unq", I + N("c", long(c))); }
      else if (is(o, "sbf")) { long p = P(2, n), r; int v = o.i(1); { El e(v); if (o.i(3) > 1) p = 0; r = o.i(3) == 3 ? at(A, A.search_before(e)) : o.i(3) == 2 ? at(A, A.search_before([&](El const &x) { return x.v / 10 == v / 10; })) : o.i(3) ? at(A, A.search_before(e, pos(A, p))) : at(A, A.search_before([&](El const &x) { return x.v / 10 == v / 10; }, pos(A, p))); } log("Sbf", I + N("v", v) + N("p", p) + N("r", r)); }
      else if (is(o, "cmp")) { L const &a = A, &b = l[j]; if (pos(A, n) != A.before_end() && n) log("Bad", ""); log("Cmp", I + J + N("eq", a == b) + N("ne", a != b) + N("lt", a < b) + N("gt", a > b) + N("le", a <= b) + N("ge", a >= b)); }
      else if (is(o, "ext")) { if (!n) continue; long p = P(1, n - 1); if (p == 0 && o.i(2)) held.push_back(A.extract_front()); else held.push_back(A.extract_after(pos(A, p))); log("Ext", I + N("p", p) + N("v", (*held.back()).v)); }
      else if (is(o, "put")) { if (held.empty()) continue; long p = P(1, n); auto h = held.back(); held.pop_back(); int k = o.i(2); if (k == 0) { p = 0; A.push_front(h); } else if (k == 1) { p = n; A.push_back(h); } else A.insert_after(pos(A, p), h); log("Put", I + N("p", p)); }
    }
    while (!held.empty()) { l[0].push_front(held.back()); held.pop_back(); log("Put", N("l", 1) + N("p", 0)); }
    for (auto &x : l) { x.~L(); }
    ev("{\"e\":\"End\",\"lv\":%ld,\"bad\":%ld}", g_live, g_bad);
    for (auto &x : l) new (&x) L();
  }
};
// ------------------------------------------------------------------ arrays
struct T0 { int v; };                                        // trivial
struct T1 { static constexpr bool can_reallocate = true; int v; // may be moved by copying its bytes
  T1() noexcept : v(0) { ++g_live; } T1(int x) : v(x) { ++g_live; } T1(T1 const &o) noexcept : v(o.v) { ++g_live; } T1 &operator=(T1 const &o) noexcept { v = o.v; return *this; } ~T1() { v = -9; --g_live; } };
struct T2 { int *p;                                          // owns memory, moves
  T2() : p(new int(0)) { ++g_live; } T2(int x) : p(new int(x)) { ++g_live; } T2(T2 const &o) : p(new int(*o.p)) { ++g_live; } T2(T2 &&o) noexcept : p(o.p) { o.p = nullptr; ++g_live; }
  T2 &operator=(T2 const &o) { int x = *o.p; if (!p) p = new int(x); else *p = x; return *this; } T2 &operator=(T2 &&o) noexcept { std::swap(p, o.p); return *this; } ~T2() { delete p; --g_live; } };
struct T3 : El { T3() : El(0) {} T3(int x) : El(x) {} T3(T3 const &o) : El(static_cast<El const &>(o)) {} T3 &operator=(T3 const &o) { v = o.v; return *this; } }; // copies only
long val(T0 const &x) { return x.v >= 0 && x.v < 1000 ? x.v : -2; }
long val(T1 const &x) { return x.v; }
long val(T2 const &x) { return x.p ? *x.p : -3; }
long val(T3 const &x) { return x.v; }
void set(T0 &x, int v) { x.v = v; }
template <class T> void set(T &x, int v) { x = T(v); }
template <class T> struct Arrays {
  typedef algo::ReservedArray<T> R;
  std::unique_ptr<R> a[2]; std::unique_ptr<FixedVector<T>> f; long fn = 0;
  std::string st()
  {
    std::string s = "["; char t[64];
    for (int i = 0; i < 3; ++i) {
      T const *b = nullptr; long n = 0; bool ok = true;
      if (i < 2) { R const &c = *a[i]; b = c.data(); n = long(c.size()); ok = c.GetSize() == size_t(n) && c.begin() == b && c.end() == b + n && c.cbegin() == b && c.cend() == b + n && c.empty() == (n == 0); for (long k = 0; k < n; ++k) ok &= &c[size_t(k)] == b + k; }
      else if (f) { FixedVector<T> const &c = *f; b = c.data(); n = fn; ok = c.begin() == b && c.end() == b + c.size(); }
      snprintf(t, sizeof t, "%s{\"ok\":%d,\"n\":%ld,\"q\":[", i ? "," : "", ok, i < 2 || !f ? n : long(f->size())); s += t;
      for (long k = 0; k < n; ++k) { snprintf(t, sizeof t, "%s%ld", k ? "," : "", val(b[k])); s += t; }
      s += "]}";
    }
    snprintf(t, sizeof t, "],\"lv\":%ld,\"bad\":%ld", g_live, g_bad);
    return s + t;
  }
  void log(char const *e, std::string const &rest) { ev("{\"e\":\"%s\"%s,\"st\":%s}", e, rest.c_str(), st().c_str()); }
  static std::string N(char const *k, long n) { return std::string(",\"") + k + "\":" + std::to_string(n); }
  void run(std::vector<Op> const &ops)
  {
    a[0].reset(new R()); a[1].reset(new R());
    log("New", "");
    for (auto &o : ops) {
      int i = o.i(0) & 1; R &A = *a[i]; R &B = *a[1 - i]; std::string I = N("b", i + 1);
      auto sz = [&](size_t k, long cap) { return size_of(o.s(k, "0"), [&](char c) { return c == 'n' ? long(A.size()) : long(B.size()); }, cap); };
      if (is(o, "ctor")) { long n = sz(1, 200); a[i].reset(); a[i].reset(new R(size_t(n))); log("Ctor", I + N("n", n)); }
      else if (is(o, "w")) { if (A.empty()) continue; long k = o.i(1) % long(A.size()); set(A[size_t(k)], o.i(2)); log("Put", I + N("k", k) + N("v", o.i(2))); }
      else if (is(o, "fill")) { int v = o.i(1); for (auto &x : A) set(x, v++ % 900); log("Fill", I + N("v", o.i(1))); }
      else if (is(o, "grow")) { long n = sz(1, 300); A.Grow(size_t(n)); log("Grow", I + N("n", n)); }
      else if (is(o, "shr")) { long n = sz(1, 300); A.Shrink(size_t(n)); log("Shrink", I + N("n", n)); }
      else if (is(o, "cct")) { std::unique_ptr<R> c(new R(B)); a[i].swap(c); c.reset(); log("Copy", I); }
      else if (is(o, "cas")) { A = B; log("Copy", I); }
      else if (is(o, "self")) { R &C = A; A = C; log("Same", I); }
      else if (is(o, "mct")) { std::unique_ptr<R> c(new R(std::move(B))); a[i].swap(c); c.reset(); log("Mct", I); }
      else if (is(o, "mas")) { A = std::move(B); log("Mas", I); }
      else if (is(o, "swap")) { if (o.i(1)) A.swap(B); else std::swap(A, B); log("Swap", I); }
      else if (is(o, "fv")) { f.reset(); fn = 0; int n = o.i(1); f.reset(new FixedVector<T>(size_t(n))); log("FNew", N("n", n)); for (int k = 0; k < n; ++k) { f->Construct(size_t(k), o.i(2) + k); fn = k + 1; log("FCon", N("k", k) + N("v", o.i(2) + k)); } }
      else if (is(o, "fw")) { if (!f || !fn) continue; long k = o.i(1) % fn; set((*f)[size_t(k)], o.i(2)); log("FPut", N("k", k) + N("v", o.i(2))); }
      else if (is(o, "fend")) { f.reset(); fn = 0; log("FEnd", ""); }
    }
    a[0].reset(); a[1].reset(); f.reset();
    ev("{\"e\":\"End\",\"lv\":%ld,\"bad\":%ld}", g_live, g_bad);
  }
};
// ------------------------------------------------------------------- pools
char *const kBase = (char *)0x200000000000;
struct Live { int id, start; char *p; };
struct Blob { char c[24]; };
struct Pools {
  size_t sz = 8; int kind = 0; std::vector<Live> live; int next = 0;
  std::unique_ptr<FixedChunkMemoryPool> fp; std::unique_ptr<LinearFixedMemoryPool<Blob>> lp; std::unique_ptr<ObjectMemoryPool<Blob>> op;
  std::string st()
  {
    std::string s = "["; char t[64];
    for (size_t i = 0; i < live.size(); ++i) { snprintf(t, sizeof t, "%s{\"id\":%d,\"q\":", i ? "," : "", live[i].id); s += t + runs(live[i].p, sz) + "}"; }
    s += "]";
    long fr = 0, bl = 0, us = 0, cp = 0;
    if (kind == 0) { fr = long(fp->GetFreeChunkNum(sz)); bl = long(fp->GetBlockNum()); us = long(fp->GetUsage(sz)); cp = long(fp->GetChunkPerBlock()); }
    else if (kind == 1) { fr = long(lp->freesize()); bl = long(lp->size()); }
    else us = long(op->GetUsage());
    return s + ",\"fr\":" + std::to_string(fr) + ",\"bl\":" + std::to_string(bl) + ",\"us\":" + std::to_string(us) + ",\"cp\":" + std::to_string(cp);
  }
  void log(char const *e, std::string const &rest) { ev("{\"e\":\"%s\"%s,\"st\":%s}", e, rest.c_str(), st().c_str()); }
  static std::string N(char const *k, long n) { return std::string(",\"") + k + "\":" + std::to_string(n); }
  void run(Script const &s, std::vector<Op> const &ops)
  {
    kind = s.geti("kind", 0); sz = kind == 0 ? size_t(s.geti("sz", 8)) : sizeof(Blob); int cpb = s.geti("cpb", 1);
    live.reserve(32); long h0 = vrt::heap_blocks();
    if (kind == 0) fp.reset(new FixedChunkMemoryPool(size_t(cpb))); else if (kind == 1) lp.reset(new LinearFixedMemoryPool<Blob>(size_t(cpb))); else op.reset(new ObjectMemoryPool<Blob>(size_t(cpb)));
    log("New", N("kind", kind) + N("sz", long(sz)) + N("cpb", cpb));
    for (auto &o : ops) {
      if (is(o, "m")) {
        for (int k = 0, n = o.i(0, 1); k < n && live.size() < 24; ++k) {
          char *p = (char *)(kind == 0 ? fp->Malloc(sz) : kind == 1 ? (void *)lp->Malloc() : op->Malloc());
          Live x{++next, int(vrt::rnd(256)), p};
          if (!p) { ev("{\"e\":\"Null\"}"); return; }
          fill_at(p, x.start, long(sz)); live.push_back(x);
          log("Mal", N("id", x.id) + N("a", long(p - kBase)) + N("s", x.start));
        }
      } else if (is(o, "f")) {
        for (int k = 0, n = o.i(1, 1); k < n && !live.empty(); ++k) {
          size_t i = size_t(o.i(0)) % live.size(); Live x = live[i]; live.erase(live.begin() + long(i));
          if (kind == 0) fp->Free(x.p); else if (kind == 1) lp->Free((Blob *)x.p); else op->Free(x.p);
          log("Free", N("id", x.id));
        }
      } else if (is(o, "w")) { if (live.empty()) continue; Live &x = live[size_t(o.i(0)) % live.size()]; x.start = vrt::rnd(256); fill_at(x.p, x.start, long(sz)); log("Wr", N("id", x.id) + N("s", x.start)); }
      else if (is(o, "shr")) { if (kind == 0) fp->Shrink(sz); else if (kind == 2) op->Shrink(); else continue; log("Shrink", ""); }
      else if (is(o, "res")) { if (kind != 1) continue; int n = o.i(0); lp->Reserve(size_t(n)); log("Res", N("n", n)); }
      else if (is(o, "cpb")) { if (kind != 0) continue; fp->SetChunkPerBlock(size_t(o.i(0))); log("Cpb", N("n", o.i(0))); }
      else if (is(o, "fnull")) { if (kind == 0) fp->Free(nullptr); else if (kind == 2) op->Free(nullptr); else continue; log("Same", ""); }
    }
    if (kind == 1) while (!live.empty()) { lp->Free((Blob *)live.back().p); int id = live.back().id; live.pop_back(); log("Free", N("id", id)); }
    fp.reset(); lp.reset(); op.reset();
    ev("{\"e\":\"End\",\"lk\":%ld}", vrt::heap_blocks() - h0);
  }
};
// standard containers on pool memory
struct Cont {
  typedef std::list<El, ObjectPoolAllocator<El>> SL;
  typedef std::map<int, El, std::less<int>, ObjectPoolAllocator<std::pair<int const, El>>> SM;
  FixedChunkMemoryPool p1, p2; SL *l; SM *m;
  Cont(int n) : p1(size_t(n)), p2(size_t(n)) { l = new SL(ObjectPoolAllocator<El>(p1)); m = new SM(std::less<int>(), ObjectPoolAllocator<std::pair<int const, El>>(p2)); }
  std::string st()
  {
    std::string s = vals(l->begin(), l->end()) + ",\"mp\":["; char t[64]; bool first = true;
    for (auto &kv : *m) { snprintf(t, sizeof t, "%s[%d,%d]", first ? "" : ",", kv.first, kv.second.v); s += t; first = false; }
    snprintf(t, sizeof t, "],\"lv\":%ld,\"bad\":%ld", g_live, g_bad);
    return s + t;
  }
  void log(char const *e, std::string const &rest) { ev("{\"e\":\"%s\"%s,\"st\":%s}", e, rest.c_str(), st().c_str()); }
  static std::string N(char const *k, long n) { return std::string(",\"") + k + "\":" + std::to_string(n); }
  void run(std::vector<Op> const &ops)
  {
    log("CNew", "");
    for (auto &o : ops) {
      int v = o.i(0);
      if (is(o, "lb")) { l->push_back(El(v)); log("LPut", N("p", long(l->size()) - 1) + N("v", v)); }
      else if (is(o, "li")) { long p = o.i(1) % long(l->size() + 1); l->insert(std::next(l->begin(), p), El(v)); log("LPut", N("p", p) + N("v", v)); }
      else if (is(o, "le")) { if (l->empty()) continue; long p = v % long(l->size()); l->erase(std::next(l->begin(), p)); log("LEra", N("p", p)); }
      else if (is(o, "lc")) { l->clear(); log("LClr", ""); }
      else if (is(o, "mp")) { m->erase(v); m->insert(std::make_pair(v, El(o.i(1)))); log("MPut", N("k", v) + N("v", o.i(1))); }
      else if (is(o, "me")) { m->erase(v); log("MEra", N("k", v)); }
      else if (is(o, "shr")) { p1.Shrink(sizeof(std::_List_node<El>)); p2.Shrink(sizeof(std::_Rb_tree_node<std::pair<int const, El>>)); log("CSame", ""); }
    }
    delete l; delete m;
    ev("{\"e\":\"CEnd\",\"lv\":%ld,\"bad\":%ld}", g_live, g_bad);
  }
};
// string views: what they cover is surrounded by bytes that must not matter
struct Views {
  std::list<std::string> mem; StringView v[2];
  static std::string bytes(std::string const &a)
  {
    std::string r;
    if (a == "-") return r;
    for (char const *p = a.c_str(); *p;) { char *e; r.push_back(char(strtol(p, &e, 10))); p = *e == '.' ? e + 1 : e; }
    return r;
  }
  template <typename It> static std::string list(It b, It e)
  {
    std::string s = "["; char t[16];
    for (It p = b; p != e; ++p) { snprintf(t, sizeof t, "%s%d", p == b ? "" : ",", int(u8(*p))); s += t; }
    return s + "]";
  }
  static std::string list(std::string const &x) { return list(x.begin(), x.end()); }
  static int sgn(int x) { return x < 0 ? -1 : x > 0; }
  static std::string N(char const *k, long n) { return std::string(",\"") + k + "\":" + std::to_string(n); }
  static std::string L(char const *k, std::string const &x) { return std::string(",\"") + k + "\":" + x; }
  void log(char const *e, std::string const &rest)
  {
    ev("{\"e\":\"%s\"%s,\"st\":[%s,%s],\"n\":[%d,%d],\"em\":[%d,%d]}", e, rest.c_str(), list(v[0].begin(), v[0].end()).c_str(), list(v[1].ToString()).c_str(), int(v[0].size()), int(v[1].size()), int(v[0].empty()), int(v[1].empty()));
  }
  static void query(char const *e, std::string const &rest) { ev("{\"e\":\"%s\"%s}", e, rest.c_str()); }
  static long res(size_t x) { return x == StringView::npos ? -1 : x > 1000000 ? 1000000 : long(x); }
  template <typename T> static std::string rels(StringView a, T const &b)
  {
    char t[64]; snprintf(t, sizeof t, "[%d,%d,%d,%d,%d,%d]", a == b, a != b, a < b, a > b, a <= b, a >= b);
    return t;
  }
  template <typename T> static long ask(StringView a, std::string const &f, T const &w, size_t k, bool dflt)
  {
    if (f == "find") return res(dflt && k == 0 ? a.find(w) : a.find(w, k));
    if (f == "rfind") return res(dflt && k == StringView::npos ? a.rfind(w) : a.rfind(w, k));
    if (f == "has") return a.contains(w);
    if (f == "sw") return a.starts_with(w);
    if (f == "ew") return a.ends_with(w);
    if (f == "ffo") return res(dflt && k == 0 ? a.find_first_of(w) : a.find_first_of(w, k));
    if (f == "flo") return res(dflt && k == StringView::npos ? a.find_last_of(w) : a.find_last_of(w, k));
    if (f == "ffn") return res(dflt && k == 0 ? a.find_first_not_of(w) : a.find_first_not_of(w, k));
    return res(dflt && k == StringView::npos ? a.find_last_not_of(w) : a.find_last_not_of(w, k));
  }
  void run(std::vector<Op> const &ops)
  {
    rlimit rl{3, 20}; setrlimit(RLIMIT_CPU, &rl); // a search that never ends
    for (auto &o : ops) {
      int b = o.i(0) & 1; StringView &V = v[b]; std::string B = N("b", b + 1);
      if (is(o, "set")) {
        std::string x = bytes(o.a[1]), pre = bytes(o.a[2]), post = bytes(o.a[3]); std::string const &k = o.a[4];
        mem.push_back(k == "s" || k == "z" ? x : pre + x + post); std::string const &m = mem.back();
        if (k == "z" && x.find('\0') == std::string::npos) V = StringView(m.c_str());
        else if (k == "s" || k == "z") V = StringView(m);
        else if (k == "u") V = StringView((unsigned char const *)m.data() + pre.size(), x.size());
        else if (k == "t") V.set(m.data() + pre.size(), x.size());
        else V = StringView(m.data() + pre.size(), x.size());
        log("Set", B + L("s", list(x)));
      } else if (is(o, "rp")) { size_t n = size_t(o.i(1)) % (V.size() + 1); V.remove_prefix(n); log("Rp", B + N("n1", long(n))); }
      else if (is(o, "rs")) { size_t n = size_t(o.i(1)) % (V.size() + 1); V.remove_suffix(n); log("Rs", B + N("n1", long(n))); }
      else if (is(o, "sub")) {
        size_t p = size_t(o.i(1)) % (V.size() + 1); int n = o.i(2);
        V = n < 0 ? (p == 0 ? V.substr() : V.substr(p)) : V.substr(p, size_t(n)); log("Sub", B + N("k", long(p)) + N("n1", n));
      } else if (is(o, "subr")) {
        size_t p = size_t(o.i(1)) % (V.size() + 1); int n = o.i(2);
        V = n < 0 ? V.substr_range(p) : V.substr_range(p, p + size_t(n)); log("Sub", B + N("k", long(p)) + N("n1", n));
      } else if (is(o, "swap")) { if (b) v[0].swap(v[1]); else swap(v[0], v[1]); log("Swap", ""); }
      else if (is(o, "asg")) { V = v[1 - b]; log("Asg", B); }
      else if (is(o, "rst")) { V.reset(); log("Rst", B); }
      else if (is(o, "q")) {
        std::string f = o.a[1], w = bytes(o.a[2]); int k = o.i(3); bool c = o.i(4) == 1 && w.size() == 1, d = o.i(4) == 2;
        size_t p = k < 0 ? StringView::npos : size_t(k);
        if (f == "find") { if (k < 0) continue; if (!c) p = p % (V.size() + 1), k = int(p); }
        if (f == "rfind" && w.empty()) continue;
        long r = c ? ask(V, f, w[0], p, d) : ask(V, f, StringView(w.data(), w.size()), p, d);
        query("Q", B + L("f", "\"" + f + "\"") + L("v", list(w)) + N("k", k) + N("r", r));
      } else if (is(o, "cmp")) {
        std::string w = bytes(o.a[1]); StringView W(w.data(), w.size());
        query("Cmp", B + L("v", list(w)) + N("r", sgn(V.compare(W))) + L("rel", rels(V, W)) + N("cc", sgn(V.caseCompare(W))));
      } else if (is(o, "cmpc")) { char c = char(o.i(1)); query("CmpC", B + L("v", list(std::string(1, c))) + N("r", sgn(V.compare(c))) + N("cc", sgn(V.caseCompare(c)))); }
      else if (is(o, "lit")) {
        int k = o.i(1) & 3;
        std::string r = k == 0 ? rels(V, "") : k == 1 ? rels(V, "a") : k == 2 ? rels(V, "ab") : rels(V, "B");
        query("Rel", B + L("v", k == 0 ? "[]" : k == 1 ? "[97]" : k == 2 ? "[97,98]" : "[66]") + L("rel", r));
      } else if (is(o, "split")) {
        std::string w = bytes(o.a[1]), r = "["; if (w.empty()) continue;
        auto x = w == " " ? V.split() : V.split(StringView(w.data(), w.size()));
        for (size_t i = 0; i < x.size(); ++i) r += (i ? "," : "") + list(x[i]);
        query("Split", B + L("v", list(w)) + L("r", r + "]"));
      } else if (is(o, "cpy")) {
        long n = o.i(1), k = o.i(2); std::vector<char> d(64, char(0x5a)); long r; n = std::min(n, 32l);
        try { r = long(V.copy(d.data() + 16, size_t(n), size_t(k))); } catch (std::out_of_range const &) { r = -1; }
        bool ok = true; long m = r < 0 ? 0 : std::min(r, 48l);
        for (long i = 0; i < 64; ++i) if ((i < 16 || i >= 16 + m) && d[size_t(i)] != 0x5a) ok = false;
        query("Cpy", B + N("n1", n) + N("k", k) + N("r", r) + L("d", list(d.begin() + 16, d.begin() + 16 + m)) + N("ok", ok));
      } else if (is(o, "at")) {
        size_t k = size_t(o.i(1)); long r;
        try { r = u8(V.at(k)); if (V[k] != V.at(k)) r = -2; } catch (std::length_error const &) { r = -1; }
        query("At", B + N("k", long(k)) + N("r", r));
      } else if (is(o, "ends")) { if (V.empty()) continue; query("Ends", B + L("r", "[" + std::to_string(int(u8(V.front()))) + "," + std::to_string(int(u8(V.back()))) + "]")); }
      else if (is(o, "case")) query("Case", B + L("u", list(V.ToUpperString())) + L("lo", list(V.ToLowerString())));
    }
  }
};
// text streams and casts
struct Val { // a value to print: its JSON form and what it is
  std::string js, s; unsigned long long u = 0; long long i = 0; double d = 0; int k = 0;
};
std::string num_json(bool neg, unsigned long long m)
{
  char t[96]; snprintf(t, sizeof t, "%d,[%llu,%llu,%llu]", neg, m / 1000000000000000000ull, m / 1000000000ull % 1000000000ull, m % 1000000000ull);
  return t;
}
template <unsigned SZ> struct Texts {
  LexicalStream<SZ> x[2];
  static std::string N(char const *k, long n) { return std::string(",\"") + k + "\":" + std::to_string(n); }
  static std::string L(char const *k, std::string const &v) { return std::string(",\"") + k + "\":" + v; }
  static Val val(Op const &o, size_t at)
  {
    Val v; std::string const &k = o.a[at], &a = o.a[at + 1];
    if (k == "i") { v.i = strtoll(a.c_str(), nullptr, 10); v.js = "[\"i\"," + num_json(v.i < 0, v.i < 0 ? 0 - (unsigned long long)v.i : (unsigned long long)v.i) + "]"; v.k = 0; }
    else if (k == "u") { v.u = strtoull(a.c_str(), nullptr, 10); v.js = "[\"i\"," + num_json(false, v.u) + "]"; v.k = 1; }
    else if (k == "f") { v.d = strtod(a.c_str(), nullptr); char t[64]; snprintf(t, sizeof t, "%.12g", v.d); v.js = "[\"f\"," + Views::list(std::string(t)) + "]"; v.k = 2; }
    else if (k == "p") { v.u = strtoull(a.c_str(), nullptr, 10); char t[64]; snprintf(t, sizeof t, "[\"p\",[%d,%d,%d,%d]]", int(v.u >> 48), int(v.u >> 32 & 65535), int(v.u >> 16 & 65535), int(v.u & 65535)); v.js = t; v.k = 3; }
    else if (k == "b") { v.u = a == "1"; v.js = "[\"b\"," + a + "]"; v.k = 4; }
    else if (k == "c") { v.i = atoi(a.c_str()); v.js = "[\"c\"," + a + "]"; v.k = 5; }
    else { v.s = Views::bytes(a); v.js = "[\"s\"," + Views::list(v.s) + "]"; v.k = 6; }
    return v;
  }
  // w: which of the types that can hold it
  template <typename S> static void put(S &s, Val const &v, int w)
  {
    switch (v.k) {
    case 0:
      if (w == 0 && v.i == (short)v.i) s << (short)v.i; else if (w <= 1 && v.i == (int)v.i) s << (int)v.i; else if (w == 2) s << (long)v.i; else s << (long long)v.i;
      break;
    case 1:
      if (w == 0 && v.u == (unsigned char)v.u) s << (unsigned char)v.u; else if (w <= 1 && v.u == (unsigned short)v.u) s << (unsigned short)v.u; else if (w <= 2 && v.u == (unsigned)v.u) s << (unsigned)v.u;
      else if (w <= 3) s << (unsigned long)v.u; else s << (unsigned long long)v.u;
      break;
    case 2: if (w == 0 && v.d == (float)v.d) s << (float)v.d; else s << v.d; break;
    case 3: s << (void const *)v.u; break;
    case 4: s << bool(v.u); break;
    case 5: s << char(v.i); break;
    default:
      if (w == 0) s << StringView(v.s.data(), v.s.size()); else if (w == 1 && v.s.find('\0') == std::string::npos) s << v.s.c_str(); else if (w == 2) s.Append(v.s.data(), unsigned(v.s.size())); else s << v.s;
    }
  }
  static std::string cast(Val const &v, int w)
  {
    switch (v.k) {
    case 0: return w == 0 && v.i == (short)v.i ? lexical_cast<std::string>((short)v.i) : w <= 1 && v.i == (int)v.i ? lexical_cast<std::string>((int)v.i) : w == 2 ? std::string(lexical_cast<char const *>((long)v.i)) : lexical_cast<std::string>((long long)v.i);
    case 1: return w == 0 && v.u == (unsigned char)v.u ? lexical_cast<std::string>((unsigned char)v.u) : w <= 2 && v.u == (unsigned)v.u ? lexical_cast<StringView>((unsigned)v.u).ToString() : lexical_cast<std::string>((unsigned long)v.u);
    case 2: return lexical_cast<std::string>(v.d);
    case 3: return lexical_cast<std::string>((void const *)v.u);
    case 4: return lexical_cast<std::string>(bool(v.u));
    case 5: return lexical_cast<StringView>(char(v.i)).ToString();
    default: return lexical_cast<std::string>(StringView(v.s.data(), v.s.size()));
    }
  }
  template <typename T> static std::string got(kanon::optional<T> const &r)
  {
    if (!r) return "[]";
    T x = *r; bool neg = x < 0;
    return "[" + num_json(neg, neg ? 0 - (unsigned long long)x : (unsigned long long)x) + "]";
  }
  template <typename S> static std::string read(std::string const &k, S const &s)
  {
    if (k == "i8") return got(lexical_cast<int8_t>(s));
    if (k == "u8") return got(lexical_cast<uint8_t>(s));
    if (k == "i16") return got(lexical_cast<int16_t>(s));
    if (k == "u16") return got(lexical_cast<uint16_t>(s));
    if (k == "i32") return got(lexical_cast<int32_t>(s));
    if (k == "u32") return got(lexical_cast<uint32_t>(s));
    if (k == "i64") return got(lexical_cast<int64_t>(s));
    return got(lexical_cast<uint64_t>(s));
  }
  static std::string to(std::string const &k, StringView s)
  {
    if (k == "i8") return got(StringViewTo8(s));
    if (k == "u8") return got(StringViewToU8(s));
    if (k == "i16") return got(StringViewTo16(s));
    if (k == "u16") return got(StringViewToU16(s));
    if (k == "i32") return got(StringViewTo32(s));
    if (k == "u32") return got(StringViewToU32(s));
    if (k == "i64") return got(StringViewTo64(s));
    return got(StringViewToU64(s));
  }
  void log(char const *e, int b, std::string const &rest)
  {
    bool ok = true;
    for (auto &s : x) if (s.size() >= SZ || s.maxsize() != SZ || (s.size() && s.data()[s.size()] != 0) || s.buffer().ToStringView() != StringView(s.data(), s.size()) || s.buffer().empty() != (s.size() == 0)) ok = false;
    std::string t[2]; for (int k = 0; k < 2; ++k) { if (x[k].size()) touch(x[k].data(), x[k].size()); t[k].assign(x[k].data(), std::min(x[k].size(), SZ)); }
    ev("{\"e\":\"%s\",\"b\":%d%s,\"t\":[%s,%s],\"n\":[%u,%u],\"ok\":%d}", e, b + 1, rest.c_str(), Views::list(t[0]).c_str(), Views::list(t[1]).c_str(), x[0].size(), x[1].size(), ok);
  }
  typedef FmtStream<SZ> F;
  void fmt(Op const &o, int b)
  {
    std::string f = Views::bytes(o.a[1]), m = f + "%%";            // what follows the format in memory is not part of it
    StringView fs(m.data(), f.size()); std::string as; std::vector<Val> v;
    for (size_t i = 3; i + 1 < o.a.size(); i += 2) { v.push_back(val(o, i)); as += (as.empty() ? "" : ",") + v.back().js; }
    F s; if (o.a[2] == "1") { s.Serialize("left %% over"); s.Reset(); }
    size_t n = v.size(); std::string keep = n ? v[0].s : "";
    auto I = [&](size_t i) { return v[i].i; }; auto U = [&](size_t i) { return v[i].u; };
    if (n == 0) s.Serialize(fs);
    else if (n == 1) {
      switch (v[0].k) {
      case 0: if (I(0) == (int)I(0)) s.Serialize(fs, (int)I(0)); else s.Serialize(fs, I(0)); break;
      case 1: s.Serialize(fs, U(0)); break;
      case 2: s.Serialize(fs, v[0].d); break;
      case 3: if (U(0)) s.Serialize(fs, (void const *)U(0)); else s.Serialize(fs, nullptr); break;
      case 4: s.Serialize(fs, bool(U(0))); break;
      case 5: s.Serialize(fs, char(I(0))); break;
      default: s.Serialize(fs, v[0].s);
      }
    } else if (n == 2) s.Serialize(fs, (int)I(0), StringView(v[1].s.data(), v[1].s.size()));
    else s.Serialize(fs, v[0].s, (unsigned long)U(1), char(I(2)));
    x[b].reset(); log("Rst", b, ""); x[b] << s;
    StringView r = s.ToStringView();
    if (r.ToString() != std::string(x[b].data(), x[b].size()) || r.data() != s.GetData()) ev("{\"e\":\"Bad\"}");
    log("Fmt", b, L("f", Views::list(f)) + L("as", "[" + as + "]"));
  }
  void run(std::vector<Op> const &ops)
  {
    for (auto &o : ops) {
      int b = o.i(0) & 1;
      if (is(o, "put")) { Val v = val(o, 2); put(x[b], v, o.i(1)); log("Put", b, L("a", v.js)); }
      else if (is(o, "fmt")) fmt(o, b);
      else if (is(o, "rst")) { x[b].reset(); log("Rst", b, ""); }
      else if (is(o, "mas")) { x[b] = std::move(x[1 - b]); log("Mas", b, ""); }
      else if (is(o, "mct")) { LexicalStream<SZ> z(std::move(x[b])); x[b].reset(); x[b].Append(z.data(), z.size()); log("Mct", b, ""); }
      else if (is(o, "cs")) { Val v = val(o, 2); std::string p = cast(v, o.i(1)); ev("{\"e\":\"CastS\",\"a\":%s,\"p\":%s}", v.js.c_str(), Views::list(p).c_str()); }
      else if (is(o, "ci")) {
        std::string s = Views::bytes(o.a[2]), m = s + "7"; int w = o.i(3); StringView sv(m.data(), s.size());
        std::string r = w == 0 ? to(o.a[1], sv) : w == 1 ? read(o.a[1], sv) : read(o.a[1], s);
        ev("{\"e\":\"CastI\",\"k\":\"%s\",\"s\":%s,\"w\":%d,\"r\":%s}", o.a[1].c_str(), Views::list(s).c_str(), w > 0, r.c_str());
      }
    }
  }
};
// owners of one value: Any, UniqueAny, optional
struct Owned { // counted, with memory of its own
  static long &live() { static long n = 0; return n; }
  long v, *p;
  explicit Owned(long x = 0) : v(x), p(new long(x)) { ++live(); }
  Owned(Owned const &o) : v(o.v), p(new long(*o.p)) { ++live(); }
  Owned(Owned &&o) : v(o.v), p(new long(*o.p)) { ++live(); }
  Owned &operator=(Owned const &o) { v = o.v; *p = *o.p; return *this; }
  ~Owned() { if (*p != v) ev("{\"e\":\"Bad\"}"); *p = v - 1; delete p; --live(); }
};
struct OwnedMv : Owned { // the same, not copyable
  explicit OwnedMv(long x = 0) : Owned(x) {}
  OwnedMv(OwnedMv &&o) : Owned(static_cast<Owned &&>(o)) {}
  OwnedMv(OwnedMv const &) = delete;
};
std::string word(long v) { return "a value in memory of its own: " + std::to_string(v); }
long unword(std::string const &s) { return s.size() > 30 ? strtol(s.c_str() + 30, nullptr, 10) : -1; }
std::string slot(char t, long v) { return std::string("[\"") + t + "\"," + std::to_string(v) + "]"; }
template <typename A, typename O, bool Copy> struct Anys {
  A x[3]; typedef std::integral_constant<bool, Copy> C;
  std::string see(int k)
  {
    A const &a = x[k];
    int *n = SafeAnyCast<int>(a); std::string *s = SafeAnyCast<std::string>(a); O *o = SafeAnyCast<O>(a);
    if (SafeAnyCast<long>(a) || SafeAnyCast<char const *>(a) || (n != nullptr) + (s != nullptr) + (o != nullptr) != (a.empty() ? 0 : 1)) ev("{\"e\":\"Bad\"}");
    if (n != AnyCast<int>(a) || s != AnyCast<std::string>(a) || o != AnyCast<O>(a)) ev("{\"e\":\"Bad\"}");
    if (n) { if (a.type() != typeid(int) || UnsafeAnyCast<int>(a) != n) ev("{\"e\":\"Bad\"}"); return slot('n', *n); }
    if (s) { if (a.type() != typeid(std::string) || UnsafeAnyCast<std::string>(a) != s) ev("{\"e\":\"Bad\"}"); return slot('s', unword(*s)); }
    if (o) { if (a.type() != typeid(O) || UnsafeAnyCast<O>(a) != o || *o->p != o->v) ev("{\"e\":\"Bad\"}"); return slot('o', o->v); }
    return "[]";
  }
  void log(char const *e, int b, int c, std::string const &w) { ev("{\"e\":\"%s\",\"b\":%d,\"c\":%d,\"w\":%s,\"h\":[%s,%s,%s],\"lv\":%ld}", e, b + 1, c + 1, w.c_str(), see(0).c_str(), see(1).c_str(), see(2).c_str(), Owned::live()); }
  template <typename V> void set(int b, int w, V v, std::true_type) { if (w == 0) { x[b] = v; } else if (w == 1) { x[b] = std::move(v); } else if (w == 2) { V const &r = v; x[b] = A(r); } else { A a(v); x[b] = std::move(a); } }
  template <typename V> void set(int b, int w, V v, std::false_type) { if (w <= 1) x[b] = std::move(v); else if (w == 2) x[b] = A(std::move(v)); else { A a(std::move(v)); x[b].swap(a); } }
  void copy(int b, int c, int w, std::true_type)
  {
    if (w == 0) { A const &r = x[c]; x[b] = r; } else if (w == 1) x[b] = x[c]; else { A a(w == 2 ? A(x[c]) : x[c]); A const &r = a; A d(r); x[b].swap(d); }
    log("Cpy", b, c, "[]");
  }
  void copy(int, int, int, std::false_type) {}
  void run(std::vector<Op> const &ops)
  {
    for (auto &o : ops) {
      int b = int(o.i(0)) % 3, c = int(o.i(1)) % 3, w = int(o.i(2)); long v = o.i(4); char t = o.a.size() > 3 ? o.a[3][0] : 'n';
      if (is(o, "set")) {
        if (t == 'n') set(b, w, int(v), C()); else if (t == 's') set(b, w, word(v), C()); else set(b, w, O(v), C());
        log("Set", b, c, slot(t, v));
      } else if (is(o, "cpy")) copy(b, c, w, C());
      else if (is(o, "mov") && b != c) { x[b] = std::move(x[c]); log("Mov", b, c, "[]"); }
      else if (is(o, "mct") && b != c) { A a(std::move(x[c])); x[b].swap(a); a.clear(); log("Mov", b, c, "[]"); }
      else if (is(o, "clr")) { if (w) x[b] = A(); else x[b].clear(); log("Clr", b, c, "[]"); }
      else if (is(o, "swp")) { x[b].swap(x[c]); log("Swp", b, c, "[]"); }
      else if (is(o, "mod") && !x[b].empty()) {
        if (int *n = AnyCast<int>(x[b])) *n = int(v); else if (std::string *s = AnyCast<std::string>(x[b])) *s = word(v);
        else if (O *p = AnyCast<O>(x[b])) p->v = *p->p = v;
        log("Mod", b, c, std::to_string(v));
      }
    }
    for (auto &a : x) a.clear();
    ev("{\"e\":\"End\",\"lv\":%ld}", Owned::live());
  }
};
template <typename T> struct OptOf;
template <> struct OptOf<int> { static char const t = 'n'; static int make(long v) { return int(v); } static long val(int x) { return x; } typedef long To; };
template <> struct OptOf<std::string> { static char const t = 's'; static std::string make(long v) { return word(v); } static long val(std::string const &x) { return unword(x); } struct To { std::string s; To() {} To(std::string const &a) : s(a) {} operator std::string() const { return s; } }; };
template <> struct OptOf<Owned> { static char const t = 'o'; static Owned make(long v) { return Owned(v); } static long val(Owned const &x) { return x.v; } struct To { long v; To() : v(0) {} To(Owned const &a) : v(a.v) {} operator Owned() const { return Owned(v); } }; };
template <typename T> struct Opts {
  typedef kanon::optional<T> X; typedef OptOf<T> F; X x[3];
  std::string see(int k)
  {
    X const &a = x[k]; if (bool(a) != a.has_value()) ev("{\"e\":\"Bad\"}");
    if (!a) return "[]";
    if (std::addressof(a.value()) != std::addressof(*a) || a.operator->() != std::addressof(*a) || x[k].operator->() != a.operator->()) ev("{\"e\":\"Bad\"}");
    return slot(F::t, F::val(*a));
  }
  void log(char const *e, int b, int c, std::string const &w) { ev("{\"e\":\"%s\",\"b\":%d,\"c\":%d,\"w\":%s,\"h\":[%s,%s,%s]}", e, b + 1, c + 1, w.c_str(), see(0).c_str(), see(1).c_str(), see(2).c_str()); }
  void run(std::vector<Op> const &ops)
  {
    for (auto &o : ops) {
      int b = int(o.i(0)) % 3, c = int(o.i(1)) % 3, w = int(o.i(2)); long v = o.i(4);
      if (is(o, "set")) { T t = F::make(v); if (w == 0) x[b] = t; else if (w == 1) x[b] = std::move(t); else if (w == 2) x[b] = X(t); else x[b] = make_optional(t); log("Set", b, c, slot(F::t, v)); }
      else if (is(o, "cpy")) { if (w == 0) { X const &r = x[c]; x[b] = r; } else { X a(static_cast<X const &>(x[c])); x[b] = a; } log("Cpy", b, c, "[]"); }
      else if (is(o, "cvt")) { // through an optional of another type
        typedef kanon::optional<typename F::To> Y; X const &r = x[c];
        if (w == 0) { Y y(r); Y const &q = y; X z(q); x[b] = z; } else if (w == 1) { Y y; y = r; Y const &q = y; x[b] = q; } else { Y y(r); X z(std::move(y)); x[b] = std::move(z); }
        log("Cpy", b, c, "[]");
      }
      else if (is(o, "mov") && b != c) { x[b] = std::move(x[c]); x[c].SetInvalid(); log("Mov", b, c, "[]"); }
      else if (is(o, "mct") && b != c) { X a(std::move(x[c])); x[b] = std::move(a); x[c] = make_null_optional<T>(); log("Mov", b, c, "[]"); }
      else if (is(o, "clr")) { if (w == 0) x[b].SetInvalid(); else if (w == 1) x[b] = X(); else x[b] = make_null_optional<T>(); log("Clr", b, c, "[]"); }
      else if (is(o, "swp")) { std::swap(x[b], x[c]); log("Swp", b, c, "[]"); }
      else if (is(o, "mod") && x[b]) { if (w == 0) *x[b] = F::make(v); else if (w == 1) x[b].value() = F::make(v); else *x[b].operator->() = F::make(v); log("Mod", b, c, std::to_string(v)); }
    }
  }
};
// points in time
struct Times {
  TimeStamp x[2];
  typedef TimeStamp TS;
  static std::string num(int64_t us) { int64_t s = us / 1000000, u = us % 1000000; if (u < 0) { u += 1000000; --s; } if (s < -2147483647 || s > 2147483647) return "[]"; return "[" + std::to_string(s) + "," + std::to_string(u) + "]"; }
  void log(char const *e, int b, std::string const &w) { ev("{\"e\":\"%s\",\"b\":%d,\"w\":%s,\"t\":[%s,%s]}", e, b + 1, w.c_str(), num(x[0].microseconds()).c_str(), num(x[1].microseconds()).c_str()); }
  void run(Script const &sc, std::vector<Op> const &ops)
  {
    int z = int(sc.geti("tz", 0)), az = z < 0 ? -z : z; char tz[32]; // local time is z seconds ahead
    snprintf(tz, sizeof tz, "LOC%c%d:%02d", z > 0 ? '-' : '+', az / 3600, az / 60 % 60);
    setenv("TZ", tz, 1); tzset();
    x[0] = TS(0); x[1].SetMicroseconds(0);
    for (auto &o : ops) {
      int b = int(o.i(0)) & 1, n = int(o.i(2)); std::string u = o.a.size() > 1 ? o.a[1] : ""; TS &t = x[b], &r = x[1 - b];
      if (is(o, "set")) { t = n & 1 ? TS(int64_t(o.i(3)) * 1000000 + o.i(4)) : TS::FromUnixTime(time_t(o.i(3)), o.i(4)); log("Set", b, "[" + std::to_string(o.i(3)) + "," + std::to_string(o.i(4)) + "]"); }
      else if (is(o, "add")) { // a duration: unit and count, added (or the other way round)
        bool l = o.i(3) & 1;
        if (o.i(3) >= 2 && u == "q") t = AddTime(t, n / 4.0); else if (o.i(3) >= 2 && u == "u" && n >= 0) t = AddTimeUs(t, uint64_t(n)); else if (o.i(3) >= 2 && u == "m" && n >= 0) t = AddTimeMs(t, uint64_t(n));
        else if (u == "s") t = l ? TS::Second(n) + t : t + TS::Second(n); else if (u == "m") t = l ? TS::MilliSecond(n) + t : t + TS::MilliSecond(n);
        else if (u == "u") t = l ? TS::Microsecond(n) + t : t + TS::Microsecond(n); else t = l ? n / 4.0 + t : t + n / 4.0;
        log("Add", b, "[\"" + u + "\"," + std::to_string(n) + "]");
      } else if (is(o, "sub")) {
        bool l = o.i(3) & 1; // duration minus point: the negative of point minus duration
        if (u == "s") t = l ? -(TS::Second(n) - t) : t - TS::Second(n); else if (u == "m") t = l ? -(TS::MilliSecond(n) - t) : t - TS::MilliSecond(n);
        else if (u == "u") t = l ? -(TS::Microsecond(n) - t) : t - TS::Microsecond(n); else t = l ? -(n / 4.0 - t) : t - n / 4.0;
        log("Sub", b, "[\"" + u + "\"," + std::to_string(n) + "]");
      }
      else if (is(o, "plus")) { if (n & 1) t += r; else t = t + r; log("Plus", b, "0"); }
      else if (is(o, "minus")) { if (n & 1) t -= r; else t = t - r; log("Minus", b, "0"); }
      else if (is(o, "neg")) { t = -t; log("Neg", b, "0"); }
      else if (is(o, "get")) {
        int64_t d = t.microseconds() - r.microseconds();
        bool near = d > -1000000000000000 && d < 1000000000000000;
        if (near) d = llround(TimeDifference(t, r) * 1e6); // beyond, a double has no microseconds
        char m[200]; snprintf(m, sizeof m, "[%ld,%s,%d,%d,%d,%d,%d,%d,%s]", long(t.GetSeconds()), num(t.GetMilliseconds()).c_str(), t == r, t != r, t < r, t > r, t <= r, t >= r, near ? num(d).c_str() : "[]");
        if (t.seconds() != t.GetSeconds() || t.milliseconds() != t.GetMilliseconds() || t.GetMicroseconds() != t.GetMicrosecondsSinceEpoch()) ev("{\"e\":\"Bad\"}");
        log("Get", b, m);
      } else if (is(o, "fmt")) {
        bool ok = false; std::string a = t.ToFormattedString(true), c = t.ToFormattedString(false);
        TS z = TS::FromTimeStr("%Y%m%d %H:%M:%S", c, &ok); // and back
        log("Form", b, "[" + Views::list(a) + "," + Views::list(c) + "," + num(z.microseconds()) + "," + (ok ? "1" : "0") + "]");
      }
    }
  }
};
void run(Script const &s, uint64_t)
{
  vrt::begin(vrt::next_params);
  UThread T([&] {
    static std::set<void const *> at; g_at = &at;
    std::string k = s.gets("k");
    static std::vector<Op> const none;
    auto *f = s.find("o"); std::vector<Op> const &ops = f ? *f : none;
    long h0 = vrt::heap_blocks(); bool owner = k != "pool"; // what a script's objects allocate goes with them
    if (k == "buf") { Bufs x(s.geti("i0", 1024), s.geti("i1", 0)); x.run(ops); }
    else if (k == "chunk") { Chunks x; x.run(ops); }
    else if (k == "list") { Lists x; x.run(ops); }
    else if (k == "arr0") { Arrays<T0> x; x.run(ops); }
    else if (k == "arr1") { Arrays<T1> x; x.run(ops); }
    else if (k == "arr2") { Arrays<T2> x; x.run(ops); }
    else if (k == "arr3") { Arrays<T3> x; x.run(ops); }
    else if (k == "pool") { Pools x; x.run(s, ops); }
    else if (k == "str") { Views x; x.run(ops); }
    else if (k == "any") { Anys<Any, Owned, true> x; x.run(ops); }
    else if (k == "uany") { Anys<UniqueAny, OwnedMv, false> x; x.run(ops); }
    else if (k == "optn") { Opts<int> x; x.run(ops); }
    else if (k == "opts") { Opts<std::string> x; x.run(ops); }
    else if (k == "opto") { Opts<Owned> x; x.run(ops); }
    else if (k == "time") { Times x; x.run(s, ops); }
    else if (k == "text") {
      switch (s.geti("sz", 64)) {
      case 64: { Texts<64> x; x.run(ops); break; }
      case 100: { Texts<100> x; x.run(ops); break; }
      default: { Texts<400> x; x.run(ops); }
      }
    }
    else if (k == "cont") { Cont x(s.geti("cpb", 1)); x.run(ops); }
    if (owner) ev("{\"e\":\"Gone\",\"lk\":%ld}", vrt::heap_blocks() - h0);
  });
  T.join();
}
} // namespace
int main(int c, char **v) { quiet_logs(); return vrt::driver(c, v, run); }
