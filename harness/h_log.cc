// Asynchronous log, rolling log file and logger over a virtual disk: files are
// streams whose bytes are captured when they leave the process.
#include "h_common.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <set>
#include "kanon/log/async_log.h"
#include "kanon/log/log_file.h"
#include "kanon/log/logger.h"
using namespace kanon;
namespace {
bool is(Op const &o, char const *n) { return o.name == n; }
int me() { return vrt::self(); }
// ---------------------------------------------------------- records
const size_t kPat = 9u << 20;
unsigned char *pat; // static content: record m is its name followed by pat[m*4099 ...]
void make_pat()
{
  pat = (unsigned char *)malloc(kPat); uint64_t x = 88172645463325252ull;
  for (size_t i = 0; i < kPat; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; pat[i] = (unsigned char)(x >> 24); }
}
int const kFirst = 128, kMax = 120; // first bytes 128.. name records; text begins below
char const *body(int m) { return (char const *)pat + size_t(m) * 4099; }
std::string record(int m, long n) { std::string s(1, char(kFirst + m)); s.append(body(m), size_t(n - 1)); return s; }
// ---------------------------------------------------------- virtual disk
struct File { std::string path; bool open = true; int cur = 0; long off = 0; std::string note; bool removed = false; bool bad = false; };
struct Disk {
  std::vector<File *> f; std::map<std::string, int> dirs; long len[256] = {}; int64_t slow = 0, busy = 0; bool as = false; int writing = 0;
  std::string want; // expected beginning of the names
} *K;
void emit_w(int f, int m, bool ok)
{
  if (K->as) ev("{\"e\":\"W\",\"m\":%d,\"ok\":%d}", m, ok);
  else ev("{\"e\":\"W\",\"f\":%d,\"m\":%d,\"ok\":%d}", f, m, ok);
}
void take(int fi, File &f, char const *d, size_t n)
{
  size_t i = 0;
  while (i < n && !f.bad) {
    if (f.cur == 0) {
      unsigned char c = (unsigned char)d[i];
      if (c == 'D' || !f.note.empty()) { // a notice
        f.note += char(c); ++i;
        if (c == '\n') {
          unsigned long k = 0;
          if (K->as && sscanf(f.note.c_str(), "Discard %lu", &k) == 1) ev("{\"e\":\"Notice\",\"k\":%lu}", k > 1000000 ? 1000000 : k);
          else { f.bad = true; emit_w(fi, 0, false); }
          f.note.clear();
        } else if (f.note.size() > 200) { f.bad = true; emit_w(fi, 0, false); }
        continue;
      }
      if (c < kFirst + 1 || c > kFirst + kMax || K->len[c - kFirst] == 0) { f.bad = true; emit_w(fi, 0, false); return; }
      f.cur = c - kFirst; f.off = 1; ++i;
    }
    size_t k = std::min(n - i, size_t(K->len[f.cur] - f.off));
    if (k && memcmp(d + i, body(f.cur) + f.off - 1, k)) { f.bad = true; emit_w(fi, f.cur, false); return; }
    i += k; f.off += long(k);
    if (f.off == K->len[f.cur]) { int m = f.cur; f.cur = 0; emit_w(fi, m, true); }
  }
}
ssize_t ck_write(void *c, char const *d, size_t n)
{
  int fi = int(intptr_t(c)); File &f = *K->f[size_t(fi - 1)];
  vrt::atomically([] { ++K->writing; });
  vrt::point();
  if (K->slow) { K->busy += K->slow; vrt::sleep_until(vrt::now() + K->slow); }
  vrt::atomically([&] { --K->writing; take(fi, f, d, n); });
  return ssize_t(n);
}
int ck_close(void *c)
{
  int fi = int(intptr_t(c)); File &f = *K->f[size_t(fi - 1)];
  vrt::point();
  vrt::atomically([&] { f.open = false; if (!K->as) ev("{\"e\":\"Close\",\"f\":%d,\"part\":%d}", fi, f.bad ? 1 : int(f.off && f.cur) + int(!f.note.empty()));
                        else if (f.cur || !f.note.empty()) emit_w(fi, 0, false); });
  return 0;
}
// name: <dir>/<base>.YYYYMMDD-HHMMSS.<digits>.<anything>.log
bool parse(std::string const &p, long &sec)
{
  sec = 0;
  if (p.compare(0, K->want.size(), K->want)) return false;
  char const *s = p.c_str() + K->want.size(); struct tm tm; memset(&tm, 0, sizeof tm); int n = 0, pid;
  if (sscanf(s, ".%4d%2d%2d-%2d%2d%2d.%d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &pid, &n) != 7) return false;
  if (s[n] != '.' || p.find('/', size_t(s - p.c_str())) != std::string::npos) return false;
  if (p.size() < 5 || p.compare(p.size() - 4, 4, ".log")) return false;
  tm.tm_year -= 1900; tm.tm_mon -= 1; sec = timegm(&tm);
  return true;
}
int open_files() { int n = 0; for (auto f : K->f) n += f->open; return n; }
FILE *vopen(char const *path)
{
  vrt::point();
  std::string p = path; size_t s = p.rfind('/');
  if (s != std::string::npos && s > 0) {
    auto it = K->dirs.find(p.substr(0, s));
    if (it == K->dirs.end()) { errno = ENOENT; return nullptr; }
    if ((it->second & 0300) != 0300) { errno = EACCES; return nullptr; }
  }
  int fi = 0;
  vrt::atomically([&] {
    auto f = new File; f->path = p; K->f.push_back(f); fi = int(K->f.size());
    long sec; bool ok = parse(p, sec);
    if (!K->as) ev("{\"e\":\"Open\",\"f\":%d,\"sec\":%ld,\"ok\":%d,\"now\":%lld}", fi, sec, ok, (long long)(vrt::wall() / 1000000));
    else if (!ok) emit_w(fi, 0, false);
  });
  cookie_io_functions_t io = {nullptr, ck_write, nullptr, ck_close};
  FILE *fp = fopencookie((void *)intptr_t(fi), "a", io);
  __fsetlocking(fp, FSETLOCKING_BYCALLER);
  return fp;
}
int vremove(char const *path)
{
  vrt::point(); int r = -1; errno = ENOENT;
  vrt::atomically([&] {
    int fi = 0; for (size_t i = 0; i < K->f.size(); ++i) if (K->f[i]->path == path && !K->f[i]->removed) fi = int(i + 1);
    ev("{\"e\":\"Rm\",\"f\":%d,\"ok\":%d}", fi, fi > 0);
    if (fi) { K->f[size_t(fi - 1)]->removed = true; r = 0; }
  });
  return r;
}
bool on() { return K && vrt::is_running(); }
} // namespace
extern "C" {
FILE *fopen(char const *p, char const *m)
{
  static auto real = (FILE * (*)(char const *, char const *)) dlsym(RTLD_NEXT, "fopen");
  if (on() && (m[0] == 'a' || m[0] == 'w')) return vopen(p);
  return real(p, m);
}
int mkdir(char const *p, mode_t m) noexcept
{
  if (!on()) return (int)syscall(SYS_mkdir, p, m);
  std::string d = p; while (d.size() > 1 && d.back() == '/') d.pop_back();
  size_t s = d.rfind('/');
  if (d.empty() || (s != std::string::npos && s > 0 && !K->dirs.count(d.substr(0, s)))) { errno = ENOENT; return -1; }
  if (K->dirs.count(d)) { errno = EEXIST; return -1; }
  K->dirs[d] = int(m & ~022u);
  return 0;
}
int remove(char const *p) noexcept
{
  static auto real = (int (*)(char const *))dlsym(RTLD_NEXT, "remove");
  return on() ? vremove(p) : real(p);
}
int unlink(char const *p) noexcept
{
  static auto real = (int (*)(char const *))dlsym(RTLD_NEXT, "unlink");
  return on() ? vremove(p) : real(p);
}
}
namespace {
// ---------------------------------------------------------- common parts
Script const *S;
int next_m = 1, sent_upto = 0;
std::vector<UThread *> crew; std::vector<int> busy;
template <class F> void start(F f)
{
  size_t k = 0;
  for (auto &p : S->thr) k += p.first[0] == 't';
  busy.assign(k, 1); crew.reserve(k); k = 0;
  for (auto &p : S->thr) if (p.first[0] == 't') {
    auto const *ops = &p.second; size_t i = k++;
    crew.push_back(new UThread([i, ops, f] { for (auto &o : *ops) f(o); vrt::atomically([&] { busy[i] = 0; }); }));
  }
}
void join() { for (auto t : crew) { t->join(); delete t; } crew.clear(); }
bool misc(Op const &o)
{
  if (is(o, "p")) { for (int k = o.i(0); k > 0; --k) vrt::point(); }
  else if (is(o, "sleep")) vrt::sleep_until(vrt::now() + o.i(0));
  else if (is(o, "adv")) vrt::advance(o.i(0));
  else if (is(o, "slow")) vrt::atomically([&] { K->slow = o.i(0); });
  else return false;
  return true;
}
void disk(Script const &s)
{
  K = new Disk; K->slow = s.geti("slow", 0);
  K->dirs["/v"] = 0755;
  std::string p = s.gets("prefix", "");
  if (s.geti("exists", 0)) { std::string d = p; while (d.size() > 1 && d.back() == '/') d.pop_back(); if (!d.empty()) K->dirs[d] = 0755; }
  K->want = p + (p.empty() || p.back() == '/' ? "" : "/") + s.gets("base", "app");
}
// ---------------------------------------------------------- async log
void run_async(Script const &s)
{
  disk(s); K->as = true;
  static AsyncLog *al; static bool setup; setup = s.geti("setup", 0); al = nullptr;
  static int fl; fl = s.geti("fl", 3);
  static std::function<void(char const *, size_t)> sink;
  std::string base = s.gets("base", "app"), prefix = s.gets("prefix", "");
  size_t num = s.geti("num", -1) < 0 ? size_t(UINT_MAX) : size_t(s.geti("num", -1)), roll = size_t(s.geti("roll", 1 << 30));
  ev("{\"e\":\"New\",\"fl\":%d}", fl * 1000000);
  if (!setup) {
    al = new AsyncLog(base, roll, prefix, num, size_t(s.geti("iv", 86400)), size_t(fl));
    sink = [](char const *d, size_t n) { al->Append(d, n); };
  }
  static auto op = [](Op const &o) {
    if (misc(o)) return;
    if (is(o, "app")) {
      int m = 0; long n = o.i(0); bool ok = false;
      vrt::atomically([&] { if (next_m > kMax) return; ok = true; m = next_m++; K->len[m] = n;
        ev("{\"e\":\"AppB\",\"t\":%d,\"m\":%d,\"n\":%ld,\"us\":%lld}", me(), m, n, (long long)vrt::now()); });
      if (!ok) return;
      std::string r = record(m, n);
      sink(r.data(), r.size());
      ev("{\"e\":\"AppE\",\"m\":%d,\"us\":%lld}", m, (long long)vrt::now());
    }
  };
  static auto quiet = [](int64_t d) {
    vrt::quiesce(vrt::now() + d);
    vrt::atomically([&] { if (!K->writing) ev("{\"e\":\"Quiet\",\"us\":%lld}", (long long)std::max<int64_t>(0, vrt::now() - K->busy)); });
  };
  bool stopped = false, started = false;
  auto stop = [&] {
    ev("{\"e\":\"StopB\"}"); stopped = true;
    if (s.geti("del", 0)) { join(); delete al; al = nullptr; } else al->Stop();
    ev("{\"e\":\"StopE\",\"files\":%d}", open_files());
  };
  auto *mo = s.find("m");
  for (auto &o : *mo) {
    if (is(o, "start")) {
      ev("{\"e\":\"Start\"}"); started = true;
      if (setup) { SetupAsyncLog(base, roll, prefix, num, size_t(s.geti("iv", 86400)), size_t(fl)); sink = Logger::GetOutputCallback(); }
      else al->StartRun();
    }
    else if (is(o, "go")) start(op);
    else if (is(o, "join")) join();
    else if (is(o, "quiet")) quiet(o.i(0));
    else if (is(o, "stop")) { if (!setup && !stopped) stop(); }
    else op(o);
  }
  if (setup) { join(); quiet(fl * 1000000 + 30000); vrt::end(); }
  if (started && !stopped) stop();
  join();
  delete al;
}
// ---------------------------------------------------------- log file
template <bool TS> void run_file(Script const &s)
{
  disk(s);
  typedef LogFile<TS> LF; static LF *lf;
  static std::function<void(char const *, size_t)> sink; static std::function<void()> flush;
  int num = s.geti("num", -1);
  ev("{\"e\":\"New\",\"roll\":%d,\"iv\":%d,\"fl\":%d,\"num\":%d,\"one\":%d}", s.geti("roll", 1000), s.geti("iv", 86400), s.geti("fl", 3), num, s.geti("one", 1));
  lf = new LF(s.gets("base", "app"), size_t(s.geti("roll", 1000)), s.gets("prefix", ""), num < 0 ? size_t(UINT_MAX) : size_t(num), size_t(s.geti("iv", 86400)), size_t(s.geti("fl", 3)));
  ev("{\"e\":\"Made\"}");
  if (s.geti("setup", 0)) { SetupLogFile(*lf); sink = Logger::GetOutputCallback(); flush = Logger::GetFlushCallback(); }
  else { sink = [](char const *d, size_t n) { lf->Append(d, n); }; flush = [] { lf->Flush(); }; }
  static auto op = [](Op const &o) {
    if (misc(o)) return;
    if (is(o, "app")) {
      int m = 0; long n = o.i(0); bool ok = false;
      vrt::atomically([&] { if (next_m > kMax) return; ok = true; m = next_m++; K->len[m] = n;
        ev("{\"e\":\"AppB\",\"m\":%d,\"n\":%ld,\"now\":%lld}", m, n, (long long)(vrt::wall() / 1000000)); });
      if (!ok) return;
      std::string r = record(m, n);
      sink(r.data(), r.size());
      vrt::atomically([&] { ev("{\"e\":\"AppE\",\"m\":%d,\"now\":%lld}", m, (long long)(vrt::wall() / 1000000)); sent_upto = std::max(sent_upto, m); });
    } else if (is(o, "flush")) {
      int k = 0; std::set<int> done; vrt::atomically([&] { k = next_m - 1; });
      (void)done;
      if (S->geti("one", 1) == 0) k = 0; // several appenders: only the single-appender runs judge it
      flush();
      ev("{\"e\":\"FlushE\",\"k\":%d}", k);
    }
  };
  static auto quiet = [](int64_t d) { vrt::quiesce(vrt::now() + d); ev("{\"e\":\"Quiet\"}"); };
  auto *mo = s.find("m");
  for (auto &o : *mo) {
    if (is(o, "go")) start(op);
    else if (is(o, "join")) join();
    else if (is(o, "quiet")) quiet(o.i(0));
    else op(o);
  }
  join();
  ev("{\"e\":\"DelB\"}");
  delete lf;
  ev("{\"e\":\"DelE\"}");
}
// ---------------------------------------------------------- logger
struct Piece { int kind; std::string s; long long i; double d; };
struct Stmt { int t, lev, line; bool lib, color, named; int err; std::vector<Piece> p; std::string text, func; int64_t b; std::string tid; };
struct Msg { std::vector<Piece> const *p; };
LogStream &operator<<(LogStream &o, Msg const &m)
{
  for (auto &x : *m.p) switch (x.kind) {
    case 0: o << x.s; break;
    case 1: o << x.s.c_str(); break;
    case 2: o << StringView(x.s.data(), x.s.size()); break;
    case 3: o << (int)x.i; break;
    case 4: o << (long long)x.i; break;
    case 5: o << (char)x.i; break;
    case 6: o << x.d; break;
    case 7: o << (unsigned long)x.i; break;
    case 8: o << LogFmtStream("<%|%>", (int)x.i, "s"); break;
    case 9: o << bool(x.i); break;
    case 10: o << (void const *)(x.i); break;
    case 11: o << (short)x.i << (unsigned char)x.i << (unsigned)x.i; break;
  }
  return o;
}
std::string text(Piece const &x)
{
  char b[400];
  switch (x.kind) {
    case 0: case 1: case 2: return x.s;
    case 3: return std::to_string((int)x.i);
    case 4: return std::to_string(x.i);
    case 5: return std::string(1, char(x.i));
    case 6: snprintf(b, sizeof b, "%.12g", x.d); return b;
    case 7: return std::to_string((unsigned long)x.i);
    case 8: snprintf(b, sizeof b, "<%d|s>", (int)x.i); return b;
    case 10: if (!x.i) return "(null)"; snprintf(b, sizeof b, "0x%016llX", (unsigned long long)x.i); return b;
    case 11: return std::to_string((short)x.i) + std::to_string((unsigned char)x.i) + std::to_string((unsigned)x.i);
    default: return x.i ? "True" : "False";
  }
}
std::map<int, Stmt *> cur_stmt; // by thread
Msg eval(std::vector<Piece> const &p) { ev("{\"e\":\"Eval\",\"t\":%d}", me()); return Msg{&p}; }
char const *NAMES[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "SYS_ERROR", "FATAL", "SYS_FATAL"};
bool cut_of(std::vector<Piece> const &p, std::string const &m, size_t k, size_t pos, std::set<std::pair<size_t, size_t>> &seen)
{
  if (pos == m.size()) return true;
  if (k == p.size() || !seen.insert({k, pos}).second) return false;
  std::string t = text(p[k]);
  size_t c = 0; while (c < t.size() && pos + c < m.size() && t[c] == m[pos + c]) ++c;
  if (pos + c == m.size()) return true;                                   // ends inside this piece
  if (c == t.size() && cut_of(p, m, k + 1, pos + c, seen)) return true;   // the piece
  return cut_of(p, m, k + 1, pos, seen);                                  // without the piece
}
void judge(char const *d, size_t n)
{
  int t = me(); std::string r(d, n), h; Stmt *s = cur_stmt.count(t) ? cur_stmt[t] : nullptr;
  vrt::check_range(d, n);
  if (!s) { ev("{\"e\":\"Out\",\"t\":%d,\"lev\":-1,\"nl\":0,\"end\":0,\"time\":0,\"thr\":0,\"loc\":0,\"err\":0,\"fn\":0,\"msg\":0,\"long\":0,\"size\":0}", t); return; }
  int64_t now = vrt::wall();
  int nl = 0; for (char c : r) nl += c == '\n';
  bool end = !r.empty() && r.back() == '\n';
  // without colours
  std::string x; for (size_t i = 0; i < r.size(); ++i) { if (r[i] == '\033') { while (i < r.size() && r[i] != 'm') ++i; continue; } x += r[i]; }
  bool colored = x.size() != r.size();
  int lev = -1, time_ok = 0, thr = 0, loc = 0, err = 1, fn = 1, msg = 0;
  struct tm tm; memset(&tm, 0, sizeof tm); int us = 0, k = 0;
  if (sscanf(x.c_str(), "%4d%2d%2d:%2d%2d%2d.%6d%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &us, &k) == 7 && k == 22 && x[22] == ' ') {
    tm.tm_year -= 1900; tm.tm_mon -= 1; int64_t w = int64_t(timegm(&tm)) * 1000000 + us;
    time_ok = s->b <= w && w <= now;
  }
  std::string who = s->tid + (s->named ? " Named " : " Unnamed ");
  size_t o = 23;
  if (x.compare(o, who.size(), who) == 0) { thr = 1; o += who.size(); }
  else { size_t q = x.find('[', o); o = q == std::string::npos ? x.size() : q; }
  for (int i = 0; i < 8; ++i) { std::string a = std::string("[") + NAMES[i] + "] "; if (x.compare(o, a.size(), a) == 0) { lev = i; o += a.size(); break; } }
  if (colored != s->color) lev = -1;
  std::string tail = " - h_log.cc:" + std::to_string(s->line) + "\n";
  size_t e = x.size();
  if (x.size() >= o + tail.size() && x.compare(x.size() - tail.size(), tail.size(), tail) == 0) { loc = 1; e = x.size() - tail.size(); }
  if (s->lev <= 1) { std::string f = s->func + "() "; if (x.compare(o, f.size(), f) == 0 && o + f.size() <= e) o += f.size(); else fn = 0; }
  if (s->lev == 5 || s->lev == 7) {
    if (s->err) {
      std::string num = std::to_string(s->err), a = "errno: " + num + ", errmsg: " + strerror(s->err) + " ";
      if (x.compare(o, a.size(), a) == 0 && o + a.size() <= e) o += a.size(); else err = 0;
    } else if (o < e && x[o] == ' ') ++o;
  }
  std::string m = o <= e ? x.substr(o, e - o) : "";
  bool lng = o + s->text.size() + tail.size() > 3980;
  if (m == s->text) msg = 1;
  else { std::set<std::pair<size_t, size_t>> seen; msg = lng && cut_of(s->p, m, 0, 0, seen) ? 2 : 3; }
  ev("{\"e\":\"Out\",\"t\":%d,\"lev\":%d,\"nl\":%d,\"end\":%d,\"time\":%d,\"thr\":%d,\"loc\":%d,\"err\":%d,\"fn\":%d,\"msg\":%d,\"long\":%d,\"size\":%zu}",
     t, lev, nl, end, time_ok, thr, loc, err, fn, msg, lng, n);
}
#define LINE_ s.line = __LINE__; s.func = __func__; errno = s.err;
void stmt_run(Stmt &s)
{
  auto const &p = s.p;
  if (!s.lib) switch (s.lev) {
    case 0: LINE_ LOG_TRACE << eval(p); break;
    case 1: LINE_ LOG_DEBUG << eval(p); break;
    case 2: LINE_ LOG_INFO << eval(p); break;
    case 3: LINE_ LOG_WARN << eval(p); break;
    case 4: LINE_ LOG_ERROR << eval(p); break;
    case 5: LINE_ LOG_SYSERROR << eval(p); break;
    case 6: LINE_ LOG_FATAL << eval(p); break;
    case 7: LINE_ LOG_SYSFATAL << eval(p); break;
  } else switch (s.lev) {
    case 0: LINE_ LOG_TRACE_KANON << eval(p); break;
    case 1: LINE_ LOG_DEBUG_KANON << eval(p); break;
    case 2: LINE_ LOG_INFO_KANON << eval(p); break;
    case 3: LINE_ LOG_WARN_KANON << eval(p); break;
    case 4: LINE_ LOG_ERROR_KANON << eval(p); break;
    case 5: LINE_ LOG_SYSERROR_KANON << eval(p); break;
  }
}
bool g_color = true;
uint64_t mix(uint64_t &x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
// log <lev> <lib> <errno> <seed> <len>...: pieces; a negative length is a formatted value of that kind
void do_log(Op const &o, bool named)
{
  static char const AB[] = "abcdefghijklmnopqrstuvwxyz0123456789 -:[]%{}";
  Stmt s; s.t = me(); s.lev = o.i(0); s.lib = o.i(1); s.err = o.i(2); s.color = g_color; s.named = named;
  uint64_t x = 0x9e3779b97f4a7c15ull * uint64_t(o.i(3) + 1) + 1;
  for (size_t k = 4; k < o.a.size(); ++k) {
    Piece q; int v = o.i(k); q.i = 0; q.d = 0;
    if (v >= 0) { q.kind = int(mix(x) % 3); for (int j = 0; j < v; ++j) q.s += AB[mix(x) % (sizeof AB - 1)]; }
    else {
      q.kind = -v; q.i = (long long)mix(x); q.d = double(int64_t(mix(x) >> 20)) / 1024;
      if (q.kind == 5) q.i = 'a' + (mix(x) % 26);
      if (q.kind == 9) q.i &= 1;
      if (mix(x) % 4 == 0 && q.kind != 5) q.i = q.kind == 9 ? 1 : 0;
    }
    s.text += text(q); s.p.push_back(q);
  }
  s.tid = std::to_string(long(syscall(SYS_gettid)));
  vrt::atomically([&] { cur_stmt[s.t] = &s; s.b = vrt::wall(); ev("{\"e\":\"Begin\",\"t\":%d,\"n\":%d,\"l\":%d}", s.t, s.lev, s.lib); });
  stmt_run(s);
  vrt::atomically([&] { cur_stmt.erase(s.t); ev("{\"e\":\"End\",\"t\":%d}", s.t); });
}
void run_logger(Script const &s)
{
  Logger::SetOutputCallback([](char const *d, size_t n) { vrt::point(); vrt::atomically([&] { judge(d, n); }); vrt::point(); });
  Logger::SetFlushCallback([] { vrt::point(); ev("{\"e\":\"Flush\",\"t\":%d}", me()); });
  Logger::SetLogLevel(Logger::KANON_LL_INFO); SetKanonLog(true); EnableAllLog(true);
  auto op = [](Op const &o, bool named) { if (is(o, "log")) do_log(o, named); else misc(o); };
  for (auto &o : *s.find("m")) {
    if (is(o, "lev")) { Logger::SetLogLevel(Logger::LogLevel(o.i(0))); ev("{\"e\":\"SetLev\",\"n\":%d}", o.i(0)); }
    else if (is(o, "all")) { EnableAllLog(o.i(0)); ev("{\"e\":\"SetAll\",\"b\":%d}", o.i(0)); }
    else if (is(o, "lib")) { SetKanonLog(o.i(0)); ev("{\"e\":\"SetLib\",\"b\":%d}", o.i(0)); }
    else if (is(o, "wall")) vrt::set_wall(int64_t(o.i(0)) * 1000);
    else if (is(o, "color")) { g_color = o.i(0); Logger::SetColor(g_color); }
    else if (is(o, "par")) { // the threads' statements, concurrently
      std::vector<std::unique_ptr<UThread>> a; std::vector<std::unique_ptr<Thread>> b;
      for (auto &p : s.thr) {
        auto const *ops = &p.second;
        if (p.first[0] == 't') a.emplace_back(new UThread([ops, op] { for (auto &x : *ops) op(x, false); }));
        else if (p.first[0] == 'n') { b.emplace_back(new Thread([ops, op] { for (auto &x : *ops) op(x, true); }, "Named")); b.back()->StartRun(); }
      }
      for (auto &t : a) t->join();
      for (auto &t : b) t->Join();
    }
    else op(o, false);
  }
}
void run(Script const &s, uint64_t)
{
  S = &s;
  vrt::begin(vrt::next_params);
  UThread T([&] {
    std::string k = s.gets("k");
    if (k == "async") run_async(s);
    else if (k == "file") { if (s.geti("ts", 0)) run_file<true>(s); else run_file<false>(s); }
    else run_logger(s);
  });
  T.join();
}
} // namespace
int main(int c, char **v) { setenv("TZ", "UTC", 1); make_pat(); quiet_logs(); return vrt::driver(c, v, run); }
