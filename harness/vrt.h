// vrt: deterministic virtual runtime for the real kanon code.
//
// * every pthread of the program is a virtual thread; exactly one runs at a time
//   and a seeded strategy picks which (schedule points: every interposed call
//   and every memory access the code performs on memory shared by threads);
// * the clock is virtual and advances only when nothing else can run;
// * sockets, epoll, poll, eventfd, timerfd are simulated in process, so the
//   kernel's choices (short writes, would-block, resets, ...) are inputs;
// * the heap is checked (use after free, out of bounds, double free).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vrt {

// ---------------------------------------------------------------- execution
struct Params {
  uint64_t seed = 1;
  int mode = -1;           // strategy; -1: chosen from the seed
  bool spurious = false;   // condition variables may wake up spuriously
  bool reuse = false;      // freed memory is handed out again at once
  int64_t base_sec = 1700000000;
  int64_t base_usec = -1;  // -1: chosen from the seed
  int tick_us = -1;        // clock advance per clock read; -1: from the seed
  int max_fds = 1 << 20;
  long max_steps = 4000000;
  long max_idle_polls = 20000;
};
// Runs inside the forked child.
void begin(Params const &p);
[[noreturn]] void end(); // flush and leave the child normally
[[noreturn]] void fail(char const *what, char const *detail = ""); // abnormal end

uint64_t rnd();               // seeded
inline int rnd(int n) { return n <= 0 ? 0 : int(rnd() % uint64_t(n)); }
int64_t now();                // virtual microseconds since begin()
void set_wall(int64_t us);      // moves the wall clock by us, as an administrator would
int64_t wall();               // virtual microseconds since the epoch
void advance(int64_t us);     // time passes while this thread computes
void sleep_until(int64_t us);
void point();                 // schedule point
void block(std::function<bool()> const &pred);
bool block(std::function<bool()> const &pred, int64_t deadline); // false: timed out
// waits until no other thread can run (time may advance up to maxt)
void quiesce(int64_t maxt);
void atomically(std::function<void()> const &f); // bookkeeping of the harness
int self();                   // virtual thread id (0 = harness main)
void check_range(void const *p, size_t n); // the range must lie in live memory
long heap_blocks();           // live heap blocks, but for those allocated under a Kernel
struct Kernel { Kernel(); ~Kernel(); };
int live_threads();           // threads created and not finished
int unjoined_threads();       // threads that finished and were neither joined nor detached
bool is_running();

// ------------------------------------------------------------------- trace
void ev(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool trace_on;

// --------------------------------------------------------------------- net
struct NetHooks {
  // n bytes of data were taken by the kernel out of asked
  std::function<void(int conn, char const *data, size_t n, size_t asked)> on_write;
  std::function<void(int conn, int err)> on_write_err;
  std::function<void(int conn, char const *data, size_t n)> on_read;
  std::function<void(int conn, int err)> on_read_end; // 0: EOF, else errno
  std::function<void(int conn, int how)> on_shutdown;
  std::function<void(int fd, int kind, int conn)> on_close; // kind: see Kind
  std::function<void(int fd, char const *op)> on_badfd;
  std::function<void(int conn)> on_socket;
  std::function<void(int conn, int err)> on_connect; // immediate result
  std::function<void(int conn)> on_arrive;           // a client reached the backlog
  std::function<void(int conn, int err)> on_accept;  // conn<0: error err
  std::function<void(int fd)> on_listen;
  std::function<void(int ret)> on_poll; // a poll or epoll_wait begins (0) / returns (1)
  // sockets a poll or epoll_wait watches (0) / reports (1), with their events
  std::function<void(int ret, std::vector<std::pair<int, int>> const &socks)> on_pollset;
};
extern NetHooks hooks;
enum Kind { K_NONE, K_EVENTFD, K_TIMERFD, K_EPOLL, K_SOCK, K_LISTEN, K_DEVNULL };

int net_connect(int port);                 // a client connects; returns conn id or -1
void net_send(int conn, std::string const &bytes);
void net_fin(int conn);
void net_rst(int conn);
void net_grant(int conn, size_t n);        // the kernel may take n more bytes
void net_window(int conn, size_t n);       // set the remaining send space
void net_set_default_window(size_t n);
size_t net_unread(int conn);
bool net_local_closed(int conn);
bool net_sock_is_open(int conn);
int net_fd(int conn);                      // descriptor number or -1
int net_make_connected();                  // raw connected socket; returns conn id
int open_fds(int kind);                    // number of open descriptors of a kind
int open_fds();
int fd_interest(int fd);                   // events held by an epoll instance; -1 none
struct Outcome {
  int imm = 115;        // immediate errno: 0 ok, EINPROGRESS pending, else failure
  int64_t delay = 0;    // pending: resolves after delay us (-1: manual)
  int res = 0;          // pending: result (SO_ERROR)
  bool selfc = false;   // self connection
};
void net_push_outcome(Outcome const &o);
void net_set_default_outcome(Outcome const &o);
void net_resolve(int conn, int res);
void net_push_accept_err(int err);
void net_set_max_fds(int n);
int net_conns();
int net_backlog(int port);

// ------------------------------------------------------------------ driver
struct Op { std::string name; std::vector<std::string> a;
  int i(size_t k, int d = 0) const; std::string s(size_t k, char const *d = "") const; };
struct Script {
  std::string id;
  std::map<std::string, std::string> opt;
  std::vector<std::pair<std::string, std::vector<Op>>> thr;
  int geti(char const *k, int d) const; std::string gets(char const *k, char const *d = "") const;
  std::vector<Op> const *find(char const *t) const;
};
// reads jobs from argv[1], writes results to argv[2]
int driver(int argc, char **argv, void (*run)(Script const &, uint64_t seed),
           void (*warm)() = nullptr);
extern Params next_params; // overridden by script options before run()
} // namespace vrt
