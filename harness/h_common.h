#pragma once
#include "vrt.h"
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <memory>
#include <thread>
#include "kanon/log/logger.h"
#include "kanon/thread/current_thread.h"
#include "kanon/thread/thread.h"
using vrt::ev;
using vrt::Op;
using vrt::Script;

// content of message m at offset o: the first byte names the message
inline unsigned char payload_byte(int m, long o)
{
  if (o == 0) return (unsigned char)m;
  uint64_t x = uint64_t(m) * 0x9e3779b97f4a7c15ull + uint64_t(o) * 0xbf58476d1ce4e5b9ull;
  x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32;
  return (unsigned char)x;
}
inline std::string payload(int m, long len)
{
  std::string s; s.resize(size_t(len));
  for (long i = 0; i < len; ++i) s[size_t(i)] = char(payload_byte(m, i));
  return s;
}
// decodes a captured byte stream back into message segments
struct Decoder {
  long len[256]; int cur = 0; long off = 0; bool bad = false;
  Decoder() { for (auto &x : len) x = -1; }
  // returns json list of [m,a,b]
  std::string feed(char const *d, size_t n)
  {
    std::string r = "["; bool first = true; int m = 0; long a = 0, b = 0;
    auto flush = [&] { if (m) { char t[64]; snprintf(t, sizeof t, "%s[%d,%ld,%ld]", first ? "" : ",", m, a, b); r += t; first = false; m = 0; } };
    for (size_t i = 0; i < n && !bad; ++i) {
      unsigned char c = (unsigned char)d[i];
      if (cur == 0) {
        if (len[c] < 0) { bad = true; break; }
        flush(); cur = c; off = 0; m = c; a = 0; b = 0;
      } else if (c != payload_byte(cur, off)) { bad = true; break; }
      if (!m) { m = cur; a = off; }
      ++off; b = off;
      if (off == len[cur]) { flush(); cur = 0; off = 0; }
    }
    flush();
    if (bad) { r += first ? "[0,0,0]" : ",[0,0,0]"; }
    return r + "]";
  }
};
inline void quiet_logs() { kanon::SetKanonLog(false); kanon::EnableAllLog(true); }
// a thread usable as a loop owner or a client of the library
struct UThread {
  std::thread t;
  template <typename F> explicit UThread(F f) : t(f) {}
  void join() { t.join(); }
};
