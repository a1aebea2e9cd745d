// Shared helpers for the conformance drivers.
#ifndef VERIF_H_
#define VERIF_H_
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <cmath>

#include <nlohmann/json.hpp>

#include "src/cottontail.h"

using json = nlohmann::json;
namespace ct = cottontail;

// TLC integers are 32 bit: infinities and out-of-range addresses are folded.
static const int64_t INF = 1000000000;
inline int64_t enc(ct::addr a) {
  if (a == ct::maxfinity)
    return INF;
  if (a == ct::minfinity)
    return -INF;
  if (a >= INF)
    return INF - 1;
  if (a <= -INF)
    return -INF + 1;
  return a;
}
inline ct::addr dec(int64_t a) {
  if (a >= INF)
    return ct::maxfinity;
  if (a <= -INF)
    return ct::minfinity;
  return a;
}
// A value is an integral double or the bits of a small address.
inline int64_t encv(ct::fval v) {
  if (v == 0.0)
    return 0;
  if (std::fabs(v) < 1e-300 || v != v) {
    ct::addr a = ct::fval2addr(v);
    return (a > -INF && a < INF) ? a : INF - 7;
  }
  if (v == std::floor(v) && std::fabs(v) < (double)INF)
    return (int64_t)v;
  return INF - 7;
}
inline json bytes(const std::string &s) {
  json a = json::array();
  for (unsigned char c : s)
    a.push_back((int)c);
  return a;
}
// One character for each byte.
inline std::string latin(const std::string &s) {
  std::string t;
  for (unsigned char c : s)
    if (c < 0x80) {
      t.push_back((char)c);
    } else {
      t.push_back((char)(0xC0 | (c >> 6)));
      t.push_back((char)(0x80 | (c & 0x3F)));
    }
  return t;
}
inline std::string text_of(const json &j) {
  if (j.is_string())
    return j.get<std::string>();
  std::string s;
  for (auto &c : j)
    s.push_back((char)(unsigned char)c.get<int>());
  return s;
}
inline void put(const json &j) {
  static std::mutex m;
  std::lock_guard<std::mutex> _(m);
  std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace);
  s += "\n";
  size_t done = 0;
  while (done < s.size()) {
    ssize_t n = ::write(3 /* dup of the original stdout */, s.data() + done,
                        s.size() - done);
    if (n <= 0)
      _exit(99);
    done += n;
  }
}
// stdout belongs to the protocol; anything the library prints goes to stderr.
inline void own_stdout() {
  dup2(1, 3);
  dup2(2, 1);
}
#endif
