#pragma once
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>

#include "mon.h"

namespace hp {
using namespace maf::messaging;
using mon::Ctx;

inline std::string uniqueId(Ctx &c, const std::string &what) {
  static std::atomic<uint64_t> n{0};
  return what + "-" + std::to_string(c.idx) + "-" + std::to_string(n++);
}
// also ids which look like others, or like generated ones
inline std::string oddId(Ctx &c, const std::string &what, mon::Rng &rng) {
  static const std::string pre[] = {"[", "[a", "[anonymous]", "[anonymous]", "anonymous", "]", "/", " ", "_", "0", ".", "\n", std::string(1, '\0'), std::string(200, 'x'), "\xff"};
  auto id = uniqueId(c, what);
  switch (rng.below(4)) {
    case 0: return pre[rng.below(std::size(pre))] + id;
    case 1: return id + pre[rng.below(std::size(pre))];
    default: return id;
  }
}
inline std::string payload(int sender, int seq) {
  return std::string((size_t)((sender * 31 + seq * 7) % 90), (char)('a' + (sender + seq) % 26));
}
// A message with a verifiable payload.
struct Item {
  int sender;
  int seq;
  std::string data;
  bool ok() const { return data == payload(sender, seq); }
};
inline Item item(int s, int q) { return Item{s, q, payload(s, q)}; }
template <int N>
struct Typed {
  int v;
  std::string data;
};
using ms = std::chrono::milliseconds;
using us = std::chrono::microseconds;
}  // namespace hp
