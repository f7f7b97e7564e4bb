#pragma once
#include <cstdint>
#include <string>
// Schedule perturbation: the library is compiled with
// -fsanitize-coverage=trace-pc-guard and every basic-block edge is a possible
// preemption point.
namespace pert {
void beginCase(const std::string &mode, uint64_t seed);
void endCase();
bool armed();
uint64_t edgesHit();
uint64_t delaysInjected();
// percentage of socket reads and writes (of more than 64 bytes) which transfer less than asked for
void shortIoPercent(int pct);
uint64_t shortIos();
}
