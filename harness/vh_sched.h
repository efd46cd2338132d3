#ifndef VH_SCHED_H_
#define VH_SCHED_H_
#include <cstdint>
namespace vh {
void sched_perturb(uint64_t seed, int level); // level 0 = off, 1..3
void sched_point();
uint64_t sched_points();
uint64_t sched_delays();
} // namespace vh
#endif
