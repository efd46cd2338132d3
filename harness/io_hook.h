// Interposed file operations: count them, kill the process at one, tear a
// write in half, or make one fail.
#ifndef VH_IO_HOOK_H_
#define VH_IO_HOOK_H_
#include <atomic>
#include <cstdint>
namespace io {
enum { OFF, COUNT, KILL, TORN, FAIL, FAIL_FROM };
struct Shared {
  std::atomic<uint64_t> ops;    // mutating operations so far
  std::atomic<uint64_t> target; // 1-based operation at which the fault strikes
  std::atomic<int> mode;
  std::atomic<int> errno_value;
  std::atomic<uint64_t> struck; // faults delivered
  char what[256];               // operation at which it struck
  // free for the workload
  std::atomic<int> called, done, phase;
  std::atomic<int> flags[64];
  char note[512];
};
extern Shared *shared; // in shared memory, survives the child
extern std::atomic<bool> armed;
extern bool data_only; // only creating and writing files fails, not naming them
Shared *init();
} // namespace io
#endif
