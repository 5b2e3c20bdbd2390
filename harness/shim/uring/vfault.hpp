// Device errors: the n-th next read of either stand-in fails.  A slow device: some reads take a while.
#pragma once
#include <atomic>
#include <chrono>
#include <thread>
namespace vfd {
inline std::atomic<long> fail_in{-1};        // reads still to succeed before one fails; negative: none fails
inline std::atomic<bool> all{false};         // every read fails from then on
inline std::atomic<long> failed{0};
inline std::atomic<bool> slow{false};
inline bool fails() {
  if (slow) {
    static std::atomic<unsigned> n{0};
    unsigned x = (n++) * 2654435761u >> 20;
    if (x % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(x % 397));
  }
  if (fail_in.load() < 0) return false;
  long v = fail_in.fetch_sub(1);
  if (v > 0) return false;
  if (v < 0) { if (!all) return false; fail_in = 0; }
  else if (all) fail_in = 0;
  failed++;
  return true;
}
}  // namespace vfd
