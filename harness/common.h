#pragma once
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/stack/stack_context.h>
#include <libcopp/stack/stack_traits.h>

#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "pbt.h"

// Stack allocator that records every stack it hands out: used to observe exactly-once release, and to inject
// allocation failures.  State is shared by all copies (as for a pool).
struct TrackState {
  struct Blk {
    void *base;
    size_t size;
    size_t id;
  };
  std::map<void *, Blk> live;  // by sp
  size_t allocated = 0, released = 0, failed = 0;
  long fail_in = 0;  // n-th next allocation fails (0: never)
  size_t max_live = 0;
  size_t extra = 0;  // hand out this many bytes more than asked
  size_t fixed = 0;  // hand out this size whatever was asked (as a pool does)
  void reset() {
    for (auto &kv : live) free(kv.second.base);
    live.clear();
    allocated = released = failed = 0;
    fail_in = 0;
    extra = 0;
    fixed = 0;
  }
};
inline TrackState &track() {
  static TrackState s;
  return s;
}

class TrackAlloc {
 public:
  static constexpr size_t kZone = 256;  // guard zones around every stack
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    TrackState &t = track();
    if (t.fail_in > 0 && --t.fail_in == 0) {
      ++t.failed;
      ctx.sp = nullptr;
      ctx.size = 0;
      return;
    }
    if (t.fixed) size = t.fixed;
    if (size > (static_cast<size_t>(1) << 40)) {
      ctx.sp = nullptr;
      ctx.size = 0;
      return;
    }
    size += t.extra;
    size = (size + 63) & ~static_cast<size_t>(63);
    void *p = nullptr;
    if (posix_memalign(&p, 64, size + 2 * kZone) != 0 || !p) {
      ctx.sp = nullptr;
      ctx.size = 0;
      return;
    }
    ctx.size = size;
    memset(p, 0x5a, kZone);
    memset(static_cast<char *>(p) + kZone + size, 0x5a, kZone);
    ctx.sp = static_cast<char *>(p) + kZone + size;
    t.live[ctx.sp] = TrackState::Blk{p, size, ++t.allocated};
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    TrackState &t = track();
    auto it = t.live.find(ctx.sp);
    if (it == t.live.end())
      pbt::cur().fail("a stack that is not outstanding was released (released twice, or never handed out)");
    if (it->second.size != ctx.size) pbt::cur().fail("a stack was released with another size than it was handed out with");
    ++t.released;
    const unsigned char *z = static_cast<const unsigned char *>(it->second.base);
    for (size_t i = 0; i < kZone; ++i) {
      if (z[i] != 0x5a) pbt::cur().fail("memory below a stack was written");
      if (z[kZone + ctx.size + i] != 0x5a) pbt::cur().fail("memory above a stack was written");
    }
    free(it->second.base);
    t.live.erase(it);
  }
};
