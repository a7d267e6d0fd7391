// Monitor of the locks of the library (single source file of a harness includes this)
// A thread must never take a lock which it already holds, in any mode: std::mutex and std::shared_mutex are
// not recursive, and a second shared lock deadlocks as soon as there is a writer in between
#pragma once
#include "vp.hpp"

namespace vp::lockmon {
struct held { const void* m[8]; int n = 0; };
inline thread_local held mine;
inline void on_lock(const void* m, int kind) {
    auto& h = mine;
    if (kind == 0 || kind == 2) {
        for (int i = 0; i < h.n; ++i) {
            if (h.m[i] == m) fail("lock-recursion", "a thread locks a mutex which it already holds");
        }
        if (h.n < 8) h.m[h.n++] = m;
    }
    else {
        for (int i = h.n - 1; i >= 0; --i) {
            if (h.m[i] != m) continue;
            h.m[i] = h.m[--h.n];
            return;
        }
    }
}
}
#ifndef VP_OWN_SCHED_HOOK
extern "C" void vp_sched_hook(const void* m, int kind) { vp::lockmon::on_lock(m, kind); }
#endif
