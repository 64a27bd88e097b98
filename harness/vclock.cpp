#include <pch.h>
#include "vt.h"
#include "vclock.h"
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
static std::atomic<bool> g_on{false};
static std::atomic<long long> g_ms{0};
namespace vt {
void vclock_on() { g_ms = 0; g_on = true; }
void vclock_off() { g_on = false; }
void vclock_advance(long long ms) { g_ms += ms; }
long long vclock_now() { return g_ms; }
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    if (g_on) {
        const long long ms = g_ms;
        ts->tv_sec = 1700000000 + ms / 1000;
        ts->tv_nsec = (ms % 1000) * 1000000;
        return 0;
    }
    return int(syscall(SYS_clock_gettime, id, ts));
}
