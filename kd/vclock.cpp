// Clocks as the environment wants them: VCLOCK="mode seed".
//   big:  every reading is seconds after the last one
//   mix:  nothing, very little, or much time passes between readings
//   back: as mix, and the real-time clock (not the monotonic one) is sometimes set back
//   zero: no time passes
// Without VCLOCK it is the system's.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace {
    std::mutex mtx;
    bool inited = false;
    int mode = -1;              // none, big, mix, back, zero
    uint64_t st = 0;
    int64_t now[2] = { 1700000000LL * 1000000000LL, 5000000000LL };   // real time, monotonic

    uint64_t rnd() {
        st += 0x9e3779b97f4a7c15ULL;
        uint64_t z = st;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    void init() {
        inited = true;
        const char* s = getenv("VCLOCK");
        if (!s || !*s)
            return;
        char m[16] = "";
        unsigned long long seed = 0;
        if (sscanf(s, "%15s %llu", m, &seed) < 1)
            return;
        const char* names[] = { "big", "mix", "back", "zero" };
        for (int i = 0; i < 4; i++)
            if (!strcmp(m, names[i]))
                mode = i;
        st = seed * 1000003ULL;
    }
}
extern "C" void vclock_salt(int r) {
    std::lock_guard<std::mutex> g(mtx);
    if (!inited) init();
    st += uint64_t(r) * 7919;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    if (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC) {
        std::lock_guard<std::mutex> g(mtx);
        if (!inited) init();
        if (mode >= 0) {
            int64_t d = 0;
            uint64_t k = rnd() % 100, f = rnd() % 1000;
            if (mode == 0)
                d = 5000000000LL + int64_t(f) * 10000000LL;
            else if (mode == 1 || mode == 2) {
                if (mode == 2 && id == CLOCK_REALTIME && k < 50)
                    d = -int64_t(f) * 20000000LL;
                else if (k < 30) d = 0;
                else if (k < 50) d = 1000;
                else if (k < 70) d = int64_t(f) * 100000LL;
                else if (k < 85) d = int64_t(f) * 1000000LL;
                else d = 3000000000LL + int64_t(f) * 3000000LL;
            }
            int64_t& now_ns = now[id == CLOCK_MONOTONIC];
            now_ns += d;
            ts->tv_sec = now_ns / 1000000000LL;
            ts->tv_nsec = now_ns % 1000000000LL;
            return 0;
        }
    }
    return syscall(SYS_clock_gettime, id, ts);
}
