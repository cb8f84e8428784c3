// Request loop shared by the harness programs: one JSON request per line, one JSON reply per line.
#ifndef VERIF_LOOP_H
#define VERIF_LOOP_H
#include <csignal>
#include <cstdlib>
#include <iostream>
#include <new>
#include <sys/time.h>
#include <unistd.h>
#include "json.h"

// ---- live allocations
static long long live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept;
void operator delete[](void* p, const std::nothrow_t&) noexcept;
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#ifdef __cpp_aligned_new
void* operator new(size_t n, std::align_val_t a) { void* p = nullptr; if (posix_memalign(&p, size_t(a) < sizeof(void*) ? sizeof(void*) : size_t(a), n ? n : 1)) abort(); ++live; return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
#endif

// limits the processor time of a request, so that a busy machine is no failure
static void limit(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }
static void on_alarm(int) { const char m[] = "HARNESS-TIMEOUT\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(97); }

template <typename F>
int serve(F handle) {
    signal(SIGPROF, on_alarm);
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        limit(20);
        std::string out;
        {
            J req = JReader(line).value();
            J reply = req["op"].s == "live" ? J::obj().add("live", J::num(live)) : handle(req);
            jwrite(out, reply);
        }
        out += '\n';
        size_t off = 0;
        while (off < out.size()) { ssize_t n = write(1, out.data() + off, out.size() - off); if (n <= 0) return 3; off += size_t(n); }
        limit(0);
    }
    return 0;
}
#endif
