// Common part of the native drivers: tests, schedule perturbation, watchdog.
#pragma once
#include "xdispatch_internal.h"
#include "xdispatch/dispatch.h"
#include "xdispatch/barrier_operation.h"
#include "xdispatch/signals.h"
#include "xdispatch/signals_barrier.h"
#include "xdispatch/waitable_queue.h"
#include "xdispatch/impl/cancelable.h"
#include "xdispatch/impl/ibackend.h"
#include "xdispatch/impl/igroup_impl.h"
#include "xdispatch/impl/iqueue_impl.h"
#include "xdispatch/impl/isocket_notifier_impl.h"
#include "xdispatch/impl/itimer_impl.h"
#include "xdispatch/impl/lightweight_barrier.h"
#include "naive/naive_backend_internal.h"
#include "naive/naive_manual_thread.h"
#include "naive/naive_semaphore.h"
#include "naive/naive_thread.h"
#include "naive/naive_threadpool.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <mutex>
#include <set>
#include <thread>
#include <vector>
#include <pthread.h>
#include <sched.h>
#include <sys/socket.h>
#include <unistd.h>

#define NI __attribute__((no_instrument_function))
using namespace xdispatch;
using ms = std::chrono::milliseconds;
using clk = std::chrono::steady_clock;

// ------------------------------------------------ schedule perturbation
namespace fuzz {
static unsigned s_seed = 1;
static volatile int s_level = 0; // 0: off
static __thread unsigned t_state = 0;
NI static inline unsigned next()
{
    if (0 == t_state) {
        t_state = __atomic_fetch_add(&s_seed, 2654435761u, __ATOMIC_RELAXED) | 1u;
    }
    t_state ^= t_state << 13;
    t_state ^= t_state >> 17;
    t_state ^= t_state << 5;
    return t_state;
}
NI static inline void point(unsigned weight)
{
    if (0 == s_level) {
        return;
    }
    const unsigned r = next();
    if (0 == r % weight) {
        const unsigned k = (r >> 12) % 16;
        if (k < 10) {
            sched_yield();
        } else {
            usleep(k < 15 ? 20 + (r >> 20) % 200 : 1000 + (r >> 20) % 1500);
        }
    }
}
}
extern "C" {
NI void __cyg_profile_func_enter(void*, void*);
NI void __cyg_profile_func_exit(void*, void*);
NI void __cyg_profile_func_enter(void*, void*) { fuzz::point(600); }
NI void __cyg_profile_func_exit(void*, void*) { fuzz::point(600); }
#define W(ret, name, params, args)                                             \
    ret __real_##name params;                                                  \
    NI ret __wrap_##name params                                                \
    {                                                                          \
        fuzz::point(12);                                                       \
        return __real_##name args;                                             \
    }
W(int, pthread_mutex_lock, (pthread_mutex_t * m), (m))
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
NI int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    const int r = __real_pthread_mutex_unlock(m);
    fuzz::point(12);
    return r;
}
W(int, pthread_cond_broadcast, (pthread_cond_t * c), (c))
W(int, pthread_cond_signal, (pthread_cond_t * c), (c))
// waiting may end early at any time (spurious wake-ups)
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
NI int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    if (fuzz::s_level && 0 == fuzz::next() % 6) {
        pthread_mutex_unlock(m);
        usleep(50);
        pthread_mutex_lock(m);
        return 0;
    }
    return __real_pthread_cond_clockwait(c, m, k, t);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, std::unique_lock<std::mutex>&);
NI void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>& l)
{
    if (fuzz::s_level && 0 == fuzz::next() % 6) {
        l.unlock();
        usleep(50);
        l.lock();
        return;
    }
    __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
}
W(void, _ZNSt18condition_variable10notify_allEv, (void* c), (c))
W(void, _ZNSt18condition_variable10notify_oneEv, (void* c), (c))
}

// ------------------------------------------------ tests
static long g_round = 0; // slow scenarios run in the first round only
static const char* g_test = "start";
static std::atomic<long> g_beat{ 0 };
[[noreturn]] NI static void fail(const char* m)
{
    std::fprintf(stderr, "FAILED: %s: %s\n", g_test, m);
    std::fflush(stderr);
    _exit(1);
}
#define CHECK(x) do { if (!(x)) fail(#x); } while (0)
NI static inline void sleep_ms(int n) { std::this_thread::sleep_for(ms(n)); }
NI static inline unsigned rnd(unsigned n) { return fuzz::next() % n; }
// true as soon as p() holds; the limit is generous as the schedule is disturbed
template<class P> NI static bool eventually(P p, int n = 15000)
{
    const auto until = clk::now() + ms(n);
    while (!p()) {
        if (clk::now() > until) {
            return p();
        }
        usleep(200);
    }
    return true;
}
struct test
{
    const char* name;
    void (*f)();
};
NI static std::vector<test>& tests()
{
    static std::vector<test> t;
    return t;
}
#define TEST(n)                                                                \
    static void test_##n();                                                    \
    static const int reg_##n = (tests().push_back({ #n, &test_##n }), 0);      \
    static void test_##n()

int NI main(int argc, char** argv)
{
    const int seconds = argc > 1 ? std::atoi(argv[1]) : 10;
    const unsigned seed = argc > 2 ? std::atoi(argv[2]) : 1;
    fuzz::s_seed = seed * 7919u + 1u;
    std::thread([] {
        long last = -1;
        int same = 0;
        for (;;) {
            std::this_thread::sleep_for(std::chrono::seconds(1));
            const long now = g_beat;
            same = now == last ? same + 1 : 0;
            last = now;
            if (same > 45) {
                fail("does not end");
            }
        }
    }).detach();
    const auto until = clk::now() + std::chrono::seconds(seconds);
    long& rounds = g_round;
    do {
        for (auto& t : tests()) {
            g_test = t.name;
            fuzz::s_level = rounds % 4 == 0 ? 0 : 1;
            ++g_beat;
            t.f();
        }
        ++rounds;
    } while (clk::now() < until);
    std::fprintf(stderr, "held in %ld rounds of %zu tests\n", rounds, tests().size());
    std::fflush(stderr);
    _exit(0);
}
