#include "pools.h"
#include "thread_utils.h"
#include <algorithm>
#include <sys/resource.h>
#include <sys/syscall.h>
using P = queue_priority;
static int bucket(P p)
{
    switch (p) {
        case P::USER_INTERACTIVE: return 0;
        case P::USER_INITIATED: return 1;
        case P::BACKGROUND: return 3;
        default: return 2;
    }
}
// all workers but one are kept busy while operations of all priorities are submitted
static bool picks_in_order()
{
    auto pool = std::make_shared<naive::threadpool>();
    std::atomic<int> in{ 0 }, out{ 0 };
    std::atomic<bool> go{ false }, last{ false };
    std::atomic<bool> full{ false };
    int started = 0;
    while (started < 200) {
        const bool first = 0 == started;
        pool->execute(make_operation([&, first] {
            if (full) { // was still pending when no further worker was started
                ++out;
                return;
            }
            ++in;
            while (!(first ? go : last)) {
                usleep(200);
            }
            ++out;
        }), P::USER_INTERACTIVE);
        ++started;
        const int want = started;
        if (!eventually([&] { return in >= want; }, 2000)) {
            break;
        }
    }
    full = true;
    std::mutex m;
    std::vector<int> order;
    const P ps[] = { P::BACKGROUND, P::DEFAULT, P::UTILITY, P::USER_INITIATED, P::BACKGROUND, P::USER_INTERACTIVE, P::DEFAULT, P::USER_INITIATED };
    const unsigned rot = rnd(8);
    const bool pending = in == started - 1;
    for (int i = 0; i < 8; ++i) {
        const P p = ps[(i + rot) % 8];
        pool->execute(make_operation([&, p] {
            std::lock_guard<std::mutex> l(m);
            order.push_back(bucket(p));
        }), p);
    }
    go = true;
    CHECK(eventually([&] { std::lock_guard<std::mutex> l(m); return order.size() == 8; }));
    last = true;
    CHECK(eventually([&] { return out == started; }));
    return !pending || std::is_sorted(order.begin(), order.end());
}
TEST(most_urgent_first)
{
    CHECK(picks_in_order() || picks_in_order() || picks_in_order());
}
static int nice_of(std::function<void()> f)
{
    int r = 0;
    std::thread t([&] { f(); r = getpriority(PRIO_PROCESS, static_cast<int>(syscall(SYS_gettid))); });
    t.join();
    return r;
}
TEST(nice_values_are_ordered)
{
    auto n = [](P p) { return nice_of([p] { thread_utils::set_current_thread_priority(p); }); };
    CHECK(n(P::USER_INTERACTIVE) <= n(P::USER_INITIATED));
    CHECK(n(P::USER_INITIATED) <= n(P::UTILITY));
    CHECK(n(P::USER_INITIATED) <= n(P::DEFAULT));
    CHECK(n(P::DEFAULT) <= n(P::BACKGROUND));
    CHECK(n(P::UTILITY) <= n(P::BACKGROUND));
}
TEST(thread_runs_at_its_priority)
{
    for (P p : { P::USER_INTERACTIVE, P::USER_INITIATED, P::UTILITY, P::DEFAULT, P::BACKGROUND }) {
        const int want = nice_of([p] { thread_utils::set_current_thread_priority(p); });
        std::atomic<int> got{ 1000 };
        naive::thread t("t", p);
        t.execute(make_operation([&] { got = getpriority(PRIO_PROCESS, static_cast<int>(syscall(SYS_gettid))); }));
        CHECK(eventually([&] { return got != 1000; }));
        CHECK(got == want);
    }
}
