#include "pools.h"
using P = queue_priority;
static const P prios[] = { P::USER_INTERACTIVE, P::USER_INITIATED, P::UTILITY, P::DEFAULT, P::BACKGROUND };

TEST(each_once)
{
    auto pool = std::make_shared<naive::threadpool>();
    constexpr int T = 3, N = 80;
    std::vector<std::atomic<int>> ran(T * N);
    for (auto& r : ran) {
        r = 0;
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) {
        ts.emplace_back([&, t] {
            for (int i = 0; i < N; ++i) {
                pool->execute(make_operation([&, t, i] { ++ran[t * N + i]; }), prios[rnd(5)]);
                if (0 == rnd(8)) {
                    usleep(rnd(400));
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(eventually([&] { for (auto& r : ran) { if (!r) return false; } return true; }));
    usleep(2000);
    for (auto& r : ran) {
        CHECK(r == 1);
    }
}

TEST(never_stranded)
{
    // one at a time, with pauses around the point where workers go to sleep
    auto pool = std::make_shared<naive::threadpool>();
    for (int i = 0; i < 40; ++i) {
        std::atomic<int> ran{ 0 };
        pool->execute(make_operation([&] { ++ran; }), prios[rnd(5)]);
        CHECK(eventually([&] { return ran == 1; }));
        usleep(rnd(600));
    }
}

TEST(another_worker_while_one_is_busy)
{
    if (std::thread::hardware_concurrency() < 2) {
        return;
    }
    auto pool = std::make_shared<naive::threadpool>();
    std::atomic<bool> in{ false }, go{ false }, out{ false };
    std::atomic<int> ran{ 0 };
    pool->execute(make_operation([&] { in = true; while (!go) usleep(200); out = true; }), P::DEFAULT);
    CHECK(eventually([&] { return in.load(); }));
    pool->execute(make_operation([&] { ++ran; }), prios[rnd(5)]);
    CHECK(eventually([&] { return ran == 1; }));
    go = true;
    CHECK(eventually([&] { return out.load(); }));
}
TEST(through_a_parallel_queue)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, prios[rnd(5)]);
    std::atomic<int> ran{ 0 };
    for (int i = 0; i < 50; ++i) {
        q.async([&] { ++ran; });
    }
    CHECK(eventually([&] { return ran == 50; }));
}
TEST(retry_of_workers_ending)
{
    // blocked workers raise the limit and lower it again
    auto pool = std::make_shared<naive::threadpool>();
    std::atomic<int> ran{ 0 };
    auto q = naive::create_parallel_queue("q", pool, P::DEFAULT);
    for (int i = 0; i < 10; ++i) {
        q.async([&] { q.apply(4, [&](size_t) { usleep(50); }); ++ran; });
    }
    CHECK(eventually([&] { return ran == 10; }));
}
