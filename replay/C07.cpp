#include "pools.h"

static void check(const queue& q, int n)
{
    std::vector<std::atomic<int>> ran(n + 1);
    for (auto& r : ran) {
        r = 0;
    }
    std::atomic<int> active{ 0 }, bad{ 0 };
    q.apply(n, [&](size_t i) {
        ++active;
        if (i >= static_cast<size_t>(n)) {
            ++bad;
        } else {
            ++ran[i];
        }
        if (0 == rnd(10)) {
            usleep(rnd(500));
        }
        --active;
    });
    CHECK(0 == active);
    CHECK(0 == bad);
    for (int i = 0; i < n; ++i) {
        CHECK(1 == ran[i]);
    }
    CHECK(0 == ran[n]);
}
static const int sizes[] = { 0, 1, 2, 3, 7, 16, 17, 64, 100 };
TEST(on_a_parallel_queue)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    for (int n : sizes) {
        check(q, n);
    }
}
TEST(on_a_serial_queue)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_serial_queue("q", pool);
    for (int n : { 0, 1, 2, 9 }) {
        check(q, n);
    }
}
TEST(from_within_the_pool)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    std::atomic<int> done{ 0 };
    const int n = 2 + rnd(8);
    for (int i = 0; i < n; ++i) {
        q.async([&] { check(q, 10); ++done; });
    }
    CHECK(eventually([&] { return done == n; }));
}
TEST(nested)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    std::atomic<int> ran{ 0 };
    q.apply(6, [&](size_t) { q.apply(5, [&](size_t) { ++ran; }); });
    CHECK(ran == 30);
}
TEST(on_a_few_threads)
{
    auto pool = std::make_shared<threads_pool>(1 + rnd(3));
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT, backend_type::naive);
    for (int n : { 0, 1, 2, 5, 30 }) {
        check(q, n);
    }
    pool->stop();
}
TEST(slow_iterations)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    std::atomic<int> done{ 0 };
    q.apply(3, [&](size_t i) { sleep_ms(i == 2 ? 120 : 1); ++done; });
    CHECK(done == 3);
}
TEST(long_iteration)
{
    if (g_round) {
        return;
    }
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    std::atomic<int> done{ 0 };
    q.apply(3, [&](size_t i) { sleep_ms(i == 1 ? 6000 : 1); ++done; });
    CHECK(done == 3);
}
