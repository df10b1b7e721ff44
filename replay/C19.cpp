#include "pools.h"
struct marker
{
    static std::atomic<int> alive;
    marker() { ++alive; }
    marker(const marker&) { ++alive; }
    ~marker() { --alive; }
};
std::atomic<int> marker::alive{ 0 };
static void check(const queue& q, naive::ithreadpool_ptr pool)
{
    const int base = marker::alive;
    std::atomic<int> ran{ 0 };
    const int n = 1 + rnd(4);
    for (int i = 0; i < n; ++i) {
        const int d = rnd(25);
        const auto start = clk::now();
        auto m = std::make_shared<marker>();
        q.after(ms(d), [&, m, d, start, pool] {
            CHECK(clk::now() - start >= ms(d));
            if (pool) {
                CHECK(naive::ithreadpool::current() == pool.get());
            }
            ++ran;
        });
    }
    CHECK(eventually([&] { return ran == n; }));
    CHECK(eventually([&] { return marker::alive == base; }));
    sleep_ms(5);
    CHECK(ran == n);
}
TEST(serial)
{
    auto pool = std::make_shared<threads_pool>(2);
    check(naive::create_serial_queue("q", pool), pool);
    pool->stop();
}
TEST(parallel)
{
    auto pool = std::make_shared<threads_pool>(2);
    check(naive::create_parallel_queue("q", pool, queue_priority::UTILITY, backend_type::naive), pool);
    pool->stop();
}
TEST(waitable)
{
    auto pool = std::make_shared<threads_pool>(2);
    check(waitable_queue("w", naive::create_serial_queue("q", pool)), nullptr);
    pool->stop();
}
TEST(queue_is_released)
{
    auto pool = std::make_shared<threads_pool>(2);
    std::atomic<int> ran{ 0 };
    const auto start = clk::now();
    const int d = rnd(12);
    {
        auto q = naive::create_serial_queue("q", pool);
        q.after(ms(d), [&, d, start] { CHECK(clk::now() - start >= ms(d)); ++ran; });
    }
    CHECK(eventually([&] { return ran == 1; }));
    sleep_ms(3);
    CHECK(ran == 1);
    pool->stop();
}
