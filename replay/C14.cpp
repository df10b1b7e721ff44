#include "pools.h"
TEST(in_order_once_alone)
{
    auto pool = std::make_shared<threads_pool>(1 + rnd(3));
    auto inner = naive::create_parallel_queue("i", pool, queue_priority::DEFAULT, backend_type::naive);
    waitable_queue q("w", inner);
    std::atomic<int> active{ 0 }, ran{ 0 };
    std::vector<int> order;
    std::vector<std::thread> ts;
    const int n = 40;
    for (int i = 0; i < n; ++i) {
        q.async([&, i] { CHECK(1 == ++active); order.push_back(i); if (0 == rnd(8)) usleep(rnd(300)); --active; ++ran; });
        if (0 == rnd(10)) {
            q.wait_for_one();
        }
        if (0 == rnd(10)) {
            ts.emplace_back([&] { if (rnd(2)) q.wait_for_all(); else q.wait_for_one(); });
        }
        if (0 == rnd(15)) {
            q.wait_for_all();
            CHECK(ran == i + 1);
        }
    }
    q.wait_for_all();
    CHECK(ran == n);
    for (auto& t : ts) {
        t.join();
    }
    for (int i = 0; i < n; ++i) {
        CHECK(order[i] == i);
    }
    q.wait_for_all();
    q.wait_for_one();
    pool->stop();
    CHECK(ran == n);
}
TEST(waiters_serve_a_starving_queue)
{
    auto pool = std::make_shared<hand_pool>(); // never runs anything
    auto inner = naive::create_serial_queue("i", pool);
    waitable_queue q("w", inner);
    std::atomic<int> ran{ 0 };
    const int n = 1 + rnd(5);
    for (int i = 0; i < n; ++i) {
        q.async([&] { ++ran; });
    }
    q.wait_for_one();
    CHECK(ran >= 1);
    q.wait_for_all();
    CHECK(ran == n);
    pool->run_all();
    CHECK(ran == n);
    std::atomic<int> sum{ 0 };
    q.apply(4, [&](size_t i) { CHECK(static_cast<int>(i) == sum); ++sum; });
    CHECK(sum == 4);
    q.apply(0, [&](size_t) { CHECK(false); });
    pool->run_all();
}
TEST(two_waiters_and_a_busy_operation)
{
    auto pool = std::make_shared<threads_pool>(2);
    auto inner = naive::create_parallel_queue("i", pool, queue_priority::DEFAULT, backend_type::naive);
    waitable_queue q("w", inner);
    std::atomic<bool> in{ false }, go{ false };
    std::atomic<int> ran{ 0 }, out{ 0 }, active{ 0 };
    q.async([&] { CHECK(1 == ++active); in = true; while (!go) usleep(100); --active; ++ran; });
    CHECK(eventually([&] { return in.load(); }));
    for (int i = 0; i < 4; ++i) {
        q.async([&] { CHECK(1 == ++active); usleep(300); --active; ++ran; });
    }
    std::thread a([&] { q.wait_for_all(); CHECK(ran == 5); ++out; });
    std::thread b([&] { q.wait_for_all(); CHECK(ran == 5); ++out; });
    usleep(rnd(3000));
    CHECK(0 == out);
    go = true;
    a.join();
    b.join();
    CHECK(2 == out);
    pool->stop();
}
TEST(wait_for_one_counts)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto inner = naive::create_serial_queue("i", pool);
    waitable_queue q("w", inner);
    q.wait_for_one(); // nothing to wait for
    std::atomic<int> ran{ 0 };
    q.async([&] { usleep(rnd(2000)); ++ran; });
    q.async([&] { usleep(rnd(2000)); ++ran; });
    q.wait_for_one();
    CHECK(ran >= 1);
    q.wait_for_one();
    CHECK(ran == 2);
    q.wait_for_one();
}
TEST(submitted_from_within_and_released)
{
    auto pool = std::make_shared<threads_pool>(2);
    std::atomic<int> ran{ 0 };
    {
        auto inner = naive::create_serial_queue("i", pool);
        waitable_queue q("w", inner);
        struct bomb
        {
            std::atomic<int>* ran;
            waitable_queue q;
            ~bomb()
            {
                q.async([r = ran] { ++*r; }); // no lock is held while an operation is released
            }
        };
        auto b = std::make_shared<bomb>(bomb{ &ran, q });
        ran = 0;
        q.async([b] {});
        b.reset();
        q.async([&] { ++ran; });
        q.wait_for_all();
        CHECK(eventually([&] { q.wait_for_all(); return ran >= 2; }));
    }
    pool->stop();
}
TEST(long_operation)
{
    if (g_round) {
        return;
    }
    auto pool = std::make_shared<naive::threadpool>();
    waitable_queue q("w", naive::create_serial_queue("i", pool));
    std::atomic<int> ran{ 0 };
    q.async([&] { sleep_ms(5000); ++ran; });
    q.async([&] { ++ran; });
    std::thread t([&] { q.wait_for_all(); CHECK(ran == 2); });
    q.wait_for_one();
    CHECK(ran >= 1);
    q.wait_for_all();
    CHECK(ran == 2);
    t.join();
}
