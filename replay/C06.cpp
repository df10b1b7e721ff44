#include "common.h"

TEST(wait_and_complete)
{
    lightweight_barrier b;
    std::atomic<bool> signalled{ false };
    std::vector<std::thread> ts;
    std::atomic<int> released{ 0 };
    const int n = 1 + rnd(5);
    for (int i = 0; i < n; ++i) {
        ts.emplace_back([&, i] {
            if (rnd(2)) {
                usleep(rnd(1500));
            }
            const bool r = i % 2 ? b.wait() : b.wait(ms(30000));
            CHECK(r);
            CHECK(signalled);
            CHECK(b.was_completed());
            ++released;
        });
    }
    usleep(rnd(1500));
    signalled = true;
    b.complete();
    CHECK(b.was_completed());
    for (auto& t : ts) {
        t.join();
    }
    CHECK(released == n);
    CHECK(b.wait(ms(0)));
    CHECK(b.wait());
    b.complete();
    CHECK(b.was_completed());
    CHECK(b.wait(ms(1)));
}
TEST(gives_up_only_after_the_timeout)
{
    lightweight_barrier b;
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; ++i) {
        ts.emplace_back([&, i] {
            const int d = 5 + 8 * i;
            const auto start = clk::now();
            CHECK(!b.wait(ms(d)));
            CHECK(clk::now() - start >= ms(d));
            CHECK(clk::now() - start < ms(20000));
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(!b.was_completed());
    CHECK(!b.wait(ms(0)));
    b.complete();
    CHECK(b.wait(ms(0)));
}
TEST(timeouts_next_to_completion)
{
    // some waiters give up while others stay, then the barrier is completed
    lightweight_barrier b;
    std::atomic<bool> signalled{ false };
    std::vector<std::thread> ts;
    for (int i = 0; i < 5; ++i) {
        ts.emplace_back([&, i] {
            const int d = i % 2 ? 1 + static_cast<int>(rnd(3)) : 15000;
            if (0 == i % 2) {
                usleep(rnd(3000));
            }
            const auto start = clk::now();
            const bool r = b.wait(ms(d));
            const auto took = clk::now() - start;
            CHECK(!r || signalled);
            CHECK(r || took >= ms(d));
            CHECK(r || i % 2); // completed within a few milliseconds
        });
    }
    usleep(rnd(9000));
    signalled = true;
    b.complete();
    for (auto& t : ts) {
        t.join();
    }
}
TEST(completed_by_several)
{
    barrier_operation b;
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; ++i) {
        ts.emplace_back([&] { b(); CHECK(b.has_passed()); });
        ts.emplace_back([&] { CHECK(b.wait()); CHECK(b.has_passed()); });
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(b.wait(ms(0)));
}
TEST(barrier_may_go_once_released)
{
    for (int i = 0; i < 20; ++i) {
        auto b = std::make_shared<barrier_operation>();
        std::thread t([b] { (*b)(); });
        CHECK(b->wait());
        b.reset();
        t.join();
    }
}
TEST(joins_a_wait_that_gives_up)
{
    lightweight_barrier b;
    std::thread s([&] { CHECK(!b.wait(ms(6))); });
    std::vector<std::thread> ts;
    for (int i = 0; i < 2; ++i) {
        ts.emplace_back([&] { usleep(rnd(4000)); CHECK(b.wait(ms(15000))); });
    }
    s.join();
    usleep(1000 + rnd(2000));
    b.complete();
    for (auto& t : ts) {
        t.join();
    }
}
TEST(long_wait)
{
    if (g_round) {
        return;
    }
    lightweight_barrier b;
    std::atomic<bool> signalled{ false };
    std::thread t([&] { sleep_ms(4500); signalled = true; b.complete(); });
    std::thread w([&] { CHECK(b.wait(ms(60000))); CHECK(signalled); });
    CHECK(b.wait());
    CHECK(signalled);
    t.join();
    w.join();
}
