#include "pools.h"
static itimer_impl_ptr make(const iqueue_impl_ptr& q)
{
    return backend_for_type(backend_type::naive).create_timer(q);
}
static iqueue_impl_ptr serial()
{
    return backend_for_type(backend_type::naive).create_serial_queue("q", queue_priority::DEFAULT);
}
TEST(cancel_excludes_the_handler)
{
    auto t = make(serial());
    std::atomic<int> active{ 0 }, ran{ 0 };
    std::atomic<bool> cancelled{ false };
    t->handler(make_operation([&] { CHECK(!cancelled); ++active; ++ran; usleep(rnd(3000)); CHECK(!cancelled); --active; }));
    t->interval(ms(1 + rnd(3)));
    t->resume(ms(0));
    CHECK(eventually([&] { return ran >= 1; }));
    usleep(rnd(4000));
    std::thread other([&] { t->cancel(); CHECK(0 == active); });
    t->cancel();
    cancelled = true;
    CHECK(0 == active);
    other.join();
    const int n = ran;
    sleep_ms(15);
    CHECK(n == ran);
}
TEST(cancelled_by_its_handler)
{
    auto t = make(serial());
    std::atomic<int> ran{ 0 };
    std::atomic<bool> end{ false };
    t->handler(make_operation([&] { ++ran; t->cancel(); end = true; }));
    t->interval(ms(1));
    t->resume(ms(0));
    CHECK(eventually([&] { return end.load(); }));
    sleep_ms(15);
    CHECK(1 == ran);
}
TEST(handler_uses_the_timer_while_cancelled)
{
    auto t = make(serial());
    std::atomic<bool> in{ false }, go{ false };
    t->handler(make_operation([&] {
        in = true;
        while (!go) {
            usleep(100);
        }
        t->interval(ms(7));
        t->latency(timer_precision::PRECISE);
        t->suspend();
    }));
    t->interval(ms(1));
    t->resume(ms(0));
    CHECK(eventually([&] { return in.load(); }));
    std::thread c([&] { t->cancel(); });
    usleep(3000);
    go = true;
    c.join();
}
TEST(suspend_stops)
{
    auto pool = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("q", pool);
    auto t = make(serial());
    std::atomic<int> ran{ 0 };
    t->handler(make_operation([&] { ++ran; }));
    t->interval(ms(2));
    t->resume(ms(0));
    CHECK(eventually([&] { return ran >= 2; }));
    t->suspend();
    const int n = ran;
    sleep_ms(25);
    CHECK(ran <= n + 1);
    // suspended once more than resumed
    t->suspend();
    t->resume(ms(0));
    const int k = ran;
    sleep_ms(20);
    CHECK(ran == k);
    t->resume(ms(0));
    CHECK(eventually([&] { return ran >= k + 2; }));
    t->cancel();
}
TEST(resumed_again_fires_once_per_period)
{
    auto t = make(serial());
    std::mutex m;
    std::vector<clk::time_point> at;
    t->handler(make_operation([&] { std::lock_guard<std::mutex> l(m); at.push_back(clk::now()); }));
    t->interval(ms(20));
    const auto start = clk::now();
    t->resume(ms(0));
    for (unsigned i = rnd(4); i > 0; --i) {
        usleep(rnd(3000));
        t->suspend();
        usleep(rnd(3000));
        t->resume(ms(0));
    }
    sleep_ms(120);
    t->suspend();
    t->cancel();
    std::lock_guard<std::mutex> l(m);
    // at most one per period; each of at most three restarts may fire at once
    CHECK(at.size() <= static_cast<size_t>(6 + (clk::now() - start) / ms(20)));
}
TEST(released_after_cancel)
{
    std::atomic<int> ran{ 0 };
    {
        auto t = make(serial());
        t->handler(make_operation([&] { ++ran; }));
        t->interval(ms(1));
        t->resume(ms(0));
        CHECK(eventually([&] { return ran >= 1; }));
        usleep(rnd(2000));
        t->cancel();
    }
    const int n = ran;
    sleep_ms(10);
    CHECK(ran == n);
}
TEST(long_handler)
{
    if (g_round) {
        return;
    }
    auto n = make(serial());
    std::atomic<bool> in{ false }, left{ false };
    n->handler(make_operation([&] { in = true; sleep_ms(5000); left = true; }));
    n->interval(ms(5));
    n->resume(ms(0));
    CHECK(eventually([&] { return in.load(); }));
    n->cancel();
    CHECK(left);
}
