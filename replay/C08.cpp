#include "pools.h"

TEST(wait_for_all_of_them)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    auto s = naive::create_serial_queue("s", pool);
    group g(backend_for_type(backend_type::naive).create_group());
    std::atomic<int> ran{ 0 };
    const int n = rnd(12);
    for (int i = 0; i < n; ++i) {
        g.async([&] { usleep(rnd(800)); ++ran; }, rnd(2) ? q : s);
    }
    if (rnd(2)) {
        CHECK(g.wait());
    } else {
        CHECK(g.wait(ms(30000)));
    }
    CHECK(ran == n);
    CHECK(g.wait(ms(0)) || n); // nothing pending: returns at once
    CHECK(g.wait(ms(20000)));
}
TEST(not_released_early)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    group g(backend_for_type(backend_type::naive).create_group());
    std::atomic<bool> go{ false };
    std::atomic<int> ran{ 0 }, note{ 0 };
    g.async([&] { ++ran; }, q);
    g.async([&] { while (!go) usleep(100); ++ran; }, q);
    g.async([&] { ++ran; }, q);
    g.notify([&] { CHECK(ran == 3); ++note; }, q);
    const auto start = clk::now();
    CHECK(!g.wait(ms(10)));
    CHECK(clk::now() - start >= ms(10));
    usleep(2000);
    CHECK(0 == note);
    go = true;
    CHECK(g.wait());
    CHECK(ran == 3);
    CHECK(eventually([&] { return note == 1; }));
    usleep(1000);
    CHECK(note == 1);
}
TEST(notifications_once_on_their_queue)
{
    auto work = std::make_shared<threads_pool>(2);
    auto notes = std::make_shared<hand_pool>();
    auto q = naive::create_parallel_queue("q", work, queue_priority::DEFAULT, backend_type::naive);
    auto nq = naive::create_parallel_queue("n", notes, queue_priority::DEFAULT, backend_type::naive);
    group g(backend_for_type(backend_type::naive).create_group());
    std::atomic<int> ran{ 0 }, note{ 0 };
    const int n = rnd(6), k = 1 + rnd(4);
    for (int i = 0; i < n; ++i) {
        g.async([&] { usleep(rnd(300)); ++ran; }, q);
    }
    std::vector<std::thread> ts;
    for (int i = 0; i < k; ++i) {
        ts.emplace_back([&] { g.notify([&] { CHECK(ran == n); CHECK(naive::ithreadpool::current() == notes.get()); ++note; }, nq); });
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(eventually([&] { notes->run_all(); return note == k; }));
    usleep(1000);
    notes->run_all();
    CHECK(note == k);
    CHECK(g.wait(ms(20000)));
    // and the group is used again
    std::atomic<int> again{ 0 }, renote{ 0 };
    g.async([&] { usleep(200); ++again; }, q);
    g.notify([&] { CHECK(again == 1); ++renote; }, nq);
    CHECK(g.wait());
    CHECK(again == 1);
    CHECK(eventually([&] { notes->run_all(); return renote == 1; }));
    CHECK(note == k);
    work->stop();
}
TEST(notification_on_a_group_with_nothing_pending)
{
    auto pool = std::make_shared<hand_pool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT, backend_type::naive);
    group g(backend_for_type(backend_type::naive).create_group());
    std::atomic<int> note{ 0 };
    g.notify([&] { ++note; }, q);
    CHECK(0 == note); // handed to the queue, not run by the caller
    CHECK(eventually([&] { pool->run_all(); return note == 1; }));
    pool->run_all();
    CHECK(note == 1);
}
TEST(long_operation)
{
    if (g_round) {
        return;
    }
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    group g(backend_for_type(backend_type::naive).create_group());
    std::atomic<int> ran{ 0 }, note{ 0 };
    g.async([&] { sleep_ms(6000); ++ran; }, q);
    g.notify([&] { CHECK(ran == 1); ++note; }, q);
    std::thread w([&] { CHECK(g.wait(ms(60000))); CHECK(ran == 1); });
    CHECK(g.wait());
    CHECK(ran == 1);
    w.join();
    CHECK(eventually([&] { return note == 1; }));
}
