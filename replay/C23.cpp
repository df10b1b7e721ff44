#include "pools.h"
TEST(current_pool)
{
    auto pool = std::make_shared<hand_pool>(), inner = std::make_shared<hand_pool>();
    CHECK(!naive::ithreadpool::current());
    auto op = make_operation([&] {
        CHECK(naive::ithreadpool::current() == pool.get());
        inner->execute(make_operation([&] { CHECK(naive::ithreadpool::current() == inner.get()); }), queue_priority::DEFAULT);
        inner->run_all();
        CHECK(naive::ithreadpool::current() == pool.get());
    });
    pool->execute(op, queue_priority::DEFAULT);
    pool->run_all();
    CHECK(!naive::ithreadpool::current());
    bool thrown = false;
    pool->execute(make_operation([&] { throw std::runtime_error("expected"); }), queue_priority::DEFAULT);
    try {
        pool->run_all();
    } catch (const std::exception&) {
        thrown = true;
    }
    CHECK(thrown);
    CHECK(!naive::ithreadpool::current());
}
TEST(blocked_is_undone)
{
    auto pool = std::make_shared<hand_pool>();
    auto par = std::make_shared<threads_pool>(2);
    auto q = naive::create_parallel_queue("q", par, queue_priority::DEFAULT, backend_type::naive);
    lightweight_barrier done;
    done.complete();
    lightweight_barrier late;
    group g(backend_for_type(backend_type::naive).create_group());
    std::thread t([&] { usleep(500 + rnd(1500)); late.complete(); });
    std::atomic<int> ran{ 0 };
    pool->execute(make_operation([&] {
        CHECK(pool->blocked == pool->unblocked);
        CHECK(late.wait());
        CHECK(pool->blocked == pool->unblocked);
        std::atomic<bool> go{ false };
        const int before = pool->blocked;
        g.async([&] { while (!go) usleep(100); }, q);
        CHECK(!g.wait(ms(3)));
        CHECK(pool->blocked == pool->unblocked && pool->blocked > before);
        go = true;
        CHECK(g.wait());
        CHECK(pool->blocked == pool->unblocked);
        for (int i = 0; i < 3; ++i) {
            g.async([&] { usleep(300); ++ran; }, q);
        }
        g.wait();
        CHECK(pool->blocked == pool->unblocked);
        q.apply(3, [&](size_t) { ++ran; });
        CHECK(pool->blocked == pool->unblocked);
    }), queue_priority::DEFAULT);
    pool->run_all();
    t.join();
    CHECK(ran == 6);
    par->stop();
    CHECK(par->blocked == par->unblocked);
}
TEST(replacement_workers)
{
    // more operations that wait than the pool has workers
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_parallel_queue("q", pool, queue_priority::DEFAULT);
    const int n = 2 * std::thread::hardware_concurrency() + 3;
    if (n > 70) {
        return;
    }
    std::atomic<int> in{ 0 }, out{ 0 };
    group g(backend_for_type(backend_type::naive).create_group());
    std::atomic<bool> go{ false };
    auto other = std::make_shared<threads_pool>(1);
    g.async([&] { while (!go) usleep(200); }, naive::create_parallel_queue("o", other, queue_priority::DEFAULT, backend_type::naive));
    for (int i = 0; i < n; ++i) {
        q.async([&] { ++in; CHECK(g.wait()); ++out; });
        const int want = i + 1;
        CHECK(eventually([&] { return in == want; }));
    }
    std::atomic<bool> ran{ false };
    q.async([&] { ran = true; });
    CHECK(eventually([&] { return ran.load(); }));
    go = true;
    CHECK(eventually([&] { return out == n; }));
    other->stop();
}
