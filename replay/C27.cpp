#include "pools.h"
#include "naive/naive_consumable.h"
TEST(destroyed_at_any_moment)
{
    auto in = std::make_shared<std::atomic<int>>(0);
    for (int i = 0; i < 10; ++i) {
        auto pool = std::make_shared<naive::threadpool>();
        const int n = rnd(8);
        for (int k = 0; k < n; ++k) {
            pool->execute(make_operation([in] { ++*in; if (rnd(2)) usleep(rnd(600)); --*in; }), queue_priority::DEFAULT);
            if (rnd(2)) {
                usleep(rnd(300));
            }
        }
        if (rnd(2)) {
            usleep(rnd(3000));
        }
        const auto start = clk::now();
        pool.reset();
        CHECK(clk::now() - start < ms(15000));
    }
    CHECK(eventually([&] { return *in == 0; }));
}
static int threads()
{
    int n = 0;
    if (FILE* f = std::fopen("/proc/self/status", "r")) {
        char l[256];
        while (std::fgets(l, sizeof l, f)) {
            if (1 == std::sscanf(l, "Threads: %d", &n)) {
                break;
            }
        }
        std::fclose(f);
    }
    return n;
}
TEST(workers_stop)
{
    static int base = 0;
    if (!base) {
        auto pool = std::make_shared<naive::threadpool>();
        std::atomic<bool> ran{ false };
        pool->execute(make_operation([&] { ran = true; }), queue_priority::DEFAULT);
        CHECK(eventually([&] { return ran.load(); }));
        pool.reset();
        sleep_ms(300);
        base = threads(); // the manager thread exists from now on
    }
    auto pool = std::make_shared<naive::threadpool>();
    std::atomic<int> ran{ 0 };
    const int n = rnd(5);
    for (int k = 0; k < n; ++k) {
        pool->execute(make_operation([&] { usleep(200); ++ran; }), queue_priority::DEFAULT);
    }
    CHECK(eventually([&] { return ran == n; }));
    if (rnd(2)) {
        usleep(rnd(4000)); // idle by now
    }
    pool.reset();
    CHECK(eventually([&] { return threads() <= base; }, 25000));
}
TEST(destroyed_while_a_worker_is_busy)
{
    auto in = std::make_shared<std::atomic<bool>>(false);
    auto go = std::make_shared<std::atomic<bool>>(false);
    auto out = std::make_shared<std::atomic<bool>>(false);
    auto pool = std::make_shared<naive::threadpool>();
    pool->execute(make_operation([=] { *in = true; while (!*go) usleep(100); *out = true; }), queue_priority::DEFAULT);
    CHECK(eventually([&] { return in->load(); }));
    pool.reset();
    *go = true;
    CHECK(eventually([&] { return out->load(); }));
}
TEST(destroyed_while_an_operation_blocks)
{
    // blocking tells the pool, also once everybody else has released it
    auto c = std::make_shared<naive::consumable>(1);
    auto in = std::make_shared<std::atomic<bool>>(false);
    auto go = std::make_shared<std::atomic<bool>>(false);
    auto out = std::make_shared<std::atomic<bool>>(false);
    const bool before = rnd(2);
    auto pool = std::make_shared<naive::threadpool>();
    pool->execute(make_operation([=] { *in = true; while (!*go) usleep(100); c->wait_for_consumed(ms(-1)); *out = true; }), queue_priority::DEFAULT);
    CHECK(eventually([&] { return in->load(); }));
    if (before) {
        *go = true;
        usleep(rnd(2000));
    }
    pool.reset();
    std::vector<std::unique_ptr<char[]>> reuse;
    for (int i = 0; i < 64; ++i) {
        reuse.emplace_back(new char[24 + 8 * (i % 4)]);
        std::memset(reuse.back().get(), 0x5a, 24);
    }
    *go = true;
    usleep(rnd(3000));
    c->consume_resource();
    CHECK(eventually([&] { return out->load(); }));
}
