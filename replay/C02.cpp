#include "pools.h"

static void check(const queue& q, int n, std::function<void()> drive)
{
    auto active = std::make_shared<std::atomic<int>>(0);
    auto order = std::make_shared<std::vector<int>>(); // unprotected on purpose
    std::atomic<int> done{ 0 };
    for (int i = 0; i < n; ++i) {
        q.async([=, &done] {
            CHECK(1 == ++*active);
            order->push_back(i);
            if (0 == rnd(6)) {
                usleep(rnd(300));
            }
            --*active;
            ++done;
        });
        if (0 == rnd(6)) {
            usleep(rnd(300));
        }
    }
    CHECK(eventually([&] { drive(); return done == n; }));
    CHECK(order->size() == static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) {
        CHECK((*order)[i] == i);
    }
}

TEST(in_order_and_alone)
{
    auto pool = std::make_shared<threads_pool>(4);
    auto q = naive::create_serial_queue("q", pool);
    check(q, 150, [] {});
    pool->stop();
}
TEST(in_order_and_alone_real_pool)
{
    auto pool = std::make_shared<naive::threadpool>();
    auto q = naive::create_serial_queue("q", pool);
    check(q, 100, [] {});
}
TEST(each_submitter_keeps_its_order)
{
    auto pool = std::make_shared<threads_pool>(3);
    auto q = naive::create_serial_queue("q", pool);
    std::atomic<int> active{ 0 }, done{ 0 };
    std::vector<int> last(3, -1);
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t) {
        ts.emplace_back([&, t] {
            for (int i = 0; i < 50; ++i) {
                q.async([&, t, i] { CHECK(1 == ++active); CHECK(last[t] == i - 1); last[t] = i; --active; ++done; });
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(eventually([&] { return done == 150; }));
    pool->stop();
}
