#include "pools.h"

TEST(each_once_from_many_threads)
{
    constexpr int T = 3, N = 60;
    std::vector<std::atomic<int>> ran(T * N);
    for (auto& r : ran) {
        r = 0;
    }
    auto pool = std::make_shared<threads_pool>(3);
    {
        auto q = naive::create_serial_queue("q", pool);
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) {
            ts.emplace_back([&, t] {
                for (int i = 0; i < N; ++i) {
                    q.async([&, t, i] { ++ran[t * N + i]; });
                    if (0 == rnd(10)) {
                        usleep(100);
                    }
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
        if (rnd(2)) {
            CHECK(eventually([&] { for (auto& r : ran) { if (!r) return false; } return true; }));
        }
    } // released while operations may still be pending
    CHECK(eventually([&] { for (auto& r : ran) { if (!r) return false; } return true; }));
    pool->stop();
    for (auto& r : ran) {
        CHECK(r == 1);
    }
}

TEST(pending_ones_run_after_release)
{
    auto pool = std::make_shared<hand_pool>();
    const int n = rnd(5);
    std::atomic<int> ran{ 0 };
    {
        auto q = naive::create_serial_queue("q", pool);
        for (int i = 0; i < n; ++i) {
            q.async([&] { ++ran; });
        }
    }
    CHECK(eventually([&] { pool->run_all(); return ran == n; }));
    pool->run_all();
    CHECK(ran == n);
}

TEST(submitted_from_within)
{
    auto pool = std::make_shared<threads_pool>(2);
    std::atomic<int> ran{ 0 };
    {
        auto q = naive::create_serial_queue("q", pool);
        std::function<void(int)> f = [&](int n) { ++ran; if (n) { q.async([&f, n] { f(n - 1); }); } };
        q.async([&] { f(20); });
        CHECK(eventually([&] { return ran == 21; }));
        // also when the last handle goes while the operation that submits is running
    }
    pool->stop();
    CHECK(ran == 21);
}

TEST(released_by_an_operation)
{
    auto pool = std::make_shared<threads_pool>(2);
    std::atomic<int> ran{ 0 };
    auto q = std::make_shared<queue>(naive::create_serial_queue("q", pool));
    q->async([&] { q->async([&] { ++ran; }); q.reset(); ++ran; });
    CHECK(eventually([&] { return ran == 2; }));
    pool->stop();
}

