#include "common.h"
using naive::semaphore;

TEST(every_permit_once)
{
    semaphore s(3);
    std::atomic<int> got{ 0 };
    constexpr int N = 300;
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; ++i) {
        ts.emplace_back([&, i] {
            for (;;) {
                bool ok = i % 2 ? s.wait_acquire(ms(300)) : (s.try_acquire() || s.spin_acquire(20) || s.wait_acquire(ms(300)));
                if (!ok) {
                    return;
                }
                ++got;
            }
        });
    }
    std::thread r([&] {
        int n = 0;
        while (n < N) {
            const int k = std::min(1 + static_cast<int>(rnd(3)), N - n);
            s.release(k);
            n += k;
            if (0 == rnd(8)) {
                usleep(300);
            }
        }
    });
    r.join();
    for (auto& t : ts) {
        t.join();
    }
    while (s.try_acquire()) {
        ++got;
    }
    CHECK(got == N + 3);
    CHECK(!s.try_acquire());
    CHECK(!s.spin_acquire(5));
}

TEST(blocked_acquire_is_woken)
{
    semaphore s(0);
    std::atomic<int> in{ 0 };
    std::vector<std::thread> ts;
    const int n = 1 + rnd(3);
    const auto start = clk::now();
    for (int i = 0; i < n; ++i) {
        ts.emplace_back([&] { CHECK(s.wait_acquire(ms(20000))); ++in; });
    }
    usleep(rnd(3000));
    if (rnd(2)) {
        s.release(n);
    } else {
        for (int i = 0; i < n; ++i) {
            s.release();
        }
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(in == n);
    CHECK(clk::now() - start < ms(15000));
}

TEST(timeout_is_not_early)
{
    semaphore s(0);
    const auto start = clk::now();
    CHECK(!s.wait_acquire(ms(30)));
    CHECK(clk::now() - start >= ms(30));
}
