#include "pools.h"
TEST(once_in_order)
{
    naive::manual_thread t("t", queue_priority::DEFAULT);
    std::vector<int> order;
    std::thread::id runner;
    std::atomic<int> returned{ 0 };
    const int n = rnd(60);
    const bool first = rnd(2);
    auto submit = [&](int a, int b) {
        for (int i = a; i < b; ++i) {
            t.execute(make_operation([&, i] { CHECK(runner == std::this_thread::get_id()); order.push_back(i); }));
            if (0 == rnd(8)) {
                usleep(rnd(200));
            }
        }
    };
    if (first) {
        submit(0, n / 2);
    }
    std::thread r([&] { runner = std::this_thread::get_id(); t.run(); ++returned; });
    submit(first ? n / 2 : 0, n);
    usleep(rnd(500));
    CHECK(0 == returned);
    t.cancel();
    r.join();
    CHECK(order.size() == static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) {
        CHECK(order[i] == i);
    }
}
TEST(cancelled_early)
{
    naive::manual_thread t("t", queue_priority::DEFAULT);
    std::atomic<int> ran{ 0 };
    const int n = rnd(4);
    for (int i = 0; i < n; ++i) {
        t.execute(make_operation([&] { ++ran; }));
    }
    std::thread c;
    if (rnd(2)) {
        t.cancel();
    } else {
        c = std::thread([&] { t.cancel(); });
    }
    t.run();
    CHECK(ran == n);
    if (c.joinable()) {
        c.join();
    }
}
TEST(cancelled_from_within)
{
    naive::manual_thread t("t", queue_priority::DEFAULT);
    std::atomic<int> ran{ 0 };
    t.execute(make_operation([&] { ++ran; t.execute(make_operation([&] { ++ran; })); t.cancel(); }));
    t.execute(make_operation([&] { ++ran; }));
    t.run();
    CHECK(ran == 3);
}
TEST(own_thread)
{
    std::atomic<int> ran{ 0 };
    const int n = rnd(20);
    {
        naive::thread t("t", queue_priority::UTILITY);
        for (int i = 0; i < n; ++i) {
            t.execute(make_operation([&] { ++ran; }));
        }
    }
    CHECK(ran == n);
}
TEST(does_not_return_on_its_own)
{
    naive::manual_thread t("t", queue_priority::DEFAULT);
    std::atomic<bool> out{ false };
    std::atomic<int> ran{ 0 };
    std::thread r([&] { t.run(); out = true; });
    for (int i = 1; i < 5; ++i) {
        usleep(rnd(1000));
        CHECK(!out);
        t.execute(make_operation([&] { ++ran; }));
        CHECK(eventually([&] { return ran == i; }));
    }
    usleep(1000);
    CHECK(!out);
    t.cancel();
    r.join();
}
