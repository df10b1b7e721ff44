#include "pools.h"
#include <stdexcept>
struct payload
{
    int v{ 0 }, w{ 0 };
    payload() = default;
    explicit payload(int x) : v(x), w(x) {}
    payload(const payload& o) { *this = o; }
    payload& operator=(const payload& o)
    {
        v = o.v;
        if (0 == rnd(3)) {
            usleep(rnd(300));
        }
        w = o.w;
        return *this;
    }
};
struct no_default
{
    int v;
    explicit no_default(int x) : v(x) {}
};
TEST(first_raise_counts)
{
    signal<void(payload, int)> s;
    auto b = std::make_shared<signal_barrier<void(payload, int)>>(s);
    std::vector<std::thread> ts;
    for (int i = 1; i <= 3; ++i) {
        ts.emplace_back([&, i] { usleep(rnd(500)); s(payload(i), i); });
    }
    std::tuple<payload, int> v;
    for (;;) {
        try {
            v = b->values();
            break;
        } catch (const std::runtime_error&) {
        }
    }
    CHECK(b->wait(ms(0)));
    const int k = std::get<1>(v);
    CHECK(k >= 1 && k <= 3 && std::get<0>(v).v == k && std::get<0>(v).w == k);
    CHECK(b->wait());
    for (auto& t : ts) {
        t.join();
    }
    s(payload(9), 9);
    usleep(1000);
    CHECK(b->value<1>() == k);
    CHECK(b->value<0>().v == k && b->value<0>().w == k);
    b.reset();
    s(payload(4), 4);
}
TEST(wait_gives_up_after_the_timeout)
{
    signal<void(int)> s;
    s(1); // before the barrier
    signal_barrier<void(int)> b(s);
    const auto start = clk::now();
    CHECK(!b.wait(ms(10)));
    CHECK(clk::now() - start >= ms(10));
    bool thrown = false;
    try {
        b.value();
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    CHECK(thrown);
    s(2);
    CHECK(b.wait(ms(20000)));
    CHECK(b.value() == 2);
    CHECK(b.value() == 2);
}
TEST(without_default_constructor)
{
    signal<void(no_default)> s;
    signal_barrier<void(no_default)> b(s);
    std::thread t([&] { s(no_default(5)); s(no_default(6)); s(no_default(7)); });
    CHECK(b.wait());
    const int k = b.value().v;
    CHECK(k >= 5 && k <= 7);
    t.join();
    usleep(1000);
    CHECK(b.value().v == k);
}
TEST(raised_while_constructed_and_destroyed)
{
    signal<void(int)> s;
    std::atomic<bool> end{ false };
    std::vector<std::thread> ts;
    for (int i = 1; i < 3; ++i) {
        ts.emplace_back([&, i] { while (!end) { s(i); usleep(rnd(200)); } });
    }
    for (int i = 0; i < 10; ++i) {
        signal_barrier<void(int)> b(s);
        if (rnd(2)) {
            CHECK(b.wait());
            CHECK(b.value() >= 1);
        }
    }
    end = true;
    for (auto& t : ts) {
        t.join();
    }
}
TEST(several_waiters)
{
    signal<void()> s;
    signal_barrier<void()> b(s);
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; ++i) {
        ts.emplace_back([&] { CHECK(b.wait()); });
    }
    usleep(rnd(1000));
    s();
    for (auto& t : ts) {
        t.join();
    }
    CHECK(b.wait());
}
