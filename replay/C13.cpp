#include "socks.h"
TEST(cancel_excludes_the_handler)
{
    socks s;
    auto n = make(serial(), s.s[1], notifier_type::WRITE);
    std::atomic<int> active{ 0 }, ran{ 0 };
    std::atomic<bool> cancelled{ false };
    n->handler(sop([&](socket_t, notifier_type) { CHECK(!cancelled); ++active; ++ran; usleep(rnd(2000)); CHECK(!cancelled); --active; }));
    n->resume();
    CHECK(eventually([&] { return ran >= 1; }));
    usleep(rnd(3000));
    std::thread other([&] { n->cancel(); CHECK(0 == active); });
    n->cancel();
    cancelled = true;
    CHECK(0 == active);
    other.join();
    n->resume();
    n->resume();
    sleep_ms(15);
}
TEST(cancelled_by_its_handler)
{
    socks s;
    auto n = make(serial(), s.s[1], notifier_type::WRITE);
    std::atomic<int> ran{ 0 };
    std::atomic<bool> end{ false };
    n->handler(sop([&](socket_t, notifier_type) { ++ran; n->cancel(); end = true; }));
    n->resume();
    CHECK(eventually([&] { return end.load(); }));
    n->resume();
    sleep_ms(15);
    CHECK(1 == ran);
}
TEST(handler_uses_the_notifier_while_cancelled)
{
    socks s;
    auto n = make(serial(), s.s[1], notifier_type::WRITE);
    std::atomic<bool> in{ false }, go{ false };
    n->handler(sop([&](socket_t, notifier_type) {
        in = true;
        while (!go) {
            usleep(100);
        }
        n->suspend();
        n->resume();
        n->suspend();
    }));
    n->resume();
    CHECK(eventually([&] { return in.load(); }));
    std::thread c([&] { n->cancel(); });
    usleep(3000);
    go = true;
    c.join();
}
TEST(suspend_and_resume)
{
    socks s;
    auto n = make(serial(), s.s[0], notifier_type::READ);
    std::atomic<int> ran{ 0 };
    n->handler(sop([&](socket_t, notifier_type) { s.drain(); ++ran; }));
    n->resume();
    n->resume();
    n->suspend(); // still resumed once
    s.put();
    CHECK(eventually([&] { return ran == 1; }));
    s.put();
    CHECK(eventually([&] { return ran == 2; }));
    n->suspend();
    sleep_ms(30);
    s.put(5);
    sleep_ms(30);
    CHECK(ran <= 3);
    n->resume();
    CHECK(eventually([&] { return ran == 7; }));
    for (int i = rnd(4); i > 0; --i) {
        n->suspend();
        usleep(rnd(1000));
        n->resume();
    }
    s.put();
    CHECK(eventually([&] { return ran == 8; }));
    n->cancel();
    s.put();
    sleep_ms(20);
    CHECK(ran == 8);
}
TEST(idle_helper_ends)
{
    // nothing ever becomes readable: cancel, suspend and release do not wait for that
    for (int i = 0; i < 2; ++i) {
        socks s;
        auto n = make(serial(), s.s[0], notifier_type::READ);
        n->handler(sop([&](socket_t, notifier_type) { CHECK(false); }));
        n->resume();
        if (rnd(2)) {
            usleep(rnd(1000));
        }
        const auto start = clk::now();
        std::weak_ptr<isocket_notifier_impl> w = n;
        if (rnd(2)) {
            n->suspend();
        } else {
            n->cancel();
        }
        CHECK(clk::now() - start < ms(10000));
        n.reset();
        CHECK(eventually([&] { return w.expired(); }, 40000));
    }
}
TEST(long_handler)
{
    if (g_round) {
        return;
    }
    socks s;
    auto n = make(serial(), s.s[1], notifier_type::WRITE);
    std::atomic<bool> in{ false }, left{ false };
    n->handler(sop([&](socket_t, notifier_type) { in = true; sleep_ms(5000); left = true; }));
    n->resume();
    CHECK(eventually([&] { return in.load(); }));
    n->cancel();
    CHECK(left);
}
