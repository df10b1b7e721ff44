#include "common.h"

TEST(excludes_from_then_on)
{
    cancelable c;
    std::atomic<bool> disabled{ false };
    std::atomic<int> inside{ 0 }, entered{ 0 };
    std::atomic<bool> end{ false };
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; ++i) {
        ts.emplace_back([&] {
            while (!end) {
                const bool before = disabled;
                cancelable_scope s(c);
                if (s) {
                    ++inside;
                    ++entered;
                    CHECK(!before);
                    if (0 == rnd(8)) {
                        usleep(rnd(400));
                    }
                    CHECK(!disabled);
                    --inside;
                }
            }
        });
    }
    usleep(rnd(2000));
    std::vector<std::thread> ds;
    for (int i = 0; i < 2; ++i) {
        ds.emplace_back([&] { usleep(rnd(200)); c.disable(); disabled = true; CHECK(0 == inside); });
    }
    for (auto& d : ds) {
        d.join();
    }
    {
        cancelable_scope s(c);
        CHECK(!s);
    }
    c.disable();
    end = true;
    for (auto& t : ts) {
        t.join();
    }
}
TEST(none_rejected_while_enabled)
{
    cancelable c;
    std::atomic<int> in{ 0 };
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; ++i) {
        ts.emplace_back([&] {
            cancelable_scope s(c);
            CHECK(s);
            ++in;
            // all of them are inside at once
            CHECK(eventually([&] { return in == 4; }));
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    for (int i = 0; i < 100; ++i) {
        cancelable_scope s(c);
        CHECK(s);
    }
}
TEST(from_within_does_not_wait)
{
    cancelable c;
    std::atomic<bool> other_in{ false }, other_left{ false };
    std::thread t([&] { cancelable_scope s(c); CHECK(s); other_in = true; usleep(rnd(4000)); other_left = true; });
    CHECK(eventually([&] { return other_in.load(); }));
    {
        cancelable_scope s(c);
        CHECK(s);
        c.disable();
        cancelable_scope n(c);
        CHECK(!n);
    }
    c.disable(); // from outside
    CHECK(other_left);
    t.join();
}
TEST(nested_scopes)
{
    cancelable a, b;
    std::atomic<bool> in{ false }, left{ false };
    std::thread t([&] { cancelable_scope s(b); in = true; usleep(2000 + rnd(3000)); left = true; });
    CHECK(eventually([&] { return in.load(); }));
    {
        cancelable_scope s(a);
        CHECK(s);
        cancelable_scope s2(a);
        CHECK(s2);
        b.disable();
        CHECK(left);
        a.disable();
    }
    a.disable();
    t.join();
}
TEST(both_from_within)
{
    // two handlers disable the other one's scope: the second one to do so must not get in
    cancelable a, b;
    std::atomic<int> done{ 0 };
    { cancelable_scope s(a); CHECK(s); { cancelable_scope u(b); CHECK(u); a.disable(); b.disable(); } }
    { cancelable_scope s(a); CHECK(!s); }
    { cancelable_scope s(b); CHECK(!s); }
}
TEST(long_section)
{
    if (g_round) {
        return;
    }
    cancelable c;
    std::atomic<bool> in{ false }, left{ false };
    std::thread t([&] { cancelable_scope s(c); in = true; sleep_ms(5000); left = true; });
    CHECK(eventually([&] { return in.load(); }));
    std::thread d([&] { c.disable(); CHECK(left); });
    c.disable();
    CHECK(left);
    t.join();
    d.join();
}
