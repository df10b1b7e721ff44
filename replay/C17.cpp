#include "pools.h"
TEST(not_called_any_more)
{
    signal<void(int)> s;
    auto p = std::make_shared<threads_pool>(2);
    auto q = naive::create_parallel_queue("1", p, queue_priority::DEFAULT, backend_type::naive);
    std::atomic<int> active{ 0 }, other{ 0 };
    std::atomic<bool> gone{ false };
    const auto mode = rnd(2) ? notification_mode::batch_updates : notification_mode::single_updates;
    connection c = s.connect([&](int) { CHECK(!gone); ++active; usleep(rnd(600)); CHECK(!gone); --active; }, q, mode);
    connection o = s.connect([&](int) { ++other; }, q);
    for (int i = 0; i < 8; ++i) {
        s(i);
    }
    usleep(rnd(2000));
    connection copy = c;
    switch (rnd(4)) {
        case 0: CHECK(c.disconnect()); break;
        case 1: CHECK(s.disconnect(c)); break;
        case 2: { scoped_connection x(c); break; }
        case 3: { connection_manager m; m += c; break; }
    }
    gone = true;
    CHECK(0 == active);
    CHECK(!copy.connected());
    CHECK(!copy.disconnect());
    s(9);
    CHECK(eventually([&] { return other == 9; }));
    CHECK(o.connected());
    p->stop();
    o.disconnect();
}
TEST(two_threads_disconnect)
{
    signal<void(int)> s;
    auto p = std::make_shared<threads_pool>(2);
    auto q = naive::create_serial_queue("1", p);
    std::atomic<int> active{ 0 };
    connection c = s.connect([&](int) { ++active; usleep(500 + rnd(1500)); --active; }, q);
    s(1);
    s(2);
    usleep(rnd(1500));
    connection a = c, b = c;
    std::atomic<int> yes{ 0 };
    std::thread t([&] { yes += a.disconnect() ? 1 : 0; CHECK(0 == active); });
    yes += s.disconnect(b) ? 1 : 0;
    CHECK(0 == active);
    t.join();
    CHECK(1 == yes);
    p->stop();
}
TEST(signal_is_destroyed)
{
    auto p = std::make_shared<threads_pool>(2);
    auto q = naive::create_serial_queue("1", p);
    connection c, d;
    std::atomic<int> active{ 0 };
    std::atomic<bool> gone{ false };
    {
        signal<void(int)> s;
        c = s.connect([&](int) { CHECK(!gone); ++active; usleep(rnd(1500)); CHECK(!gone); --active; }, q);
        d = s.connect([&](int) { CHECK(!gone); }, q);
        s(1);
        s(2);
        usleep(rnd(1500));
    }
    gone = true;
    CHECK(0 == active);
    CHECK(!c.connected());
    CHECK(!c.disconnect());
    CHECK(!d.disconnect());
    p->stop();
}
TEST(handler_disconnects_itself)
{
    auto p = std::make_shared<threads_pool>(1);
    auto q = naive::create_serial_queue("1", p);
    signal<void(int)> s;
    std::atomic<int> n{ 0 };
    connection c;
    c = s.connect([&](int) { ++n; CHECK(c.disconnect()); CHECK(!c.connected()); }, q);
    s(1);
    s(2);
    s(3);
    p->stop();
    CHECK(n == 1);
}
TEST(handler_uses_the_signal_while_disconnected)
{
    auto p = std::make_shared<threads_pool>(1);
    auto q = naive::create_serial_queue("1", p);
    signal<void(int)> s;
    std::atomic<bool> in{ false }, go{ false };
    connection c = s.connect([&](int) {
        in = true;
        while (!go) {
            usleep(100);
        }
        connection x = s.connect([](int) {}, q);
        CHECK(x.disconnect());
        s.skip_all();
    }, q);
    s(1);
    CHECK(eventually([&] { return in.load(); }));
    std::thread t([&] { c.disconnect(); });
    usleep(2000);
    go = true;
    t.join();
    p->stop();
}
TEST(state_of_connections)
{
    auto p = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("1", p);
    signal<void(int)> s, t;
    connection none;
    CHECK(!none.connected());
    CHECK(!none.disconnect());
    CHECK(!none.is_connected_to(s));
    connection a = s.connect([](int) {}, q), b = s.connect([](int) {}, q), c = t.connect([](int) {}, q);
    connection a2 = a;
    CHECK(a == a2 && !(a != a2));
    CHECK(a != b && !(a == b));
    CHECK(a != c && a != none);
    CHECK(a.is_connected_to(s) && !a.is_connected_to(t));
    CHECK(!t.disconnect(a)); // not its own
    CHECK(a.connected());
    CHECK(s.disconnect(a));
    CHECK(!a2.connected() && b.connected() && c.connected());
}
TEST(scopes)
{
    auto p = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("1", p);
    signal<void(int)> s, t;
    auto f = [](int) {};
    connection a = s.connect(f, q), b = s.connect(f, q), c = s.connect(f, q), d = t.connect(f, q), e = t.connect(f, q);
    {
        scoped_connection x(a);
        scoped_connection y;
        y = b;
        CHECK(a.connected() && b.connected());
        x = c; // disconnects a
        CHECK(!a.connected() && c.connected());
        y = std::move(x); // disconnects b, takes c
        CHECK(!b.connected() && c.connected());
        scoped_connection z(std::move(y));
        CHECK(c.connected());
        { scoped_connection gone(std::move(y)); }
        CHECK(c.connected());
        connection taken = z.take();
        CHECK(taken.connected() && taken == c);
        scoped_connection u(d);
        u = connection();
        CHECK(!d.connected());
    }
    CHECK(c.connected());
    {
        scoped_connection x(c);
    }
    CHECK(!c.connected());
    connection g = s.connect(f, q), h = t.connect(f, q), i = s.connect(f, q);
    {
        connection_manager m;
        m += g;
        m += h;
        m += i;
        m += e;
        m.reset_connections_with(s);
        CHECK(!g.connected() && !i.connected() && h.connected() && e.connected());
        m.reset_connections();
        CHECK(!h.connected() && !e.connected());
        g = s.connect(f, q);
        m += g;
    }
    CHECK(!g.connected());
}
TEST(long_handler)
{
    if (g_round) {
        return;
    }
    auto p = std::make_shared<threads_pool>(1);
    auto q = naive::create_serial_queue("1", p);
    std::atomic<bool> in{ false }, left{ false };
    signal<void(int)> s;
    connection c = s.connect([&](int) { in = true; sleep_ms(5000); left = true; }, q);
    s(1);
    CHECK(eventually([&] { return in.load(); }));
    c.disconnect();
    CHECK(left);
    p->stop();
}
