#include "pools.h"
struct receiver
{
    std::atomic<int> n{ 0 };
    int last{ 0 };
    void f(int v) { last = v; ++n; }
};
TEST(every_handler_once_per_emission)
{
    signal<void(int, std::string)> s;
    auto p1 = std::make_shared<hand_pool>(), p2 = std::make_shared<hand_pool>();
    auto q1 = naive::create_serial_queue("1", p1), q2 = naive::create_serial_queue("2", p2);
    std::vector<int> a, b, c;
    connection c1 = s.connect([&](int v, std::string t) { CHECK(naive::ithreadpool::current() == p1.get()); CHECK(t == std::to_string(v)); a.push_back(v); }, q1);
    connection c2 = s.connect([&](int v, std::string t) { CHECK(naive::ithreadpool::current() == p2.get()); CHECK(t == std::to_string(v)); b.push_back(v); }, q2);
    const auto me = std::this_thread::get_id();
    connection c3 = s.connect([&](int v, std::string t) { CHECK(me == std::this_thread::get_id()); CHECK(t == std::to_string(v)); c.push_back(v); }, q1, notification_mode::_synchronous_update);
    const int n = 1 + rnd(6);
    for (int i = 0; i < n; ++i) {
        s(i, std::to_string(i));
        CHECK(c.size() == static_cast<size_t>(i + 1));
    }
    CHECK(a.empty() && b.empty());
    CHECK(eventually([&] { p1->run_all(); return a.size() == static_cast<size_t>(n); }));
    CHECK(eventually([&] { p2->run_all(); return b.size() == static_cast<size_t>(n); }));
    p1->run_all();
    p2->run_all();
    for (int i = 0; i < n; ++i) {
        CHECK(a[i] == i && b[i] == i && c[i] == i);
    }
    CHECK(a.size() == static_cast<size_t>(n) && b.size() == static_cast<size_t>(n) && c.size() == static_cast<size_t>(n));
    c1.disconnect();
    s(99, "99");
    p1->run_all();
    p2->run_all();
    CHECK(a.size() == static_cast<size_t>(n) && b.size() == static_cast<size_t>(n + 1));
}
TEST(order_of_connection)
{
    signal<void(int)> s;
    auto p = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("1", p);
    std::vector<int> order, sync;
    std::vector<connection> cs;
    for (int i = 0; i < 6; ++i) {
        cs.push_back(s.connect([&, i](int) { order.push_back(i); }, q));
        cs.push_back(s.connect([&, i](int) { sync.push_back(i); }, q, notification_mode::_synchronous_update));
    }
    cs[4].disconnect();
    s(1);
    CHECK(eventually([&] { p->run_all(); return order.size() == 5; }));
    CHECK((order == std::vector<int>{ 0, 1, 3, 4, 5 }));
    CHECK((sync == std::vector<int>{ 0, 1, 2, 3, 4, 5 }));
}
TEST(members_signals_and_modes)
{
    signal<void(int)> s, t;
    auto p = std::make_shared<hand_pool>(), p2 = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("1", p), q2 = naive::create_serial_queue("2", p2);
    receiver r, batch, dflt;
    std::atomic<int> chained{ 0 };
    connection a = s.connect(&r, &receiver::f, q);
    connection b = s.connect(&batch, &receiver::f, q, notification_mode::batch_updates);
    connection c = s.connect(t);
    connection d = t.connect([&](int v) { CHECK(v == 7 + chained); ++chained; }, q2);
    connection e = s.connect(&dflt, &receiver::f);
    connection f = s.connect([&](int) {}, q, notification_mode::batch_updates);
    for (int i = 0; i < 3; ++i) {
        s(7 + i);
    }
    CHECK(eventually([&] { p->run_all(); p2->run_all(); return r.n == 3 && batch.n == 1 && chained == 3 && dflt.n == 3; }));
    p->run_all();
    p2->run_all();
    usleep(500);
    CHECK(r.n == 3 && batch.n == 1 && chained == 3 && dflt.n == 3);
    CHECK(r.last == 9);
    CHECK(batch.last == 7);
    CHECK(c.connected() && c.is_connected_to(s) && !c.is_connected_to(t));
    c.disconnect();
    s(1);
    p->run_all();
    p2->run_all();
    CHECK(chained == 3);
    CHECK(eventually([&] { return dflt.n == 4; }));
    e.disconnect();
}
TEST(through_the_group)
{
    group g(backend_for_type(backend_type::naive).create_group());
    signal<void(int)> s(g);
    auto p = std::make_shared<threads_pool>(2);
    auto q = naive::create_serial_queue("1", p);
    std::atomic<int> n{ 0 };
    connection c = s.connect([&](int) { usleep(rnd(500)); ++n; }, q);
    const int k = rnd(6);
    for (int i = 0; i < k; ++i) {
        s(i);
    }
    CHECK(g.wait());
    CHECK(n == k);
    p->stop();
}
TEST(handlers_may_use_the_signal)
{
    signal<void(int)> s;
    auto p = std::make_shared<threads_pool>(2);
    auto q = naive::create_serial_queue("1", p);
    std::atomic<int> n{ 0 }, late{ 0 };
    connection extra, self;
    std::atomic<bool> connected{ false };
    connection sync;
    sync = s.connect([&](int v) {
        if (v > 0) {
            s(v - 1);
        }
        if (v == 3) {
            extra = s.connect([&](int) { ++late; }, q);
            connected = true;
        }
        if (v == 0) {
            sync.disconnect();
        }
    }, q, notification_mode::_synchronous_update);
    self = s.connect([&](int) { ++n; }, q);
    s(3);
    CHECK(connected);
    CHECK(eventually([&] { return n == 4; }));
    s(5);
    CHECK(eventually([&] { return n == 5 && late >= 1; }));
    p->stop();
    CHECK(n == 5);
    extra.disconnect();
    self.disconnect();
}
TEST(concurrent_emissions)
{
    signal<void(int)> s;
    auto p = std::make_shared<threads_pool>(2);
    auto q = naive::create_serial_queue("1", p);
    std::atomic<int> n{ 0 };
    connection c = s.connect([&](int v) { n += v; }, q);
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; ++i) {
        ts.emplace_back([&] {
            for (int k = 0; k < 20; ++k) {
                s(1);
                if (rnd(3) == 0) {
                    connection x = s.connect([](int) {}, q);
                    x.disconnect();
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    CHECK(eventually([&] { return n == 60; }));
    p->stop();
    CHECK(n == 60);
}
