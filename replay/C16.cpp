#include "pools.h"
TEST(merged_never_lost)
{
    signal<void(int)> s;
    auto p = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("1", p);
    int runs = 0;
    bool emit = false;
    connection c = s.connect([&](int) { ++runs; if (emit) { emit = false; s(1); } }, q, notification_mode::batch_updates);
    for (int i = 0; i < 5; ++i) {
        s(i);
    }
    p->run_all();
    CHECK(runs == 1);
    s(1);
    p->run_all();
    CHECK(runs == 2);
    emit = true; // emitted during a call
    s(1);
    p->run_all();
    CHECK(runs == 4);
    p->run_all();
    CHECK(runs == 4);
}
TEST(update_is_seen)
{
    // the last state is always seen by a call that starts after it was set
    signal<void()> s;
    auto p = std::make_shared<threads_pool>(1 + rnd(2));
    auto q = naive::create_serial_queue("1", p);
    std::atomic<int> state{ 0 }, seen{ 0 };
    connection c = s.connect([&] { seen = state.load(); if (0 == rnd(4)) usleep(rnd(300)); }, q, notification_mode::batch_updates);
    for (int i = 1; i <= 30; ++i) {
        state = i;
        s();
        if (0 == rnd(4)) {
            usleep(rnd(400));
        }
    }
    CHECK(eventually([&] { return seen == 30; }));
    p->stop();
}
TEST(skip_what_is_queued)
{
    for (auto mode : { notification_mode::single_updates, notification_mode::batch_updates }) {
        signal<void(int)> s;
        auto p = std::make_shared<hand_pool>();
        auto q = naive::create_serial_queue("1", p), q2 = naive::create_serial_queue("2", p);
        std::vector<int> a, b;
        connection c1 = s.connect([&](int v) { a.push_back(v); }, q, mode);
        connection c2 = s.connect([&](int v) { b.push_back(v); }, q2, mode);
        s(1);
        s(2);
        s.skip_all();
        if (rnd(2)) {
            s.skip_all();
        }
        s(3); // while the skipped ones are still queued
        p->run_all();
        CHECK((a == std::vector<int>{ 3 }));
        CHECK((b == std::vector<int>{ 3 }));
        s(4);
        p->run_all();
        CHECK((a == std::vector<int>{ 3, 4 }));
        CHECK((b == std::vector<int>{ 3, 4 }));
        s.skip_all();
        s(5);
        p->run_all();
        CHECK((a == std::vector<int>{ 3, 4, 5 }));
        CHECK(c1.connected() && c2.connected());
        // only one of them has something queued
        connection c3 = s.connect([&](int) { b.push_back(-1); }, q2, mode);
        s(6);
        s.skip_all();
        p->run_all();
        CHECK(a.size() == 3 && b.size() == 3);
        s(7);
        s.skip_all();
        s(8);
        s(9);
        p->run_all();
        CHECK(a.back() == (mode == notification_mode::single_updates ? 9 : 8));
        CHECK(a.size() == (mode == notification_mode::single_updates ? 5u : 4u));
    }
}
TEST(skip_with_idle_handlers)
{
    signal<void(int)> s;
    auto p = std::make_shared<hand_pool>(), busy = std::make_shared<hand_pool>();
    auto qi = naive::create_serial_queue("1", p), qb = naive::create_serial_queue("2", busy);
    std::vector<connection> cs;
    std::vector<int> ran(5, 0);
    for (int i = 0; i < 5; ++i) {
        cs.push_back(s.connect([&, i](int) { ++ran[i]; }, i % 2 ? qb : qi));
    }
    s(1);
    p->run_all();
    s.skip_all();
    busy->run_all();
    for (int i = 0; i < 5; ++i) {
        CHECK(ran[i] == (i % 2 ? 0 : 1));
    }
}
TEST(skip_during_a_call)
{
    signal<void(int)> s;
    auto p = std::make_shared<hand_pool>();
    auto q = naive::create_serial_queue("1", p);
    std::vector<int> a;
    connection c = s.connect([&](int v) { if (v == 0) { s.skip_all(); s(10); } a.push_back(v); }, q);
    s(0);
    s(1);
    s(2);
    p->run_all();
    CHECK((a == std::vector<int>{ 0, 10 }));
}
