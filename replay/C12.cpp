#include "socks.h"
TEST(once_per_event)
{
    socks s;
    auto n = make(serial(), s.s[0], notifier_type::READ);
    std::atomic<int> ran{ 0 }, active{ 0 };
    n->handler(sop([&](socket_t x, notifier_type t) {
        CHECK(1 == ++active);
        CHECK(x == s.s[0]);
        CHECK(t == notifier_type::READ);
        s.drain();
        if (rnd(2)) {
            usleep(rnd(2000));
        }
        --active;
        ++ran;
    }));
    n->resume();
    const int k = 1 + rnd(10);
    for (int i = 0; i < k; ++i) {
        s.put();
        if (rnd(2)) {
            usleep(rnd(1500));
        }
    }
    CHECK(eventually([&] { return ran == k; }));
    sleep_ms(5);
    CHECK(ran == k);
    // still watching
    s.put(2);
    CHECK(eventually([&] { return ran == k + 2; }));
    n->cancel();
    CHECK(n->socket() == s.s[0]);
    CHECK(n->type() == notifier_type::READ);
}
TEST(writable)
{
    socks s;
    auto n = make(serial(), s.s[1], notifier_type::WRITE);
    std::atomic<int> ran{ 0 };
    n->handler(sop([&](socket_t x, notifier_type t) {
        CHECK(x == s.s[1]);
        CHECK(t == notifier_type::WRITE);
        ++ran;
        usleep(300);
    }));
    n->resume();
    CHECK(eventually([&] { return ran >= 3; }));
    n->cancel();
    CHECK(n->type() == notifier_type::WRITE);
}
TEST(not_ready)
{
    socks s;
    auto n = make(serial(), s.s[0], notifier_type::READ);
    std::atomic<int> ran{ 0 };
    n->handler(sop([&](socket_t, notifier_type) { ++ran; s.drain(); }));
    s.put(); // not resumed yet
    sleep_ms(5);
    CHECK(ran == 0);
    n->resume();
    CHECK(eventually([&] { return ran == 1; }));
    sleep_ms(20);
    CHECK(ran == 1);
    n->cancel();
}
TEST(current_queue_and_handler)
{
    socks s;
    auto p1 = std::make_shared<hand_pool>(), p2 = std::make_shared<hand_pool>();
    auto q1 = naive::create_parallel_queue("1", p1, queue_priority::DEFAULT, backend_type::naive);
    auto q2 = naive::create_parallel_queue("2", p2, queue_priority::DEFAULT, backend_type::naive);
    auto n = make(q1.implementation(), s.s[0], notifier_type::READ);
    std::atomic<int> a{ 0 }, b{ 0 };
    n->handler(sop([&](socket_t, notifier_type) { s.drain(); ++a; }));
    n->resume();
    s.put();
    CHECK(eventually([&] { return p1->size() == 1; }));
    s.put();
    sleep_ms(5);
    CHECK(p1->size() == 1); // not looked at before the invocation has finished
    CHECK(p1->run_one());
    CHECK(a == 1);
    CHECK(eventually([&] { return p1->size() == 1; }));
    CHECK(p1->run_one());
    CHECK(a == 2);
    n->target_queue(q2.implementation());
    n->handler(sop([&](socket_t, notifier_type) { s.drain(); ++b; }));
    sleep_ms(5);
    s.put();
    CHECK(eventually([&] { return p2->size() == 1; }));
    CHECK(p2->run_one());
    CHECK(a == 2 && b == 1);
    CHECK(p1->size() == 0);
    n->cancel();
}
