#include "pools.h"
// a queue that notes when an operation was submitted to it
struct noting_queue : iqueue_impl
{
    std::mutex m;
    std::vector<clk::time_point> at;
    iqueue_impl_ptr to;
    std::atomic<int> n{ 0 };
    explicit noting_queue(const iqueue_impl_ptr& q) : to(q) {}
    void async(const operation_ptr& op) override
    {
        {
            std::lock_guard<std::mutex> l(m);
            at.push_back(clk::now());
        }
        ++n;
        to->async(op);
    }
    void apply(size_t n, const iteration_operation_ptr& op) override { to->apply(n, op); }
    void after(std::chrono::milliseconds d, const operation_ptr& op) override { to->after(d, op); }
    backend_type backend() override { return backend_type::naive; }
    void set_capacity(size_t) {}
};
static iqueue_impl_ptr serial()
{
    return backend_for_type(backend_type::naive).create_serial_queue("q", queue_priority::DEFAULT);
}
static itimer_impl_ptr make(const iqueue_impl_ptr& q)
{
    return backend_for_type(backend_type::naive).create_timer(q);
}
TEST(not_early)
{
    auto q = std::make_shared<noting_queue>(serial());
    auto t = make(q);
    std::atomic<int> ran{ 0 }, active{ 0 };
    t->handler(make_operation([&] { CHECK(1 == ++active); ++ran; if (rnd(2)) usleep(rnd(5000)); --active; }));
    const int interval = 5 + rnd(15), delay = rnd(30);
    t->interval(ms(interval));
    const auto start = clk::now();
    t->resume(ms(delay));
    CHECK(eventually([&] { return ran >= 4; }));
    t->cancel();
    std::lock_guard<std::mutex> l(q->m);
    CHECK(q->at[0] - start >= ms(delay));
    for (size_t i = 1; i < q->at.size(); ++i) {
        CHECK(q->at[i] - q->at[i - 1] >= ms(interval));
    }
    CHECK(ran <= q->n && q->n <= ran + 1);
}
TEST(next_only_when_finished)
{
    auto q = std::make_shared<noting_queue>(serial());
    auto t = make(q);
    std::atomic<bool> go{ false };
    std::atomic<int> ran{ 0 };
    t->handler(make_operation([&] { while (!go) usleep(100); ++ran; }));
    t->interval(ms(3));
    t->resume(ms(0));
    CHECK(eventually([&] { return q->n == 1; }));
    sleep_ms(25);
    CHECK(q->n == 1);
    go = true;
    CHECK(eventually([&] { return ran >= 2; }));
    t->cancel();
}
TEST(single_shot)
{
    auto q = std::make_shared<noting_queue>(serial());
    auto t = make(q);
    std::atomic<int> ran{ 0 };
    t->handler(make_operation([&] { ++ran; }));
    t->interval(ms(0));
    t->resume(ms(rnd(10)));
    CHECK(eventually([&] { return ran == 1; }));
    sleep_ms(20);
    CHECK(ran == 1);
    CHECK(q->n == 1);
    t->suspend();
    t->resume(ms(1));
    CHECK(eventually([&] { return ran == 2; }));
    sleep_ms(20);
    CHECK(ran == 2);
    t->cancel();
}
TEST(current_handler_and_queue)
{
    auto q1 = std::make_shared<noting_queue>(serial()), q2 = std::make_shared<noting_queue>(serial());
    auto t = make(q1);
    std::atomic<int> a{ 0 }, b{ 0 };
    t->handler(make_operation([&] { ++a; }));
    t->interval(ms(4));
    t->resume(ms(0));
    CHECK(eventually([&] { return a >= 2; }));
    t->handler(make_operation([&] { ++b; }));
    CHECK(eventually([&] { return b >= 2; }));
    const int seen = a;
    t->target_queue(q2);
    CHECK(eventually([&] { return q2->n >= 2; }));
    const int old = q1->n;
    sleep_ms(15);
    CHECK(a == seen);
    CHECK(old == q1->n);
    t->cancel();
}
TEST(interval_is_changed)
{
    auto q = std::make_shared<noting_queue>(serial());
    auto t = make(q);
    std::atomic<int> ran{ 0 };
    t->handler(make_operation([&] { ++ran; }));
    t->interval(ms(2));
    t->resume(ms(0));
    CHECK(eventually([&] { return ran >= 3; }));
    t->interval(ms(30));
    const size_t k = q->n;
    CHECK(eventually([&] { return q->n >= static_cast<int>(k) + 5; }));
    t->cancel();
    std::lock_guard<std::mutex> l(q->m);
    // the periods that were about to start at the time of the change do not count
    for (size_t i = k + 3; i < q->at.size(); ++i) {
        CHECK(q->at[i] - q->at[i - 1] >= ms(30));
    }
}
