#include "pools.h"
struct noting : iqueue_impl
{
    std::vector<const operation*> ops;
    std::vector<const iteration_operation*> its;
    std::vector<size_t> ns;
    std::vector<ms> ds;
    void async(const operation_ptr& op) override { ops.push_back(op.get()); }
    void apply(size_t n, const iteration_operation_ptr& op) override { ns.push_back(n); its.push_back(op.get()); }
    void after(std::chrono::milliseconds d, const operation_ptr& op) override { ds.push_back(d); ops.push_back(op.get()); }
    backend_type backend() override { return backend_type::naive; }
};
TEST(identity)
{
    auto i = std::make_shared<noting>(), k = std::make_shared<noting>();
    queue a("a", i), b("b", i), c("a", k);
    CHECK(a == b && !(a != b) && a != c && !(a == c));
    CHECK(a.label() == "a" && b.label() == "b");
    CHECK(a.implementation() == i);
    queue d(a), e(c);
    e = a;
    CHECK(d == a && e == a && e.label() == "a");
    auto op = make_operation([] {});
    a.async(op);
    b.after(ms(7), op);
    CHECK(i->ops.size() == 2 && i->ops[0] == op.get() && i->ops[1] == op.get() && i->ds.size() == 1 && i->ds[0] == ms(7));
    a.apply(5, [](size_t) {});
    CHECK(i->ns.size() == 1 && i->ns[0] == 5);
    CHECK(k->ops.empty() && k->ns.empty());
}
TEST(global_queues)
{
    using P = queue_priority;
    const P ps[] = { P::USER_INTERACTIVE, P::USER_INITIATED, P::UTILITY, P::BACKGROUND };
    for (P p : ps) {
        std::vector<std::thread> ts;
        for (int i = 0; i < 3; ++i) {
            ts.emplace_back([=] { CHECK(global_queue(p) == global_queue(p)); });
        }
        for (auto& t : ts) {
            t.join();
        }
        for (P o : ps) {
            CHECK((p == o) == (global_queue(p) == global_queue(o)));
        }
    }
    CHECK(global_queue(P::DEFAULT) == global_queue(P::UTILITY));
    CHECK(global_queue() == global_queue(P::DEFAULT));
    CHECK(main_queue() == main_queue());
    CHECK(main_queue() != global_queue());
    std::atomic<naive::ithreadpool*> pool{ nullptr };
    std::atomic<int> n{ 0 };
    for (P p : ps) {
        global_queue(p).async([&] {
            auto* c = naive::ithreadpool::current();
            naive::ithreadpool* none = nullptr;
            CHECK(c);
            CHECK(pool.compare_exchange_strong(none, c) || none == c);
            ++n;
        });
    }
    CHECK(eventually([&] { return n == 4; }));
}
TEST(serial_queues)
{
    queue a("x"), b("x", queue_priority::BACKGROUND);
    CHECK(a != b);
    CHECK(a.label() == "x" && b.label() == "x");
    std::atomic<int> n{ 0 };
    a.async([&] { ++n; });
    b.async([&] { ++n; });
    CHECK(eventually([&] { return n == 2; }));
    auto pool = std::make_shared<hand_pool>();
    for (auto p : { queue_priority::USER_INTERACTIVE, queue_priority::USER_INITIATED, queue_priority::UTILITY, queue_priority::BACKGROUND }) {
        auto s = naive::create_serial_queue("s", pool, p, backend_type::naive);
        auto c = naive::create_parallel_queue("c", pool, p, backend_type::naive);
        pool->prios.clear();
        s.async([] {});
        c.async([] {});
        pool->run_all();
        CHECK(s.label() == "s" && c.label() == "c");
        CHECK(pool->prios.size() >= 2);
        for (auto x : pool->prios) {
            CHECK(x == p);
        }
    }
}
