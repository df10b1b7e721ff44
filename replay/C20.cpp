#include "pools.h"
#include <stdexcept>
// objects of another backend
static const backend_type k_other = static_cast<backend_type>(17);
struct other_group : igroup_impl
{
    std::atomic<int> calls{ 0 };
    backend_type b;
    explicit other_group(backend_type x) : b(x) {}
    void async(const operation_ptr&, const iqueue_impl_ptr&) override { ++calls; }
    bool wait(std::chrono::milliseconds) override { return true; }
    void notify(const operation_ptr&, const iqueue_impl_ptr&) override { ++calls; }
    backend_type backend() override { return b; }
};
struct other_queue : iqueue_impl
{
    std::atomic<int> calls{ 0 };
    backend_type b;
    explicit other_queue(backend_type x) : b(x) {}
    void async(const operation_ptr& op) override
    {
        ++calls;
        execute_operation_on_this_thread(*op);
    }
    void apply(size_t, const iteration_operation_ptr&) override { ++calls; }
    void after(std::chrono::milliseconds, const operation_ptr&) override { ++calls; }
    backend_type backend() override { return b; }
};
struct other_timer : itimer_impl
{
    int calls{ 0 };
    backend_type b;
    explicit other_timer(backend_type x) : b(x) {}
    void interval(std::chrono::milliseconds) override { ++calls; }
    void latency(timer_precision) override { ++calls; }
    void target_queue(const iqueue_impl_ptr&) override { ++calls; }
    void handler(const operation_ptr&) override { ++calls; }
    void resume(std::chrono::milliseconds) override { ++calls; }
    void suspend() override { ++calls; }
    void cancel() override { ++calls; }
    backend_type backend() override { return b; }
};
struct other_notifier : isocket_notifier_impl
{
    int calls{ 0 };
    backend_type b;
    explicit other_notifier(backend_type x) : b(x) {}
    socket_t socket() const override { return 0; }
    notifier_type type() const override { return notifier_type::READ; }
    void target_queue(const iqueue_impl_ptr&) override { ++calls; }
    void handler(const socket_notifier_operation_ptr&) override { ++calls; }
    void resume() override { ++calls; }
    void suspend() override { ++calls; }
    void cancel() override { ++calls; }
    backend_type backend() override { return b; }
};
template<class F> static bool throws(F f)
{
    try {
        f();
    } catch (const std::logic_error&) {
        return true;
    }
    return false;
}
TEST(pairs)
{
    for (auto a : { backend_type::naive, k_other }) {
        for (auto b : { backend_type::naive, k_other }) {
            auto qi = std::make_shared<other_queue>(b);
            queue q("q", qi);
            auto gi = std::make_shared<other_group>(a);
            group g{ igroup_impl_ptr(gi) };
            auto op = make_operation([] {});
            const bool ok = a == backend_type::naive || a == b;
            CHECK(ok != throws([&] { g.async(op, q); }));
            CHECK(ok != throws([&] { g.notify(op, q); }));
            CHECK(gi->calls == (ok ? 2 : 0));
            auto ti = std::make_shared<other_timer>(a);
            CHECK((a == b) != throws([&] { timer t(ti, q); }));
            CHECK(a == b || 0 == ti->calls);
            auto ni = std::make_shared<other_notifier>(a);
            CHECK((a == b) != throws([&] { socket_notifier n(ni, q); }));
            CHECK(a == b || 0 == ni->calls);
            CHECK(0 == qi->calls);
        }
    }
}
TEST(naive_group_takes_all)
{
    group g(backend_for_type(backend_type::naive).create_group());
    auto qi = std::make_shared<other_queue>(k_other);
    queue q("q", qi);
    std::atomic<int> ran{ 0 };
    g.async([&] { ++ran; }, q);
    CHECK(g.wait(ms(20000)));
    CHECK(ran == 1);
    g.notify([&] { ++ran; }, q);
    CHECK(eventually([&] { return ran == 2; }));
}
TEST(created_for_their_queue)
{
    auto pool = std::make_shared<threads_pool>(1);
    auto q = naive::create_serial_queue("q", pool);
    timer t(ms(1), q);
    CHECK(t.target_queue() == q);
    std::atomic<int> ran{ 0 };
    t.handler([&] { CHECK(naive::ithreadpool::current() == pool.get()); ++ran; });
    t.resume();
    CHECK(eventually([&] { return ran >= 2; }));
    t.cancel();
    int s[2];
    CHECK(0 == socketpair(AF_UNIX, SOCK_STREAM, 0, s));
    socket_notifier n(s[1], notifier_type::WRITE, q);
    CHECK(n.target_queue() == q && n.socket() == s[1] && n.type() == notifier_type::WRITE);
    std::atomic<int> nran{ 0 };
    n.handler([&](socket_t, notifier_type) { CHECK(naive::ithreadpool::current() == pool.get()); ++nran; });
    n.resume();
    CHECK(eventually([&] { return nran >= 2; }));
    n.cancel();
    close(s[0]);
    close(s[1]);
    pool->stop();
}
