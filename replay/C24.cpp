#include "pools.h"
static std::atomic<int> g_live{ 0 }, g_calls{ 0 };
static std::atomic<long> g_sum{ 0 };
struct fun
{
    std::vector<long> value;
    explicit fun(long v)
      : value(1 + v % 5, v)
    {
        ++g_live;
    }
    fun(const fun& o)
      : value(o.value)
    {
        ++g_live;
    }
    ~fun()
    {
        for (auto& v : value) {
            v = -1000000;
        }
        --g_live;
    }
    void operator()() const
    {
        g_sum += value.front();
        ++g_calls;
    }
    void operator()(size_t i) const
    {
        g_sum += value.front() * 1000 + long(i);
        ++g_calls;
    }
    void operator()(socket_t s, notifier_type t) const
    {
        g_sum += value.front() * 1000 + s * 2 + int(t);
        ++g_calls;
    }
};
struct obj
{
    int runs = 0;
    long sum = 0;
    void run() { ++runs; }
    void run_index(size_t i)
    {
        ++runs;
        sum += i;
    }
    void run_socket(socket_t s, notifier_type t)
    {
        ++runs;
        sum += s * 10 + int(t);
    }
};
static void reset()
{
    CHECK(g_live == 0);
    g_calls = 0;
    g_sum = 0;
}
TEST(copies)
{
    reset();
    {
        const long v = rnd(1000), i = rnd(50);
        const auto t = rnd(2) ? notifier_type::READ : notifier_type::WRITE;
        operation_ptr a;
        iteration_operation_ptr b;
        socket_notifier_operation_ptr c;
        {
            fun f(v);
            a = make_operation(f);
            b = make_iteration_operation(f);
            c = socket_notifier_operation::make(f);
            f.value.assign(3, 77777);
        }
        CHECK(g_live == 3 && g_calls == 0);
        execute_operation_on_this_thread(*a);
        CHECK(g_calls == 1 && g_sum == v);
        execute_operation_on_this_thread(*b, size_t(i));
        CHECK(g_calls == 2 && g_sum == v * 1001 + i);
        execute_operation_on_this_thread(*c, socket_t(i), t);
        CHECK(g_calls == 3 && g_sum == v * 2001 + 3 * i + int(t));
        execute_operation_on_this_thread(*a);
        CHECK(g_calls == 4 && g_live == 3);
        CHECK(make_operation(a) == a && make_iteration_operation(b) == b && socket_notifier_operation::make(c) == c);
    }
    CHECK(g_live == 0);
}
TEST(members)
{
    obj o;
    const long i = rnd(50);
    execute_operation_on_this_thread(*make_operation(&o, &obj::run));
    execute_operation_on_this_thread(*make_iteration_operation(&o, &obj::run_index), size_t(i));
    execute_operation_on_this_thread(*socket_notifier_operation::make(&o, &obj::run_socket), socket_t(i), notifier_type::WRITE);
    CHECK(o.runs == 3 && o.sum == 11 * i + int(notifier_type::WRITE));
}
TEST(conveniences)
{
    reset();
    {
        queue q("q"), p("p", rnd(2) ? queue_priority::DEFAULT : queue_priority::BACKGROUND);
        group g;
        timer t(ms(3), q);
        const long v = rnd(100);
        {
            fun f(v);
            q.async(f);
            q.apply(3, f);
            q.after(ms(rnd(4)), f);
            g.async(f, p);
            g.async(f, queue_priority::UTILITY);
            g.notify(f, q);
            f.value.assign(3, 77777);
        }
        CHECK(g.wait(ms(20000)));
        CHECK(eventually([&] { return g_calls == 8; }));
        CHECK(g_sum == 5 * v + 3 * v * 1000 + 3);
        CHECK(eventually([&] { return g_live == 0; }));
    }
    reset();
}
TEST(barrier)
{
    auto b = std::make_shared<barrier_operation>();
    queue q("q");
    CHECK(!b->has_passed() && !b->wait(ms(rnd(3))));
    std::atomic<bool> go{ false }, ran{ false };
    q.async([&] { eventually([&] { return go.load(); }); ran = true; });
    q.async(b);
    CHECK(!b->wait(ms(rnd(3))));
    go = true;
    CHECK(b->wait(ms(20000)) && b->has_passed() && ran);
}
TEST(on_its_queue)
{
    reset();
    {
        auto pool = std::make_shared<hand_pool>();
        queue q = naive::create_parallel_queue("q", pool);
        group g;
        timer t(ms(1), q);
        fun f(rnd(100));
        q.async(f);
        CHECK(pool->size() == 1);
        g.async(f, q);
        CHECK(pool->size() == 2);
        pool->run_all();
        CHECK(g_calls == 2);
        g.notify(f, q);
        CHECK(eventually([&] { return pool->size() == 1; }));
        pool->run_all();
        q.after(ms(1), f);
        CHECK(eventually([&] { return pool->size() == 1; }));
        pool->run_all();
        CHECK(g_calls == 4);
    }
    CHECK(eventually([&] { return g_live == 0; }));
    reset();
}
