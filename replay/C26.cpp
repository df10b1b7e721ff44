#include "pools.h"
// One thread, joined by the destructor: must never be destroyed by that thread.
struct own_pool : naive::ithreadpool
{
    std::mutex m;
    std::condition_variable c;
    std::vector<operation_ptr> ops;
    bool end = false;
    std::atomic<int>& gone;
    std::thread t;
    explicit own_pool(std::atomic<int>& g)
      : gone(g)
      , t([this] { run(); })
    {}
    ~own_pool() override
    {
        CHECK(std::this_thread::get_id() != t.get_id());
        {
            std::lock_guard<std::mutex> l(m);
            end = true;
        }
        c.notify_all();
        t.join();
        ++gone;
    }
    void execute(const operation_ptr& w, queue_priority) override
    {
        std::lock_guard<std::mutex> l(m);
        ops.push_back(w);
        c.notify_all();
    }
    void notify_thread_blocked() override {}
    void notify_thread_unblocked() override {}
    void run()
    {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            c.wait(l, [&] { return end || !ops.empty(); });
            if (ops.empty()) {
                return;
            }
            auto o = ops.front();
            ops.erase(ops.begin());
            l.unlock();
            run_with_threadpool(*o, this);
            o.reset();
            l.lock();
        }
    }
};
// Several queues share a pool; each is dropped by the user or from within an operation.
TEST(shared_pool)
{
    std::atomic<int> gone{ 0 }, ran{ 0 };
    int want = 0;
    {
        auto p = std::make_shared<own_pool>(gone);
        std::vector<std::shared_ptr<queue>> qs;
        const int n = 1 + rnd(4);
        for (int i = 0; i < n; ++i) {
            qs.push_back(std::make_shared<queue>(rnd(2) ? naive::create_parallel_queue("p", p) : naive::create_serial_queue("s", p)));
        }
        p.reset();
        while (!qs.empty()) {
            const int i = rnd(qs.size());
            auto victim = qs[i];
            qs.erase(qs.begin() + i);
            const int pending = rnd(3);
            for (int k = 0; k < pending; ++k) {
                ++want;
                victim->async([&ran] { ++ran; });
            }
            if (rnd(2) && (!qs.empty() || rnd(2))) {
                // the last reference is held by an operation
                queue& on = qs.empty() ? *victim : *qs[rnd(qs.size())];
                ++want;
                struct last
                {
                    std::shared_ptr<queue> q;
                    std::atomic<int>& ran;
                    void operator()()
                    {
                        usleep(rnd(300));
                        ++ran;
                        q.reset();
                    }
                };
                auto op = make_operation(std::function<void()>(last{ victim, ran }));
                victim.reset();
                on.async(op);
            } else {
                victim.reset();
                if (rnd(3) == 0) {
                    usleep(rnd(1000));
                }
            }
        }
    }
    CHECK(eventually([&] { return gone == 1; }));
    CHECK(ran == want);
}
