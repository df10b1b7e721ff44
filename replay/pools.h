// Pools to run operations on: by hand, and by threads that pick at random.
#pragma once
#include "common.h"
struct hand_pool : naive::ithreadpool
{
    std::mutex m;
    std::vector<operation_ptr> ops;
    std::vector<queue_priority> prios;
    std::atomic<int> blocked{ 0 }, unblocked{ 0 };
    void execute(const operation_ptr& op, queue_priority p) override
    {
        std::lock_guard<std::mutex> l(m);
        ops.push_back(op);
        prios.push_back(p);
    }
    void notify_thread_blocked() override { ++blocked; }
    void notify_thread_unblocked() override { ++unblocked; }
    size_t size()
    {
        std::lock_guard<std::mutex> l(m);
        return ops.size();
    }
    // runs one, chosen at random; false if there is none
    bool run_one()
    {
        operation_ptr op;
        {
            std::lock_guard<std::mutex> l(m);
            if (ops.empty()) {
                return false;
            }
            const size_t i = rnd(ops.size());
            op = ops[i];
            ops.erase(ops.begin() + i);
        }
        run_with_threadpool(*op, this);
        return true;
    }
    void run_all()
    {
        while (run_one()) {
        }
    }
};
struct threads_pool : hand_pool
{
    std::vector<std::thread> ts;
    std::atomic<bool> end{ false };
    explicit threads_pool(int n)
    {
        for (int i = 0; i < n; ++i) {
            ts.emplace_back([this] {
                while (!end) {
                    if (!run_one()) {
                        usleep(50);
                    }
                }
                run_all();
            });
        }
    }
    ~threads_pool() override { stop(); }
    void stop()
    {
        end = true;
        for (auto& t : ts) {
            t.join();
        }
        ts.clear();
        run_all();
    }
};
