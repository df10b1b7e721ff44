#pragma once
#include "pools.h"
struct socks
{
    int s[2];
    socks() { CHECK(0 == socketpair(AF_UNIX, SOCK_STREAM, 0, s)); }
    ~socks()
    {
        close(s[0]);
        close(s[1]);
    }
    void put(int n = 1)
    {
        while (n--) {
            CHECK(1 == write(s[1], "x", 1));
        }
    }
    void drain()
    {
        char c;
        CHECK(1 == read(s[0], &c, 1));
    }
};
static inline isocket_notifier_impl_ptr make(const iqueue_impl_ptr& q, int s, notifier_type t)
{
    return backend_for_type(backend_type::naive).create_socket_notifier(q, s, t);
}
static inline iqueue_impl_ptr serial()
{
    return backend_for_type(backend_type::naive).create_serial_queue("q", queue_priority::DEFAULT);
}
struct sock_op : socket_notifier_operation
{
    std::function<void(socket_t, notifier_type)> f;
    explicit sock_op(std::function<void(socket_t, notifier_type)> x) : f(std::move(x)) {}
    void operator()(socket_t s, notifier_type t) override { f(s, t); }
};
static inline socket_notifier_operation_ptr sop(std::function<void(socket_t, notifier_type)> f)
{
    return std::make_shared<sock_op>(std::move(f));
}
