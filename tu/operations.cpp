// Instantiates the operation templates for the verifier. No code under test.
#include "xdispatch/dispatch.h"
#include "xdispatch/operation.h"
#include "xdispatch/queue.h"
#include "xdispatch/group.h"
#include "xdispatch/timer.h"
#include "xdispatch/socket_notifier.h"
using namespace xdispatch;

struct vf_functor
{
    vf_functor(const vf_functor&);
    ~vf_functor();
    void operator()() const;
    void operator()(size_t) const;
    void operator()(socket_t, notifier_type) const;
    void* id;
};
struct vf_object
{
    virtual ~vf_object();
    void run();
    void run_index(size_t);
    void run_socket(socket_t, notifier_type);
};

operation_ptr vf_make(const vf_functor& f) { return make_operation(f); }
operation_ptr vf_make_same(const operation_ptr& p) { return make_operation(p); }
operation_ptr vf_make_member(vf_object* o) { return make_operation(o, &vf_object::run); }
iteration_operation_ptr vf_iter(const vf_functor& f) { return make_iteration_operation(f); }
iteration_operation_ptr vf_iter_same(const iteration_operation_ptr& p) { return make_iteration_operation(p); }
iteration_operation_ptr vf_iter_member(vf_object* o) { return make_iteration_operation(o, &vf_object::run_index); }
socket_notifier_operation_ptr vf_sock(const vf_functor& f) { return socket_notifier_operation::make(f); }
socket_notifier_operation_ptr vf_sock_same(const socket_notifier_operation_ptr& p) { return socket_notifier_operation::make(p); }
socket_notifier_operation_ptr vf_sock_member(vf_object* o) { return socket_notifier_operation::make(o, &vf_object::run_socket); }

void vf_drop(operation_ptr& p) { p.reset(); }
void vf_drop_iter(iteration_operation_ptr& p) { p.reset(); }
void vf_drop_sock(socket_notifier_operation_ptr& p) { p.reset(); }
void vf_exec(operation& o) { execute_operation_on_this_thread(o); }
void vf_exec_iter(iteration_operation& o, size_t i) { execute_operation_on_this_thread(o, i); }
void vf_exec_sock(socket_notifier_operation& o, socket_t s, notifier_type t) { execute_operation_on_this_thread(o, s, t); }

void vf_queue_async(const queue& q, const vf_functor& f) { q.async(f); }
void vf_queue_apply(const queue& q, const vf_functor& f, size_t n) { q.apply(n, f); }
void vf_queue_after(const queue& q, const vf_functor& f, std::chrono::milliseconds d) { q.after(d, f); }
void vf_group_async(const group& g, const vf_functor& f, const queue& q) { g.async(f, q); }
void vf_group_async_prio(const group& g, const vf_functor& f, queue_priority p) { g.async(f, p); }
void vf_group_notify(const group& g, const vf_functor& f, const queue& q) { g.notify(f, q); }
void vf_timer_handler(timer& t, const vf_functor& f) { t.handler(f); }
void vf_notifier_handler(socket_notifier& n, const vf_functor& f) { n.handler(f); }
