// Instantiates the signal barrier for the verifier. No code under test.
#include <memory>
#include <stdexcept>

#include "xdispatch/signals.h"
#include "xdispatch/signals_barrier.h"

// a value which cannot be default constructed
struct vf_token
{
    explicit vf_token(int v)
      : m_v(v)
    {}
    int m_v;
};

template class xdispatch::signal<void(int)>;
template class xdispatch::signal_barrier<void(int)>;
template class xdispatch::signal<void(vf_token)>;
template class xdispatch::signal_barrier<void(vf_token)>;

int
vf_value(const xdispatch::signal_barrier<void(int)>& b)
{
    return b.value<0>();
}

int
vf_value(const xdispatch::signal_barrier<void(vf_token)>& b)
{
    return b.value<0>().m_v;
}

void
vf_destroy(xdispatch::signal_barrier<void(int)>* b)
{
    b->~signal_barrier();
}

void
vf_destroy(xdispatch::signal_barrier<void(vf_token)>* b)
{
    b->~signal_barrier();
}
