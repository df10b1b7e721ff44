// Instantiates the signal templates for the verifier. No code under test.
#include <algorithm>

#include "xdispatch/signals.h"

template class xdispatch::signal<void(int)>;

struct vf_listener
{
    void slot(int);
};

xdispatch::connection
vf_connect_member(xdispatch::signal<void(int)>& s,
                  vf_listener* l,
                  const xdispatch::queue& q,
                  xdispatch::notification_mode m)
{
    return s.connect(l, &vf_listener::slot, q, m);
}
