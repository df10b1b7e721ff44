// Instantiates the Qt helpers for the verifier. No code under test.
#include "xdispatch/backend_qt.h"

struct vf_receiver : public QObject
{
    void slot(int);
};

void
vf_qt_connect_slot(xdispatch::signal<void(int)>& s,
                   vf_receiver* r,
                   const xdispatch::queue& q,
                   xdispatch::notification_mode m)
{
    xdispatch::qt5::connect(s, r, &vf_receiver::slot, q, m);
}

void
vf_qt_connect_lambda(xdispatch::signal<void(int)>& s,
                     QObject* r,
                     const xdispatch::signal<void(int)>::functor& f,
                     const xdispatch::queue& q,
                     xdispatch::notification_mode m)
{
    xdispatch::qt5::connect(s, r, f, q, m);
}

void
vf_qt_disconnect(xdispatch::signal<void(int)>& s, QObject* r)
{
    xdispatch::qt5::disconnect(s, r);
}
