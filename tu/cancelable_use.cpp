// Makes clang emit the inline members of cancelable_scope. No code under test.
#include "xdispatch/impl/cancelable.h"

bool
vf_use_scope(xdispatch::cancelable& c)
{
    xdispatch::cancelable_scope scope(c);
    return scope;
}
