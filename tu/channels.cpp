// Instantiations of the channel templates for an element type whose every operation is
// external and may throw: what the analysis finds holds for every element type.
#include <chrono>
#include <boost/fiber/buffered_channel.hpp>
#include <boost/fiber/unbuffered_channel.hpp>
#include "val.hpp"
namespace f = boost::fibers;
using SD = std::chrono::steady_clock::duration;
using SC = std::chrono::steady_clock;
#define CHAN(C) \
template class f::C<Val>; \
template f::channel_op_status f::C<Val>::push_wait_for(Val const&, SD const&); \
template f::channel_op_status f::C<Val>::push_wait_for(Val &&, SD const&); \
template f::channel_op_status f::C<Val>::push_wait_until(Val const&, std::chrono::time_point<SC, SD> const&); \
template f::channel_op_status f::C<Val>::push_wait_until(Val &&, std::chrono::time_point<SC, SD> const&); \
template f::channel_op_status f::C<Val>::pop_wait_for(Val &, SD const&); \
template f::channel_op_status f::C<Val>::pop_wait_until(Val &, std::chrono::time_point<SC, SD> const&); \
template f::C<Val>::iterator f::begin(f::C<Val> &); \
template f::C<Val>::iterator f::end(f::C<Val> &);
CHAN(buffered_channel)
CHAN(unbuffered_channel)
namespace use {
#define K(x) int k_##x() { return static_cast<int>(f::channel_op_status::x); }
void take(Val &);
template<class C> bool visit(C & c) {       // the iterator is abandoned while it holds a value
    auto i = begin(c);
    if (i == end(c)) return false;
    take(*i);
    return true;
}
template bool visit(f::buffered_channel<Val> &);
template bool visit(f::unbuffered_channel<Val> &);
f::unbuffered_channel<Val> * make_unbuffered() { return new f::unbuffered_channel<Val>; }
K(success) K(empty) K(full) K(closed) K(timeout)
}
