// Launching fibers, one named function per form; never executed.
#include <boost/fiber/all.hpp>
#include "val.hpp"
namespace f = boost::fibers;
namespace use {
struct Fn { Fn(Fn const&); Fn(Fn&&); ~Fn(); void operator()(Val&&, int); };
struct Fn0 { Fn0(Fn0 const&); Fn0(Fn0&&); ~Fn0(); int operator()(); };
struct Stk {
    Stk(Stk const&); Stk(Stk&&); ~Stk();
    boost::context::stack_context allocate(); void deallocate(boost::context::stack_context&);
};
namespace spawn {
f::fiber policy_stack(f::launch p, Stk& s, Fn& fn, Val& v, int k) { return f::fiber(p, std::allocator_arg, s, fn, v, k); }
f::fiber policy_stack_move(f::launch p, Stk& s, Fn0& fn) { return f::fiber(p, std::allocator_arg, std::move(s), std::move(fn)); }
f::fiber props_stack(f::launch p, f::fiber_properties* pr, Stk& s, Fn0& fn) { return f::fiber(p, pr, std::allocator_arg, s, fn); }
f::fiber stack(Stk& s, Fn0& fn) { return f::fiber(std::allocator_arg, s, fn); }
f::fiber props_only_stack(f::fiber_properties* pr, Stk& s, Fn0& fn) { return f::fiber(pr, std::allocator_arg, s, fn); }
f::fiber plain(Fn0& fn) { return f::fiber(fn); }
f::fiber policy(f::launch p, Fn0& fn) { return f::fiber(p, fn); }
f::fiber props(f::fiber_properties* pr, Fn0& fn) { return f::fiber(pr, fn); }
f::fiber policy_props(f::launch p, f::fiber_properties* pr, Fn0& fn) { return f::fiber(p, pr, fn); }
}
int e_post() { return (int) f::launch::post; }
int e_dispatch() { return (int) f::launch::dispatch; }
}
