// how a thread's runtime is started
#include <boost/fiber/all.hpp>
namespace use {
namespace start {
namespace f = boost::fibers;
f::context * first() { return f::context::active(); }
bool with( f::algo::algorithm::ptr_t a) { return f::initialize_thread( a, f::make_stack_allocator_wrapper< f::default_stack >() ); }
void algorithm() { f::use_scheduling_algorithm< f::algo::round_robin >(); }
}
int k_main() { return static_cast<int>(boost::fibers::type::main_context); }
int k_dispatcher() { return static_cast<int>(boost::fibers::type::dispatcher_context); }
}
