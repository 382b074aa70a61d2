// Kinds of fibers as the library encodes them; never executed.
#include <boost/fiber/type.hpp>
namespace use {
int k_main() { return static_cast<int>(boost::fibers::type::main_context); }
int k_dispatcher() { return static_cast<int>(boost::fibers::type::dispatcher_context); }
int k_worker() { return static_cast<int>(boost::fibers::type::worker_context); }
}
