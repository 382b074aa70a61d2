// Public operations of fiber handles, one named function each; never executed.
#include <boost/fiber/all.hpp>
#include "val.hpp"
namespace f = boost::fibers;
namespace use { namespace handle {
void dtor(f::fiber& a) { a.~fiber(); }
void ctor(void* n) { ::new (n) f::fiber; }
void mctor(void* n, f::fiber& o) { ::new (n) f::fiber{ std::move(o) }; }
void massign(f::fiber& a, f::fiber& b) { a = std::move(b); }
void swap_m(f::fiber& a, f::fiber& b) { a.swap(b); }
void swap_f(f::fiber& a, f::fiber& b) { swap(a, b); }
bool joinable(f::fiber const& a) { return a.joinable(); }
f::fiber::id get_id(f::fiber const& a) { return a.get_id(); }
void join(f::fiber& a) { a.join(); }
void detach(f::fiber& a) { a.detach(); }
}
int e_deadlock() { return (int) std::errc::resource_deadlock_would_occur; }
int e_invalid() { return (int) std::errc::invalid_argument; }
}
