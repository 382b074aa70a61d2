// Algorithms that use properties; never executed.
#include <boost/fiber/all.hpp>
namespace use {
namespace f = boost::fibers;
struct Props : f::fiber_properties { Props( f::context * c) : fiber_properties( c) {} int prio{ 0 }; void set( int p); };
struct Algo : f::algo::algorithm_with_properties< Props > {
    void awakened( f::context *, Props &) noexcept override; f::context * pick_next() noexcept override; bool has_ready_fibers() const noexcept override;
    void property_change( f::context *, Props &) noexcept override;
    void suspend_until( std::chrono::steady_clock::time_point const&) noexcept override; void notify() noexcept override;
};
void Props::set( int p) { prio = p; notify(); }
struct Complete : Algo { virtual void key(); };
void Complete::key() {}
namespace props {
void ready( Algo & a, f::context * c) { a.f::algo::algorithm_with_properties< Props >::awakened( c); }
f::fiber_properties * make( Algo & a, f::context * c) { return a.f::algo::algorithm_with_properties< Props >::new_properties( c); }
Props & of( Algo & a, f::context * c) { return a.properties( c); }
void set( Props & p, int v) { p.set( v); }
Props & handle( f::fiber & x) { return x.properties< Props >(); }
Props & self() { return boost::this_fiber::properties< Props >(); }
}
}
