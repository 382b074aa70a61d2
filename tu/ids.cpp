// fiber ids; never executed.
#include <boost/fiber/all.hpp>
namespace use {
namespace ids {
namespace f = boost::fibers;
typedef f::fiber::id id;
bool eq(id const& a, id const& b) { return a == b; }
bool ne(id const& a, id const& b) { return a != b; }
bool lt(id const& a, id const& b) { return a < b; }
bool gt(id const& a, id const& b) { return a > b; }
bool le(id const& a, id const& b) { return a <= b; }
bool ge(id const& a, id const& b) { return a >= b; }
bool yes(id const& a) { return static_cast<bool>(a); }
bool no(id const& a) { return !a; }
std::size_t hash(id const& a) { return std::hash<id>()(a); }
bool none() { return static_cast<bool>(id()); }
id me() { return boost::this_fiber::get_id(); }
id of(f::context const& c) { return c.get_id(); }
bool handles(f::fiber const& a, f::fiber const& b) { return a < b; }
bool fibers_eq(f::context const& a, f::context const& b) { return a == b; }
bool fibers_lt(f::context const& a, f::context const& b) { return a < b; }
}
}
