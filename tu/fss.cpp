// fiber_specific_ptr for an opaque element type, and client programs
#include <boost/fiber/all.hpp>
namespace use {
struct T { ~T(); };
void sink( T *);
namespace fss {
typedef boost::fibers::fiber_specific_ptr< T > ptr;
void custom_once( void(*fn)(T*), T * v) { ptr p( fn); p.reset( v); }
void custom_twice( void(*fn)(T*), T * v, T * w) { ptr p( fn); p.reset( v); p.reset( w); }
void custom_release( void(*fn)(T*), T * v) { ptr p( fn); p.reset( v); sink( p.release() ); }
void custom_get( void(*fn)(T*), T * v) { ptr p( fn); p.reset( v); sink( p.get() ); }
void default_once( T * v) { ptr p; p.reset( v); }
void default_twice( T * v, T * w) { ptr p; p.reset( v); p.reset( w); }
void default_release( T * v) { ptr p; p.reset( v); sink( p.release() ); }
}
}
template class boost::fibers::fiber_specific_ptr< use::T >;
