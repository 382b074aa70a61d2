#include <boost/fiber/mutex.hpp>
#include <boost/fiber/timed_mutex.hpp>
#include <boost/fiber/recursive_mutex.hpp>
#include <boost/fiber/recursive_timed_mutex.hpp>
namespace f = boost::fibers;
using SD = std::chrono::steady_clock::duration;
using TP = std::chrono::time_point<std::chrono::steady_clock, SD>;
template bool f::timed_mutex::try_lock_until(TP const&);
template bool f::timed_mutex::try_lock_for(SD const&);
template bool f::recursive_timed_mutex::try_lock_until(TP const&);
template bool f::recursive_timed_mutex::try_lock_for(SD const&);
namespace use {
f::mutex* a() { return new f::mutex; }
f::timed_mutex* b() { return new f::timed_mutex; }
f::recursive_mutex* c() { return new f::recursive_mutex; }
f::recursive_timed_mutex* d() { return new f::recursive_timed_mutex; }
}
