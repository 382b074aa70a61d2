// Every spinlock variant, one named function per operation; never executed.
#include <boost/fiber/detail/config.hpp>
#include <boost/fiber/detail/spinlock.hpp>
#include <boost/fiber/detail/spinlock_ttas.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive.hpp>
#include <boost/fiber/detail/spinlock_ttas_futex.hpp>
#include <boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp>
#include <boost/fiber/detail/spinlock_rtm.hpp>
#include <new>
namespace d = boost::fibers::detail;
#define V(NAME, T) \
    void NAME##__lock(T& l) { l.lock(); } \
    bool NAME##__try_lock(T& l) { return l.try_lock(); } \
    void NAME##__unlock(T& l) { l.unlock(); } \
    void NAME##__init(void* p) { new (p) T; }
namespace use { namespace spin {
V(ttas, d::spinlock_ttas)
V(ttas_adaptive, d::spinlock_ttas_adaptive)
V(ttas_futex, d::spinlock_ttas_futex)
V(ttas_adaptive_futex, d::spinlock_ttas_adaptive_futex)
V(rtm_ttas, d::spinlock_rtm< d::spinlock_ttas >)
V(rtm_ttas_adaptive, d::spinlock_rtm< d::spinlock_ttas_adaptive >)
V(rtm_ttas_futex, d::spinlock_rtm< d::spinlock_ttas_futex >)
V(rtm_ttas_adaptive_futex, d::spinlock_rtm< d::spinlock_ttas_adaptive_futex >)
} }
