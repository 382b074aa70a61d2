#include <chrono>
#include <mutex>
#include <boost/fiber/condition_variable.hpp>
namespace f = boost::fibers;
using SD = std::chrono::steady_clock::duration;
using SC = std::chrono::steady_clock;
using TP = std::chrono::time_point<SC, SD>;
// a user-supplied lockable and predicate: every operation external and may throw
struct Lk { void lock(); void unlock(); };
struct Pred { Pred(Pred const&); ~Pred(); bool operator()(); int s[3]; };
using ULm = std::unique_lock<f::mutex>;
template void f::condition_variable_any::wait(Lk&);
template void f::condition_variable_any::wait(Lk&, Pred);
template f::cv_status f::condition_variable_any::wait_until(Lk&, TP const&);
template bool f::condition_variable_any::wait_until(Lk&, TP const&, Pred);
template f::cv_status f::condition_variable_any::wait_for(Lk&, SD const&);
template bool f::condition_variable_any::wait_for(Lk&, SD const&, Pred);
template void f::condition_variable::wait(ULm&, Pred);
template f::cv_status f::condition_variable::wait_until(ULm&, TP const&);
template bool f::condition_variable::wait_until(ULm&, TP const&, Pred);
template f::cv_status f::condition_variable::wait_for(ULm&, SD const&);
template bool f::condition_variable::wait_for(ULm&, SD const&, Pred);
namespace use {
int k_timeout() { return static_cast<int>(f::cv_status::timeout); }
int k_no_timeout() { return static_cast<int>(f::cv_status::no_timeout); }
 void cv(f::condition_variable& c, ULm& l) { c.wait(l); c.notify_one(); c.notify_all(); (void)new f::condition_variable; } }
