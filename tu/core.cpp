#include <chrono>
#include <mutex>
#include <boost/fiber/all.hpp>
#include <boost/fiber/detail/context_spinlock_queue.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>
#include "val.hpp"
namespace f = boost::fibers;
using SD = std::chrono::steady_clock::duration;
using SC = std::chrono::steady_clock;
using TP = std::chrono::time_point<SC, SD>;
using SYD = std::chrono::system_clock::duration;
using SYT = std::chrono::system_clock::time_point;
// a user-supplied lockable and predicate: every operation external and may throw
struct Lk { void lock(); void unlock(); };
struct Pred { Pred(Pred const&); ~Pred(); bool operator()(); int s[3]; };
using ULm = std::unique_lock<f::mutex>;
template void f::condition_variable_any::wait(Lk&);
template void f::condition_variable_any::wait(Lk&, Pred);
template f::cv_status f::condition_variable_any::wait_until(Lk&, TP const&);
template bool f::condition_variable_any::wait_until(Lk&, TP const&, Pred);
template f::cv_status f::condition_variable_any::wait_for(Lk&, SD const&);
template bool f::condition_variable_any::wait_for(Lk&, SD const&, Pred);
template void f::condition_variable::wait(ULm&, Pred);
template f::cv_status f::condition_variable::wait_until(ULm&, TP const&);
template bool f::condition_variable::wait_until(ULm&, TP const&, Pred);
template f::cv_status f::condition_variable::wait_for(ULm&, SD const&);
template bool f::condition_variable::wait_for(ULm&, SD const&, Pred);
template bool f::timed_mutex::try_lock_until(TP const&);
template bool f::timed_mutex::try_lock_for(SD const&);
template bool f::recursive_timed_mutex::try_lock_until(TP const&);
template bool f::recursive_timed_mutex::try_lock_for(SD const&);
template void boost::this_fiber::sleep_until(TP const&);
template void boost::this_fiber::sleep_until(SYT const&);
template void boost::this_fiber::sleep_for(SD const&);
template class f::fiber_specific_ptr<Val>;
struct Arg { Arg(Arg const&); Arg(Arg&&); ~Arg(); int s[3]; };
struct Body { Body(Body const&); Body(Body&&); ~Body(); void operator()(Arg); int s[3]; };
template class f::worker_context<Body, Arg>;
struct MyProps : f::fiber_properties { MyProps(f::context*c):fiber_properties(c){} int prio; };
struct MyAlgo : f::algo::algorithm_with_properties<MyProps> {
    void awakened(f::context*, MyProps&) noexcept override; f::context* pick_next() noexcept override;
    bool has_ready_fibers() const noexcept override; void suspend_until(TP const&) noexcept override; void notify() noexcept override;
};
namespace use {
void fib(Body b, Arg a) {
    f::fiber x{ b, a };
    f::fiber y{ f::launch::dispatch, b, a };
    f::fiber z{ f::launch::post, std::allocator_arg, f::fixedsize_stack{}, b, a };
    f::fiber m{ std::move(x) };
    m = std::move(y);
    m.properties<MyProps>();
    boost::this_fiber::properties<MyProps>();
    boost::this_fiber::yield();
    (void)boost::this_fiber::get_id();
    (void)f::has_ready_fibers();
    swap(m, z);
}
void sched() { f::use_scheduling_algorithm<f::algo::round_robin>(); }
void algo(MyAlgo& a, f::context* c) { a.f::algo::algorithm_with_properties<MyProps>::awakened(c); a.new_properties(c); a.properties(c); }
void fss(f::fiber_specific_ptr<Val>& p, Val* v) { p.reset(v); p.release(); p.get(); f::fiber_specific_ptr<Val> q; f::fiber_specific_ptr<Val> r{ [](Val*){} }; }
void chrono(SYT const& t) { f::timed_mutex m; (void)m.try_lock_until(t); }
f::detail::context_spmc_queue* q1() { return new f::detail::context_spmc_queue; }
void q1u(f::detail::context_spmc_queue& q, f::context* c) { q.push(c); q.pop(); q.steal(); q.empty(); delete &q; }
void q2u(f::detail::context_spinlock_queue& q, f::context* c) { q.push(c); q.pop(); q.steal(); q.empty(); delete &q; }
f::detail::context_spinlock_queue* q2() { return new f::detail::context_spinlock_queue{ 64 }; }
void ids(f::context::id a, f::context::id b) { (void)(a == b); (void)(a < b); (void)!a; }
}
