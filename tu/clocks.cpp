// Timed operations with deadlines on other clocks, one named function each; never executed.
#include <chrono>
#include <mutex>
#include <boost/fiber/all.hpp>
#include "val.hpp"
namespace f = boost::fibers;
struct Foreign {    // a user's clock
    using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = std::chrono::time_point<Foreign>;
    static constexpr bool is_steady = false;
    static time_point now() noexcept;
};
struct Lk { void lock(); void unlock(); };
struct Pred { Pred(Pred const&); ~Pred(); bool operator()(); int s[3]; };
using UL = std::unique_lock<f::mutex>;
using BC = f::buffered_channel<Val>; using UC = f::unbuffered_channel<Val>;
namespace use {
template<class T> struct Until {
    static void sleep(T const& t) { boost::this_fiber::sleep_until(t); }
    static bool timed_mutex(f::timed_mutex& m, T const& t) { return m.try_lock_until(t); }
    static bool recursive_timed_mutex(f::recursive_timed_mutex& m, T const& t) { return m.try_lock_until(t); }
    static f::cv_status cv(f::condition_variable& c, UL& l, T const& t) { return c.wait_until(l, t); }
    static bool cv_pred(f::condition_variable& c, UL& l, T const& t, Pred& p) { return c.wait_until(l, t, p); }
    static f::cv_status cv_any(f::condition_variable_any& c, Lk& l, T const& t) { return c.wait_until(l, t); }
    static bool cv_any_pred(f::condition_variable_any& c, Lk& l, T const& t, Pred& p) { return c.wait_until(l, t, p); }
    static f::future_status future(f::future<Val> const& o, T const& t) { return o.wait_until(t); }
    static f::future_status shared_future(f::shared_future<Val> const& o, T const& t) { return o.wait_until(t); }
    static f::channel_op_status bpush(BC& c, Val const& v, T const& t) { return c.push_wait_until(v, t); }
    static f::channel_op_status bpush_m(BC& c, Val& v, T const& t) { return c.push_wait_until(std::move(v), t); }
    static f::channel_op_status bpop(BC& c, Val& v, T const& t) { return c.pop_wait_until(v, t); }
    static f::channel_op_status upush(UC& c, Val const& v, T const& t) { return c.push_wait_until(v, t); }
    static f::channel_op_status upush_m(UC& c, Val& v, T const& t) { return c.push_wait_until(std::move(v), t); }
    static f::channel_op_status upop(UC& c, Val& v, T const& t) { return c.pop_wait_until(v, t); }
};
template struct Until<std::chrono::system_clock::time_point>;
template struct Until<std::chrono::steady_clock::time_point>;
template struct Until<Foreign::time_point>;
template<class D> struct For {
    static void sleep(D const& t) { boost::this_fiber::sleep_for(t); }
    static bool timed_mutex(f::timed_mutex& m, D const& t) { return m.try_lock_for(t); }
    static bool recursive_timed_mutex(f::recursive_timed_mutex& m, D const& t) { return m.try_lock_for(t); }
    static f::cv_status cv(f::condition_variable& c, UL& l, D const& t) { return c.wait_for(l, t); }
    static bool cv_pred(f::condition_variable& c, UL& l, D const& t, Pred& p) { return c.wait_for(l, t, p); }
    static f::cv_status cv_any(f::condition_variable_any& c, Lk& l, D const& t) { return c.wait_for(l, t); }
    static bool cv_any_pred(f::condition_variable_any& c, Lk& l, D const& t, Pred& p) { return c.wait_for(l, t, p); }
    static f::future_status future(f::future<Val> const& o, D const& t) { return o.wait_for(t); }
    static f::future_status shared_future(f::shared_future<Val> const& o, D const& t) { return o.wait_for(t); }
    static f::channel_op_status bpush(BC& c, Val const& v, D const& t) { return c.push_wait_for(v, t); }
    static f::channel_op_status bpush_m(BC& c, Val& v, D const& t) { return c.push_wait_for(std::move(v), t); }
    static f::channel_op_status bpop(BC& c, Val& v, D const& t) { return c.pop_wait_for(v, t); }
    static f::channel_op_status upush(UC& c, Val const& v, D const& t) { return c.push_wait_for(v, t); }
    static f::channel_op_status upush_m(UC& c, Val& v, D const& t) { return c.push_wait_for(std::move(v), t); }
    static f::channel_op_status upop(UC& c, Val& v, D const& t) { return c.pop_wait_for(v, t); }
};
template struct For<std::chrono::nanoseconds>;
template struct For<std::chrono::milliseconds>;
template struct For<std::chrono::seconds>;
}
