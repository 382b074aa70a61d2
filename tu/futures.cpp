// Public operations of promises, futures and packaged tasks, one named function each; never executed.
#include <chrono>
#include <memory>
#include <functional>
#include <boost/fiber/all.hpp>
#include "val.hpp"
namespace f = boost::fibers;
using SD = std::chrono::steady_clock::duration;
using TP = std::chrono::steady_clock::time_point;
template<class T> struct Al { // opaque stateful allocator
    using value_type = T;
    Al() noexcept; Al(Al const&) noexcept; template<class U> Al(Al<U> const&) noexcept; ~Al();
    T* allocate(std::size_t); void deallocate(T*, std::size_t) noexcept;
    template<class U> bool operator==(Al<U> const&) const noexcept { return true; }
    template<class U> bool operator!=(Al<U> const&) const noexcept { return false; }
    void* h;
};
struct Fn { Fn(Fn const&); Fn(Fn&&); ~Fn(); Val operator()(int); int s[3]; };
struct FnV { FnV(FnV const&); FnV(FnV&&); ~FnV(); void operator()(int); int s[3]; };
struct FnR { FnR(FnR const&); FnR(FnR&&); ~FnR(); Val& operator()(int); int s[3]; };
namespace use {
template<class T> struct Producer {
    using P = f::promise<T>;
    static void ctor(void* p) { ::new (p) P; }
    static void ctor_alloc(void* p, Al<P> const& a) { ::new (p) P{ std::allocator_arg, a }; }
    static void dtor(P& p) { p.~P(); }
    static void mctor(void* n, P& o) { ::new (n) P{ std::move(o) }; }
    static void massign(P& a, P& b) { a = std::move(b); }
    static void swap_m(P& a, P& b) { a.swap(b); }
    static void swap_f(P& a, P& b) { swap(a, b); }
    static void set_exception(P& p, std::exception_ptr const& e) { p.set_exception(e); }
    static f::future<T> get_future(P& p) { return p.get_future(); }
};
template struct Producer<Val>; template struct Producer<Val&>; template struct Producer<void>;
void set_value_c(f::promise<Val>& p, Val const& v) { p.set_value(v); }
void set_value_m(f::promise<Val>& p, Val& v) { p.set_value(std::move(v)); }
void set_value_r(f::promise<Val&>& p, Val& v) { p.set_value(v); }
void set_value_v(f::promise<void>& p) { p.set_value(); }
template<class T> struct Consumer {
    using F = f::future<T>; using S = f::shared_future<T>;
    static void dtor(F& o) { o.~F(); }
    static void sdtor(S& o) { o.~S(); }
    static void mctor(void* n, F& o) { ::new (n) F{ std::move(o) }; }
    static void smctor(void* n, S& o) { ::new (n) S{ std::move(o) }; }
    static void scctor(void* n, S const& o) { ::new (n) S{ o }; }
    static void sfctor(void* n, F& o) { ::new (n) S{ std::move(o) }; }
    static void massign(F& a, F& b) { a = std::move(b); }
    static void smassign(S& a, S& b) { a = std::move(b); }
    static void scassign(S& a, S const& b) { a = b; }
    static void sfassign(S& a, F& b) { a = std::move(b); }
    static bool valid(F const& o) { return o.valid(); }
    static bool svalid(S const& o) { return o.valid(); }
    static S share(F& o) { return o.share(); }
    static void wait(F const& o) { o.wait(); }
    static void swait(S const& o) { o.wait(); }
    static f::future_status wait_for(F const& o, SD const& d) { return o.wait_for(d); }
    static f::future_status swait_for(S const& o, SD const& d) { return o.wait_for(d); }
    static f::future_status wait_until(F const& o, TP const& t) { return o.wait_until(t); }
    static f::future_status swait_until(S const& o, TP const& t) { return o.wait_until(t); }
    static std::exception_ptr get_exception_ptr(F& o) { return o.get_exception_ptr(); }
    static std::exception_ptr sget_exception_ptr(S& o) { return o.get_exception_ptr(); }
    static decltype(auto) get(F& o) { return o.get(); }
    static decltype(auto) sget(S const& o) { return o.get(); }
};
template struct Consumer<Val>; template struct Consumer<Val&>; template struct Consumer<void>;
template<class R, class C> struct Task {
    using T = f::packaged_task<R(int)>;
    static void ctor(void* n, C& fn) { ::new (n) T{ fn }; }
    static void ctor_move(void* n, C& fn) { ::new (n) T{ std::move(fn) }; }
    static void ctor_alloc(void* n, Al<T> const& a, C& fn) { ::new (n) T{ std::allocator_arg, a, fn }; }
    static void dtor(T& t) { t.~T(); }
    static void mctor(void* n, T& o) { ::new (n) T{ std::move(o) }; }
    static void massign(T& a, T& b) { a = std::move(b); }
    static void swap_m(T& a, T& b) { a.swap(b); }
    static void swap_f(T& a, T& b) { swap(a, b); }
    static bool valid(T const& o) { return o.valid(); }
    static f::future<R> get_future(T& t) { return t.get_future(); }
    static void call(T& t, int a) { t(a); }
    static void reset(T& t) { t.reset(); }
};
template struct Task<Val, Fn>; template struct Task<Val&, FnR>; template struct Task<void, FnV>;
using A1 = Al<f::packaged_task<Val(int)>>;
f::future<Val> async_plain(Fn& fn, int a) { return f::async(fn, a); }
f::future<Val> async_policy(f::launch p, Fn& fn, int a) { return f::async(p, fn, a); }
f::future<Val> async_stack(f::launch p, f::fixedsize_stack const& s, Fn& fn, int a) { return f::async(p, std::allocator_arg, s, fn, a); }
f::future<Val> async_alloc(f::launch p, f::fixedsize_stack const& s, A1 const& al, Fn& fn, int a) { return f::async(p, std::allocator_arg, s, al, fn, a); }
f::future_status st_ready() { return f::future_status::ready; }
f::future_status st_timeout() { return f::future_status::timeout; }
void errors(void* n) {
    ::new (n) f::broken_promise; ::new (n) f::future_uninitialized; ::new (n) f::promise_uninitialized; ::new (n) f::packaged_task_uninitialized;
    ::new (n) f::future_already_retrieved; ::new (n) f::promise_already_satisfied;
}
int e_broken() { return (int) f::future_errc::broken_promise; }
int e_retrieved() { return (int) f::future_errc::future_already_retrieved; }
int e_satisfied() { return (int) f::future_errc::promise_already_satisfied; }
int e_nostate() { return (int) f::future_errc::no_state; }
}
