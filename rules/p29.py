"""The compiler's own type checker decides this property.  A generated translation unit states each guarantee about a public type as a static assertion (which types can be copied, moved, swapped,
converted, which operations may not throw, what each operation returns, which enumerators exist and differ, which class an error derives from); programs that must not compile are handed to
the front end one by one together with a twin that differs in the misuse alone and must compile, so that a rejection is attributable to the misuse.  Decided per language standard and by two compilers."""
import os, re, concurrent.futures as cf
from .p31 import cc, first_error
TECH = 'type-level witnesses: static assertions on the public types and compile-fail programs with compiling twins'
ASSUME = ['move operations declared noexcept do not throw because a throwing one would terminate: what they do is decided by P09, P10 and P03']
M = 'M1 move-only types can be moved without throwing and not copied'
N = 'M2 synchronisation objects and channels can be neither copied nor moved'
SH = 'M3 shared futures can be copied and taken from futures by moving only'
EN = 'M4 the documented enumerators exist and differ'
ER = 'M5 error types derive from the documented bases'
RT = 'M6 operations have the documented types'
AC = 'M7 move-only callables and arguments are accepted'
MIS = 'M8 misuse does not compile'
PRE = '''#include <boost/fiber/all.hpp>
#include <chrono>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
using namespace boost::fibers;
namespace w {
struct any { template<class T> operator T&&() const; };
struct mo { mo(); mo(int); mo(mo&&) = default; mo& operator=(mo&&) = default; std::unique_ptr<int> p; };
template<class...> struct mk { typedef void type; };
template<class T, class U> constexpr bool same() { return std::is_same<T, U>::value; }
template<class T> constexpr bool copies() { return std::is_copy_constructible<T>::value || std::is_copy_assignable<T>::value || std::is_constructible<T, T&>::value || std::is_assignable<T&, T&>::value; }
template<class T> constexpr bool moves() { return std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value; }
template<class T> constexpr bool still() { return !copies<T>() && !std::is_move_constructible<T>::value && !std::is_move_assignable<T>::value; }
template<class T> T& lv() noexcept;
template<class B, class D> constexpr bool derives() { return std::is_base_of<B, D>::value && std::is_convertible<D*, B*>::value; }
struct call1 { void operator()(std::unique_ptr<int>) {} call1(call1&&) = default; call1() = default; std::unique_ptr<int> own; };
struct rb { template<class T> rb(T&&); };
typedef std::chrono::steady_clock::time_point TP;
typedef std::chrono::milliseconds MS;
'''


def asserts():
    out = []        # (rule, subject, condition)
    mo = ['fiber'] + ['%s<%s>' % (t, r) for t in ('promise', 'future') for r in ('int', 'int&', 'void', 'mo', 'std::string')] + \
        ['packaged_task<%s>' % s for s in ('int()', 'void(int)', 'int&(mo)', 'mo(std::string)')]
    for t in mo:
        out.append((M, t, '!copies<%s>()' % t))
        out.append((M, t, 'moves<%s>()' % t))
        out.append((M, t, 'std::is_nothrow_default_constructible<%s>::value || std::is_default_constructible<%s>::value' % (t, t)))
        out.append((M, t, '!std::is_constructible<%s, %s const&>::value && !std::is_constructible<%s, %s const>::value' % (t, t, t, t)))
        if not t.startswith('future'):
            out.append((M, t, 'noexcept(lv<%s>().swap(lv<%s>()))' % (t, t)))
            out.append((M, t, 'noexcept(swap(lv<%s>(), lv<%s>()))' % (t, t)))
    still = ['mutex', 'timed_mutex', 'recursive_mutex', 'recursive_timed_mutex', 'condition_variable', 'condition_variable_any', 'barrier'] + \
        ['%s<%s>' % (c, v) for c in ('buffered_channel', 'unbuffered_channel') for v in ('int', 'mo', 'std::string', 'int*')] + \
        ['fiber_specific_ptr<int>', 'fiber_specific_ptr<mo>', 'context', 'scheduler', 'fiber_properties']
    for t in still:
        if t in ('fiber_properties',):
            continue
        out.append((N, t, 'still<%s>()' % t))
    for t in ('mutex', 'timed_mutex', 'recursive_mutex', 'recursive_timed_mutex', 'condition_variable', 'condition_variable_any', 'fiber_specific_ptr<int>'):
        out.append((N, t, 'std::is_default_constructible<%s>::value' % t))
    for c in ('buffered_channel<int>', 'unbuffered_channel<int>'):
        out.append((N, c, '!std::is_convertible<std::size_t, %s>::value' % c))
    out.append((N, 'barrier', '!std::is_convertible<std::size_t, barrier>::value && !std::is_default_constructible<barrier>::value'))
    out.append((N, 'buffered_channel<int>', '!std::is_default_constructible<buffered_channel<int>>::value && std::is_constructible<buffered_channel<int>, std::size_t>::value'))
    for r in ('int', 'int&', 'void', 'mo', 'std::string'):
        s, f = 'shared_future<%s>' % r, 'future<%s>' % r
        out += [(SH, s, 'std::is_copy_constructible<%s>::value && std::is_copy_assignable<%s>::value && moves<%s>()' % (s, s, s)),
                (SH, s, 'std::is_constructible<%s, %s>::value && !std::is_constructible<%s, %s&>::value && !std::is_constructible<%s, %s const&>::value' % (s, f, s, f, s, f)),
                (SH, s, 'std::is_assignable<%s&, %s>::value && !std::is_assignable<%s&, %s&>::value' % (s, f, s, f)),
                (SH, s, 'std::is_nothrow_constructible<%s, %s>::value' % (s, f)),
                (SH, s, '!std::is_constructible<%s, %s>::value && !std::is_constructible<%s, %s&>::value' % (f, s, f, s)),
                (RT, f, 'same<decltype(lv<%s>().share()), %s>()' % (f, s)),
                (RT, f, 'same<decltype(lv<%s>().get()), %s>()' % (f, r)),
                (RT, s, 'same<decltype(lv<%s const>().get()), %s>()' % (s, {'int&': 'int&', 'void': 'void'}.get(r, r + ' const&'))),
                (RT, 'promise<%s>' % r, 'same<decltype(lv<promise<%s>>().get_future()), %s>()' % (r, f))]
        for t in (s, f):
            out += [(RT, t, 'noexcept(lv<%s const>().valid()) && same<decltype(lv<%s const>().valid()), bool>()' % (t, t)),
                    (RT, t, 'same<decltype(lv<%s const>().wait()), void>()' % t),
                    (RT, t, 'same<decltype(lv<%s const>().wait_for(MS(1))), future_status>()' % t),
                    (RT, t, 'same<decltype(lv<%s const>().wait_until(lv<TP>())), future_status>()' % t),
                    (RT, t, 'same<decltype(lv<%s>().get_exception_ptr()), std::exception_ptr>()' % t)]
    # enumerations
    for e, names, extra in (('channel_op_status', ['success', 'empty', 'full', 'closed', 'timeout'], []), ('cv_status', ['no_timeout', 'timeout'], []),
                            ('future_status', ['ready', 'timeout', 'deferred'], []), ('launch', ['dispatch', 'post'], []),
                            ('future_errc', ['broken_promise', 'future_already_retrieved', 'promise_already_satisfied', 'no_state'], [])):
        out.append((EN, e, 'std::is_enum<%s>::value && !std::is_convertible<%s, int>::value' % (e, e)))
        for i, a in enumerate(names):
            out.append((EN, e, 'same<decltype(%s::%s), %s>()' % (e, a, e)))
            for b in names[i + 1:]:
                out.append((EN, e, '%s::%s != %s::%s' % (e, a, e, b)))
    for a in ('broken_promise', 'future_already_retrieved', 'promise_already_satisfied', 'no_state'):
        out.append((EN, 'future_errc', 'static_cast<int>(future_errc::%s) != 0' % a))          # zero means no error
    out.append((EN, 'future_errc', 'std::is_error_code_enum<future_errc>::value && std::is_convertible<future_errc, std::error_code>::value'))
    out.append((EN, 'future_category', 'same<decltype(future_category()), std::error_category const&>() && noexcept(future_category())'))
    # errors
    for d, b in (('fiber_error', 'std::system_error'), ('lock_error', 'fiber_error'), ('future_error', 'fiber_error'), ('future_uninitialized', 'future_error'),
                 ('future_already_retrieved', 'future_error'), ('broken_promise', 'future_error'), ('promise_already_satisfied', 'future_error'),
                 ('promise_uninitialized', 'future_error'), ('packaged_task_uninitialized', 'future_error')):
        out.append((ER, d, 'derives<%s, %s>() && derives<std::exception, %s>()' % (b, d, d)))
        out.append((ER, d, 'std::is_copy_constructible<%s>::value' % d))
    for a in ('lock_error', 'future_error'):
        for b in ('lock_error', 'future_error'):
            if a != b:
                out.append((ER, a, '!std::is_base_of<%s, %s>::value' % (a, b)))
    kinds = ['future_uninitialized', 'future_already_retrieved', 'broken_promise', 'promise_already_satisfied', 'promise_uninitialized', 'packaged_task_uninitialized']
    for a in kinds:
        out.append((ER, a, 'std::is_default_constructible<%s>::value' % a))
        for b in kinds:
            if a != b:
                out.append((ER, a, '!std::is_base_of<%s, %s>::value' % (a, b)))
    for e in ('fiber_error', 'lock_error', 'future_error'):
        out.append((ER, e, '!std::is_convertible<std::error_code, %s>::value && std::is_constructible<%s, std::error_code>::value' % (e, e)))
    # channel and lock operations
    for c in ('buffered_channel', 'unbuffered_channel'):
        for v in ('int', 'mo'):
            t = '%s<%s>' % (c, v)
            X = [('push(%s(1))' % v, 'channel_op_status'), ('push_wait_for(%s(1), MS(1))' % v, 'channel_op_status'),
                 ('push_wait_until(%s(1), lv<TP>())' % v, 'channel_op_status'), ('pop(lv<%s>())' % v, 'channel_op_status'), ('value_pop()', v),
                 ('pop_wait_for(lv<%s>(), MS(1))' % v, 'channel_op_status'), ('pop_wait_until(lv<%s>(), lv<TP>())' % v, 'channel_op_status'), ('close()', 'void')]
            if c[0] == 'b':
                X += [('try_push(%s(1))' % v, 'channel_op_status'), ('try_pop(lv<%s>())' % v, 'channel_op_status')]
            for e, r in X:
                out.append((RT, t, 'same<decltype(lv<%s>().%s), %s>()' % (t, e, r)))
            out += [(RT, t, 'noexcept(lv<%s>().close())' % t), (RT, t, 'same<%s::value_type, %s>()' % (t, v)),
                    (RT, t, 'std::is_convertible<decltype(begin(lv<%s>()))::iterator_category, std::input_iterator_tag>::value' % t),
                    (RT, t, 'same<decltype(*begin(lv<%s>())), %s&>()' % (t, v)),
                    (RT, t, 'same<decltype(begin(lv<%s>())), decltype(end(lv<%s>()))>()' % (t, t)),
                    (RT, t, 'same<decltype(begin(lv<%s>()) == end(lv<%s>())), bool>() && same<decltype(begin(lv<%s>()) != end(lv<%s>())), bool>()' % (t, t, t, t))]
    for m in ('mutex', 'timed_mutex', 'recursive_mutex', 'recursive_timed_mutex'):
        out += [(RT, m, 'same<decltype(lv<%s>().lock()), void>() && same<decltype(lv<%s>().unlock()), void>() && same<decltype(lv<%s>().try_lock()), bool>()' % (m, m, m))]
        if 'timed' in m:
            out += [(RT, m, 'same<decltype(lv<%s>().try_lock_for(MS(1))), bool>() && same<decltype(lv<%s>().try_lock_until(lv<TP>())), bool>()' % (m, m))]
    for cv, lk in (('condition_variable', 'std::unique_lock<mutex>'), ('condition_variable_any', 'std::unique_lock<std::mutex>'), ('condition_variable_any', 'timed_mutex'),
                   ('condition_variable_any', 'std::unique_lock<recursive_mutex>')):
        for e, r in (('wait(lv<%s>())', 'void'), ('wait_for(lv<%s>(), MS(1))', 'cv_status'), ('wait_until(lv<%s>(), lv<TP>())', 'cv_status'),
                     ('wait_for(lv<%s>(), MS(1), lv<bool()>())', 'bool'), ('wait_until(lv<%s>(), lv<TP>(), lv<bool()>())', 'bool'), ('wait(lv<%s>(), lv<bool()>())', 'void')):
            out.append((RT, cv, 'same<decltype(lv<%s>().%s), %s>()' % (cv, e % lk, r)))
        out.append((RT, cv, 'noexcept(lv<%s>().notify_one()) && noexcept(lv<%s>().notify_all())' % (cv, cv)))
    out += [(RT, 'barrier', 'same<decltype(lv<barrier>().wait()), bool>()'),
            (RT, 'fiber', 'noexcept(lv<fiber const>().get_id()) && noexcept(lv<fiber const>().joinable()) && same<decltype(lv<fiber const>().joinable()), bool>()'),
            (RT, 'fiber', 'same<decltype(lv<fiber const>().get_id()), fiber::id>() && std::is_copy_constructible<fiber::id>::value && std::is_default_constructible<fiber::id>::value'),
            (RT, 'fiber', 'same<decltype(lv<fiber::id>() == lv<fiber::id>()), bool>() && same<decltype(lv<fiber::id>() < lv<fiber::id>()), bool>()'),
            (RT, 'fiber', 'same<decltype(boost::this_fiber::get_id()), fiber::id>() && noexcept(boost::this_fiber::get_id()) && noexcept(boost::this_fiber::yield())'),
            (RT, 'fiber', '!std::is_constructible<bool, fiber>::value'),
            (RT, 'packaged_task', 'noexcept(lv<packaged_task<int()> const>().valid()) && same<decltype(lv<packaged_task<int()>>().get_future()), future<int>>()'),
            (RT, 'packaged_task', 'same<decltype(lv<packaged_task<int()>>()()), void>() && same<decltype(lv<packaged_task<int&(mo)>>()(mo(1))), void>()'),
            (RT, 'fiber_specific_ptr', 'same<decltype(lv<fiber_specific_ptr<int> const>().get()), int*>() && same<decltype(lv<fiber_specific_ptr<int>>().release()), int*>()'),
            (RT, 'fiber_specific_ptr', 'same<decltype(*lv<fiber_specific_ptr<int> const>()), int&>()')]
    for f, r in (('int(*)()', 'int'), ('int&(*)()', 'int&'), ('void(*)()', 'void'), ('mo(*)()', 'mo')):
        out.append((RT, 'async', 'same<decltype(boost::fibers::async(std::declval<%s>())), future<%s>>()' % (f, r)))
        for pol in ('launch::post', 'launch::dispatch'):
            out.append((RT, 'async', 'same<decltype(boost::fibers::async(%s, std::declval<%s>())), future<%s>>()' % (pol, f, r)))
            out.append((RT, 'async', 'same<decltype(boost::fibers::async(%s, std::allocator_arg, default_stack(), std::declval<%s>())), future<%s>>()' % (pol, f, r)))
    out.append((AC, 'async', 'same<decltype(boost::fibers::async(call1(), std::unique_ptr<int>())), future<void>>()'))
    out.append((AC, 'fiber', 'std::is_constructible<fiber, call1, std::unique_ptr<int>>::value && std::is_constructible<fiber, launch, call1, std::unique_ptr<int>>::value'))
    out.append((AC, 'fiber', 'std::is_constructible<fiber, std::allocator_arg_t, default_stack, call1, std::unique_ptr<int>>::value'))
    out.append((AC, 'fiber', 'std::is_constructible<fiber, launch, std::allocator_arg_t, default_stack, call1, std::unique_ptr<int>>::value'))
    out.append((AC, 'packaged_task', 'std::is_constructible<packaged_task<void(std::unique_ptr<int>)>, call1>::value'))
    out.append((AC, 'packaged_task', 'std::is_constructible<packaged_task<void(std::unique_ptr<int>)>, std::allocator_arg_t, std::allocator<int>, call1>::value'))
    return out


# programs: the misuse, and the twin that must compile
PAIRS = [
    ('fiber copied', 'fiber f{ []{} }; fiber g{ f };', 'fiber f{ []{} }; fiber g{ std::move( f) };'),
    ('fiber copy assigned', 'fiber f{ []{} }; fiber g; g = f;', 'fiber f{ []{} }; fiber g; g = std::move( f);'),
    ('move-only argument passed as lvalue', 'std::unique_ptr<int> p; fiber f{ []( std::unique_ptr<int>){}, p };', 'std::unique_ptr<int> p; fiber f{ []( std::unique_ptr<int>){}, std::move( p) };'),
    ('fiber function called with the wrong argument', 'fiber f{ []( int*){}, std::string() };', 'fiber f{ []( int*){}, static_cast<int*>( nullptr) };'),
    ('fiber function called with too few arguments', 'fiber f{ []( int*){} };', 'fiber f{ []{} };'),
    ('fiber of a value that is no function', 'fiber f{ 7 };', 'fiber f{ []{} };'),
    ('dispatched fiber with too few arguments', 'fiber f{ launch::dispatch, []( int){} };', 'fiber f{ launch::dispatch, []( int){}, 1 };'),
    ('promise copied', 'promise<int> p; promise<int> q{ p };', 'promise<int> p; promise<int> q{ std::move( p) };'),
    ('promise of another type set', 'promise<int*> p; p.set_value( std::string() );', 'promise<int*> p; p.set_value( nullptr);'),
    ('void promise given a value', 'promise<void> p; p.set_value( 1);', 'promise<void> p; p.set_value();'),
    ('reference promise given a temporary', 'promise<int&> p; p.set_value( 1);', 'int i = 0; promise<int&> p; p.set_value( i);'),
    ('move-only value given as lvalue', 'promise<w::mo> p; w::mo m( 1); p.set_value( m);', 'promise<w::mo> p; w::mo m( 1); p.set_value( std::move( m));'),
    ('future copied', 'promise<int> p; future<int> f = p.get_future(); future<int> g{ f };', 'promise<int> p; future<int> f = p.get_future(); future<int> g{ std::move( f) };'),
    ('shared future taken from a future without moving', 'promise<int> p; future<int> f = p.get_future(); shared_future<int> g{ f };', 'promise<int> p; future<int> f = p.get_future(); shared_future<int> g{ std::move( f) };'),
    ('shared value modified', 'promise<int> p; shared_future<int> f = p.get_future(); f.get() = 1;', 'promise<int> p; shared_future<int> f = p.get_future(); int i = f.get(); (void)i;'),
    ('packaged task copied', 'packaged_task<int()> t{ []{ return 1; } }; packaged_task<int()> u{ t };', 'packaged_task<int()> t{ []{ return 1; } }; packaged_task<int()> u{ std::move( t) };'),
    ('packaged task called with the wrong argument', 'packaged_task<int( int*)> t{ []( int*){ return 1; } }; t( std::string() );', 'packaged_task<int( int*)> t{ []( int*){ return 1; } }; t( nullptr);'),
    ('packaged task of another result', 'packaged_task<int*()> t{ []{ return std::string(); } };', 'packaged_task<int*()> t{ []{ return static_cast<int*>( nullptr); } };'),
    ('async with too few arguments', 'boost::fibers::async( []( int){});', 'boost::fibers::async( []( int){}, 1);'),
    ('mutex copied', 'mutex m; mutex n{ m };', 'mutex m; std::unique_lock<mutex> l{ m };'),
    ('mutex moved', 'mutex m; mutex n{ std::move( m) };', 'mutex m; std::unique_lock<mutex> l{ m }; std::unique_lock<mutex> k{ std::move( l) };'),
    ('untimed mutex with a timeout', 'mutex m; m.try_lock_for( w::MS( 1));', 'timed_mutex m; m.try_lock_for( w::MS( 1));'),
    ('untimed recursive mutex with a timeout', 'recursive_mutex m; m.try_lock_until( w::TP());', 'recursive_timed_mutex m; m.try_lock_until( w::TP());'),
    ('condition variable with a lock of another mutex', 'std::mutex m; std::unique_lock<std::mutex> l{ m }; condition_variable c; c.wait( l);', 'mutex m; std::unique_lock<mutex> l{ m }; condition_variable c; c.wait( l);'),
    ('condition variable with a bare mutex', 'mutex m; condition_variable c; c.wait( m);', 'mutex m; condition_variable_any c; c.wait( m);'),
    ('condition variable with a temporary lock', 'mutex m; condition_variable c; c.wait( std::unique_lock<mutex>( m));', 'mutex m; std::unique_lock<mutex> l( m); condition_variable c; c.wait( l);'),
    ('predicate without a truth value', 'mutex m; std::unique_lock<mutex> l( m); condition_variable c; c.wait( l, []{});', 'mutex m; std::unique_lock<mutex> l( m); condition_variable c; c.wait( l, []{ return true; });'),
    ('barrier without a count', 'barrier b;', 'barrier b{ 2 };'),
    ('barrier copied', 'barrier b{ 2 }; barrier c{ b };', 'barrier b{ 2 };'),
    ('channel copied', 'buffered_channel<int> c{ 2 }; buffered_channel<int> d{ c };', 'buffered_channel<int> c{ 2 };'),
    ('channel moved', 'unbuffered_channel<int> c; unbuffered_channel<int> d{ std::move( c) };', 'unbuffered_channel<int> c;'),
    ('channel pushed another type', 'buffered_channel<int*> c{ 2 }; c.push( std::string() );', 'buffered_channel<int*> c{ 2 }; c.push( nullptr);'),
    ('unbuffered channel pushed another type', 'unbuffered_channel<int*> c; c.push( std::string() );', 'unbuffered_channel<int*> c; c.push( nullptr);'),
    ('move-only value pushed as lvalue', 'buffered_channel<w::mo> c{ 2 }; w::mo m( 1); c.push( m);', 'buffered_channel<w::mo> c{ 2 }; w::mo m( 1); c.push( std::move( m));'),
    ('move-only value pushed to an unbuffered channel as lvalue', 'unbuffered_channel<w::mo> c; w::mo m( 1); c.push( m);', 'unbuffered_channel<w::mo> c; w::mo m( 1); c.push( std::move( m));'),
    ('channel popped into another type', 'buffered_channel<int> c{ 2 }; std::string s; c.pop( s);', 'buffered_channel<int> c{ 2 }; int s; c.pop( s);'),
    ('channel popped into a constant', 'buffered_channel<int> c{ 2 }; int const s = 0; c.pop( s);', 'buffered_channel<int> c{ 2 }; int s = 0; c.pop( s);'),
    ('fiber specific pointer copied', 'fiber_specific_ptr<int> p; fiber_specific_ptr<int> q{ p };', 'fiber_specific_ptr<int> p;'),
    ('fiber specific pointer of another type', 'fiber_specific_ptr<int> p; p.reset( new std::string());', 'fiber_specific_ptr<int> p; p.reset( new int());'),
    ('status compared with an integer', 'channel_op_status s = channel_op_status::success; if ( s == 0) {}', 'channel_op_status s = channel_op_status::success; if ( s == channel_op_status::full) {}'),
    ('status used as a truth value', 'buffered_channel<int> c{ 2 }; if ( c.try_push( 1)) {}', 'buffered_channel<int> c{ 2 }; if ( c.try_push( 1) == channel_op_status::success) {}'),
    ('algorithm that is none installed', 'use_scheduling_algorithm<std::string>();', 'use_scheduling_algorithm<algo::round_robin>();'),
    ('properties of a type that are none', 'struct A : algo::algorithm_with_properties<std::string> {}; A* a = nullptr; (void)sizeof( A); a->awakened( nullptr, lv<std::string>());',
     'struct P : fiber_properties { P( context* c) : fiber_properties( c) {} }; fiber f{ []{} }; (void)sizeof( P); f.join();'),
]
PAIRS = [p for p in PAIRS if 'lv<' not in p[1]]


def run(ctx):
    A = asserts()
    d = ctx.ws.dir
    src = os.path.join(d, 'witness.cpp')
    lines = PRE.rstrip('\n').split('\n')
    at = {}
    for rule, subj, cond in A:
        lines.append('static_assert(%s, "witness");' % cond)
        at[len(lines)] = (rule, subj, cond)
    lines.append('}')
    open(src, 'w').write('\n'.join(lines) + '\n')
    pool = cf.ThreadPoolExecutor(8)
    stds = [('clang++', 'c++11'), ('g++', 'c++17')] if ctx.tier == 'quick' else [(c, s) for c in ('clang++', 'g++') for s in ('c++11', 'c++14', 'c++17', 'c++20')]
    jobs = []
    lim = {'clang++': ['-ferror-limit=0'], 'g++': ['-fmax-errors=0']}
    for cxx, std in stds:
        jobs.append(('assert', None, cxx, std, pool.submit(cc, ctx, cxx, std, lim[cxx], src)))
    progs = []
    for i, (name, bad, good) in enumerate(PAIRS):
        for kind, body in (('bad', bad), ('good', good)):
            p = os.path.join(d, 'prog_%d_%s.cpp' % (i, kind))
            open(p, 'w').write(PRE + '}\nvoid program() { %s }\n' % body)
            for cxx, std in stds[:1] if ctx.tier == 'quick' else [stds[0], ('g++', 'c++17')]:
                jobs.append((kind, name, cxx, std, pool.submit(cc, ctx, cxx, std, [], p)))
    res = {}
    seen = set()
    for kind, name, cxx, std, f in jobs:
        rc, err = f.result()
        ctx.entries.append('%s [%s %s]' % (name or '%d assertions' % len(A), cxx, std))
        if kind == 'assert':
            hit = 0
            for l in err.splitlines():
                m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
                if not m:
                    continue
                hit += 1
                if m.group(1) == src and int(m.group(2)) in at:
                    rule, subj, cond = at[int(m.group(2))]
                    msg = 'does not hold' if 'static' in m.group(3) else m.group(3)[:120]
                    if (rule, subj, cond) not in seen:
                        seen.add((rule, subj, cond))
                        ctx.violation(rule, subj, '%s %s: %s [%s]' % (cxx, std, cond, msg), where(ctx, subj))
                elif ('other', m.group(3)) not in seen:
                    # an error inside a header while an assertion was being decided: the required-from notes name the assertion
                    seen.add(('other', m.group(3)))
                    loc, msg = first_error(l, ctx.repo)
                    ctx.violation(RT, 'instantiation', '%s %s: the witness does not compile: %s' % (cxx, std, msg), loc)
            if rc and not hit:
                ctx.violation(RT, 'instantiation', '%s %s: the witness does not compile: %s' % (cxx, std, err[-160:]), '?')
            for rule, subj, cond in A:
                ctx.ok(rule, subj + ': ' + cond)
        else:
            res[(name, cxx, std, kind)] = (rc, err)
    for name, bad, good in PAIRS:
        for (n, cxx, std, kind), (rc, err) in list(res.items()):
            if n != name or kind != 'bad':
                continue
            ctx.ok(MIS, name)
            grc, gerr = res[(n, cxx, std, 'good')]
            if grc:
                loc, msg = first_error(gerr, ctx.repo)
                ctx.violation(MIS, name, '%s %s: the correct use does not compile either: %s: %s' % (cxx, std, good, msg), loc)
            elif rc == 0:
                ctx.violation(MIS, name, '%s %s accepts: %s' % (cxx, std, bad), where(ctx, name))
    n = {}
    for rule, subj, cond in A:
        n[rule] = n.get(rule, 0) + 1
    for rule in (M, N, SH, EN, ER, RT, AC):
        ctx.require(rule, n[rule] * 9 // 10)
    ctx.require(MIS, len(PAIRS))
    ctx.sample('compilers and standards: ' + ', '.join('%s %s' % s for s in stds))
    for rule in (M, N, SH, EN, ER, RT, AC):
        x = [a for a in A if a[0] == rule]
        ctx.sample('%s: %d assertions, such as %s' % (rule, len(x), x[0][2]))
    ctx.sample('%s: %d programs, each with a twin that compiles' % (MIS, len(PAIRS)))


def where(ctx, subj):
    """the class definition the assertion is about"""
    t = re.match(r'\w+', subj).group(0)
    inc = os.path.join(ctx.repo, 'include/boost/fiber')
    for dd, _, fs in sorted(os.walk(inc)):
        for f in sorted(fs):
            if f.endswith('.hpp'):
                for i, l in enumerate(open(os.path.join(dd, f), errors='replace'), 1):
                    if re.search(r'\b(class|struct|enum class)\b.*\b%s\b(?!;)' % t, l) and not l.strip().endswith(';'):
                        return '%s:%d' % (os.path.relpath(os.path.join(dd, f), ctx.repo), i)
    return subj
