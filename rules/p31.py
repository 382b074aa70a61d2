"""Every documented configuration is type-checked by the compiler's front end: all library sources and every public header on its own, for each documented macro
(and each combination with elision, single core, the work-stealing queue variant, boundary thresholds), from C++11 on, with two compilers.  For each configuration the compiler also
decides which lock type was selected (static assertions), that it cannot be copied, and that the guarding lock has the operations the library relies on."""
import os, re, subprocess, concurrent.futures as cf
from ctx import Broken, SRC
TECH = 'type-level witnesses: type checking of every configuration with static assertions'
ASSUME = ['a configuration that type-checks links: all declarations used are defined by the library (its sources are part of the check)']
NUMA = ['src/numa/linux/pin_thread.cpp', 'src/numa/linux/topology.cpp', 'src/numa/algo/work_stealing.cpp']
K1 = 'K1 the library and its headers compile'
K2 = 'K2 the selected lock is the documented one'
K3 = 'K3 every public header compiles on its own'
A = 'boost::fibers::detail::spinlock'


def rtm(t):
    return '%s_rtm< %s >' % (A, t)


T, TA, TF, TAF = A + '_ttas', A + '_ttas_adaptive', A + '_ttas_futex', A + '_ttas_adaptive_futex'
D = '-DBOOST_FIBERS_'
CONFIGS = [  # name, macros, lock type, standard
    ('default', [], T, 'c++11'),
    ('STD_MUTEX', [D + 'SPINLOCK_STD_MUTEX'], 'std::mutex', 'c++11'),
    ('TTAS', [D + 'SPINLOCK_TTAS'], T, 'c++14'),
    ('TTAS_ADAPTIVE', [D + 'SPINLOCK_TTAS_ADAPTIVE'], TA, 'c++11'),
    ('TTAS_FUTEX', [D + 'SPINLOCK_TTAS_FUTEX'], TF, 'c++11'),
    ('TTAS_ADAPTIVE_FUTEX', [D + 'SPINLOCK_TTAS_ADAPTIVE_FUTEX'], TAF, 'c++11'),
    ('TTAS+TSX', [D + 'SPINLOCK_TTAS', '-DBOOST_USE_TSX'], rtm(T), 'c++11'),
    ('TTAS_ADAPTIVE+TSX', [D + 'SPINLOCK_TTAS_ADAPTIVE', '-DBOOST_USE_TSX'], rtm(TA), 'c++11'),
    ('TTAS_FUTEX+TSX', [D + 'SPINLOCK_TTAS_FUTEX', '-DBOOST_USE_TSX'], rtm(TF), 'c++11'),
    ('TTAS_ADAPTIVE_FUTEX+TSX', [D + 'SPINLOCK_TTAS_ADAPTIVE_FUTEX', '-DBOOST_USE_TSX'], rtm(TAF), 'c++11'),
    ('NO_ATOMICS', [D + 'NO_ATOMICS'], None, 'c++11'),
    ('SPIN_SINGLE_CORE', [D + 'SPIN_SINGLE_CORE', D + 'SPINLOCK_TTAS_ADAPTIVE'], TA, 'c++11'),
    ('thresholds', [D + 'RETRY_THRESHOLD=1', D + 'CONTENTION_WINDOW_THRESHOLD=1', D + 'SPIN_BEFORE_SLEEP0=0', D + 'SPIN_BEFORE_YIELD=0',
                    D + 'SPINLOCK_TTAS_ADAPTIVE_FUTEX'], TAF, 'c++11'),
    ('USE_SPMC_QUEUE', [D + 'USE_SPMC_QUEUE'], T, 'c++11'),
    ('C++17', [], T, 'c++17'),
    ('C++20', [], T, 'c++20'),
]
MORE = [(n + '+SINGLE_CORE', d + [D + 'SPIN_SINGLE_CORE'], t, s) for n, d, t, s in CONFIGS[1:10]] + \
    [(n + ' C++20', d, t, 'c++20') for n, d, t, s in CONFIGS[1:10]] + [(n + '+SPMC', d + [D + 'USE_SPMC_QUEUE'], t, s) for n, d, t, s in CONFIGS[1:6]] + \
    [('default asserting', ['-UNDEBUG'], T, 'c++11'), ('default asserting C++20', ['-UNDEBUG'], T, 'c++20')]
WITNESS = '''
#include <boost/fiber/detail/spinlock.hpp>
#include <mutex>
#include <type_traits>
#include <utility>
namespace witness {
using S = boost::fibers::detail::spinlock;
using L = boost::fibers::detail::spinlock_lock;
%s
static_assert(!std::is_copy_constructible<S>::value && !std::is_copy_assignable<S>::value, "witness: a spinlock can be copied");
static_assert(std::is_default_constructible<S>::value, "witness: a spinlock cannot be constructed");
static_assert(!std::is_copy_constructible<L>::value, "witness: a lock can be copied");
void use(S& s) { L l{ s }; l.unlock(); l.lock(); L d{ s, std::defer_lock }; (void)d.try_lock(); if (!d) d.unlock(); }
}
'''


def cc(ctx, cxx, std, defs, path):
    cmd = [cxx, '-std=' + std, '-fsyntax-only', '-w', '-DNDEBUG', '-DBOOST_FIBERS_SOURCE', '-DBOOST_FIBER_SOURCE', '-DBOOST_FIBER_NO_LIB',
           '-I' + os.path.join(ctx.repo, 'include')] + list(defs) + [path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stderr


def first_error(err, repo):
    for l in err.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            f = m.group(1)
            return '%s:%s' % (f[len(repo):] if f.startswith(repo) else os.path.basename(f), m.group(2)), m.group(3)[:160]
    return '?', err[-160:]


def run(ctx):
    srcs = [s for s in SRC + NUMA]
    for s in srcs:
        if not os.path.exists(os.path.join(ctx.repo, s)):
            raise Broken('source %s is gone' % s)
    inc = os.path.join(ctx.repo, 'include')
    heads = []
    for d, _, fs in os.walk(os.path.join(inc, 'boost/fiber')):
        if '/cuda' in d or '/hip' in d:
            continue            # need the vendors' headers
        heads += [os.path.relpath(os.path.join(d, f), inc) for f in fs if f.endswith('.hpp')]
    heads = sorted(h for h in heads if '/detail/' not in h)
    w = ctx.ws.dir
    hd = {}
    for h in heads:
        p = os.path.join(w, 'h_' + h.replace('/', '_') + '.cpp')
        body = '#include <%s>\n' % h
        if 'segmented_stack' in h:
            continue            # needs split stacks in Boost.Context
        open(p, 'w').write(body)
        hd[h] = p
    uni = os.path.join(w, 'unity.cpp')
    open(uni, 'w').write(''.join('#include "%s"\n' % os.path.join(ctx.repo, s) for s in srcs) +
                         ''.join('#include <%s>\n' % h for h in hd))
    jobs = CONFIGS if ctx.tier == 'quick' else CONFIGS + MORE
    pool = cf.ThreadPoolExecutor(8)

    def config(c):
        name, defs, lock, std = c
        out = []
        wf = os.path.join(w, 'w_%s.cpp' % re.sub(r'\W', '_', name))
        open(wf, 'w').write(WITNESS % ('static_assert(std::is_same<S, %s>::value, "witness: another lock type is selected");' % lock))
        for cxx in ('clang++',) if ctx.tier == 'quick' and name not in ('default', 'C++20') else ('clang++', 'g++'):
            if lock:
                rc, err = cc(ctx, cxx, std, defs, wf)
                out.append((K2, name, rc, err, cxx, None))
            rc, err = cc(ctx, cxx, std, defs, uni)
            if rc:
                # a clash of the joined sources is none: decide each one alone
                bad = []
                for s in srcs:
                    rc, err = cc(ctx, cxx, std, defs, os.path.join(ctx.repo, s))
                    if rc:
                        bad.append((s, err))
                for h, p in hd.items():
                    if not bad:
                        rc, err = cc(ctx, cxx, std, defs, p)
                        if rc:
                            bad.append((h, err))
                out.append((K1, name, 1 if bad else 0, bad[0][1] if bad else '', cxx, ', '.join(s for s, _ in bad[:4])))
            else:
                out.append((K1, name, 0, '', cxx, None))
        return out

    def header(h):
        return [(K3, h, ) + cc(ctx, 'clang++', 'c++11', [], hd[h]) + ('clang++', None)]

    futs = [pool.submit(config, c) for c in jobs] + [pool.submit(header, h) for h in hd]
    for f in futs:
        for rule, name, rc, err, cxx, files in f.result():
            ctx.ok(rule, name)
            ctx.entries.append('%s [%s]' % (name, cxx))
            if rc:
                loc, msg = first_error(err, ctx.repo)
                ctx.violation(rule, name, '%s: %s%s' % (cxx, msg, ' (in %s)' % files if files else ''), loc)
    ctx.sample('sources: ' + ', '.join(srcs))
    ctx.sample('headers: ' + ', '.join(hd))
    ctx.require(K1, len(jobs))
    ctx.require(K2, len(jobs) - 1)
    ctx.require(K3, 25)
