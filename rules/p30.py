"""All functions of the library that nothing in it calls, and all that are summarised elsewhere, are explored over all paths, exceptional ones included, tracking the
set of locks held: no path ends holding a lock it took, takes a spinlock it holds, or suspends, switches, sleeps or blocks on a fiber mutex while holding a spinlock other
than the one it hands to the suspension.  The locks taken under each held lock, in the function itself and (closed over the call graph, virtual calls resolved to every
overrider) in what it calls, give a relation between lock classes, which must be free of cycles."""
import re
from rules.common import *
from engine import Engine
ASSUME = ['code handed in by the user returns with the library\'s locks as it found them',
          'two locks of one class held together are told apart only by that class (no such nesting exists on the tree as analysed)']
NOTE = 'locks are identified by the class and member that holds them'
N1 = 'N1 every lock taken is released on every exit'
N2 = 'N2 a held lock is not taken again'
N3 = 'N3 no lock of the library is held across a switch, other than the one handed over'
N4 = 'N4 locks nest in one order'
N5 = 'N5 only a held lock is released'
UNITS = [['tu/%s.cpp' % s] for s in ('core', 'channels', 'cv', 'mutexes', 'spawn', 'fiber', 'fss', 'futures')] + [
         ['src/%s.cpp' % s for s in ('barrier', 'condition_variable', 'context', 'fiber', 'future', 'mutex', 'properties', 'recursive_mutex', 'recursive_timed_mutex',
                                     'scheduler', 'timed_mutex', 'waker', 'algo/algorithm', 'algo/round_robin', 'algo/shared_work', 'algo/work_stealing', 'numa/algo/work_stealing')]]
SPIN = ('spin', 'std')


class Locks(Mon):
    max_states = 30000
    mutex_throws = False
    inline = ('std::condition_variable::wait/2', 'std::condition_variable::wait_until/3')

    def __init__(self, P, graph, todo):
        self.P, self.graph, self.todo = P, graph, todo

    def start(self, eng, st):
        self.kinds, self.init = {}, []
        self.me = self.graph.setdefault(self.fn.dem, {'acq': set(), 'calls': set(), 'where': {}})
        for k, v in enumerate(eng.argvals):
            if v[0] != 'p' or v[1] == 'a:ret':
                continue
            t = eng.symty.get(v[1])
            n = self.P.tname(t).replace('const ', '') if t is not None else ''
            if n.startswith('std::unique_lock') or n.endswith('spinlock_lock'):
                b = 'nn:dev%d' % k
                st.names.add(b)
                eng.roots.add(b)
                eng.symdesc[b] = 'the lock handed in'
                st.mem[(v[1], 0)] = ('p', b, 0)
                st.mem[(v[1], 8)] = ONE
                st.locks += (('p', b, 0),)
                self.kinds[('p', b, 0)] = 'spin' if 'spinlock' in n else 'mutex'
                self.init.append(('p', b, 0))

    def rely(self, eng, st, base, off, val):
        return None

    def cls(self, eng, l):
        if l in self.init or l[0] != 'p' or not isinstance(l[2], int):
            return None
        if l[1][0] == '@' and l[2] == 0:
            return self.P.globals.get(l[1][1:], {}).get('dem', l[1][1:]).replace(NS, '')
        t, path, leaf = eng.field_of(l[1], l[2])
        if t is None:
            return None
        # the innermost class with a lock as a member there
        off, name = l[2], None
        while True:
            for o, n, et in self.P.types.get(t, {}).get('els', ()):
                if o <= off < o + max(self.P.types.get(et, {}).get('sz') or 0, 1):
                    break
            else:
                break
            tn = self.P.tname(et)
            if n and ('spinlock' in tn.split('<')[0] and 'queue' not in tn or tn in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex') or re.match(NS + r'(recursive_)?(timed_)?mutex$', tn)):
                name = re.sub(r'<.*>', '<>', self.P.tname(t).replace('const ', '')).replace(NS, '') + '.' + n
                if 'fibers::' not in tn or 'spinlock' in tn:
                    break
                # a fiber mutex: the lock is the mutex itself when its own address is taken
                if off == o:
                    break
            t, off = et, off - o
        return name

    def model(self, eng, st, fr, i, fn, args):
        if fn.short.startswith(NS):
            key = '%s/%d' % (fn.short, fn.np)
            if (key in eng.models or fn.short in eng.models) and not SKIP.search(fn.short):
                self.called(eng, st, fn.dem, [fn])
        return None

    def called(self, eng, st, name, fns):
        for f in fns:
            if f.defined:
                self.todo.add(f.name)
        for h in [self.cls(eng, l) for l in st.locks] or [None]:
            self.me['calls'].update((h, f.dem) for f in fns)

    def held(self, eng, st, held, but, what):
        l = [x for x in held if x != but and self.kinds.get(x, 'spin') in SPIN]
        self.check(eng, st, N3, not l, '%s while %s is held' % (what, ', '.join(eng.where(x) for x in l)))

    def on_event(self, eng, st, ev):
        k = ev.k
        if k == 'acquire':
            self.kinds[ev.lock] = ev.kind
            if ev.lock[0] == 'p':
                st.facts.setdefault(mkcmp('eq', ('p', ev.lock[1], 0), ZERO, 64), False)
            self.check(eng, st, N2, not ev.again, '%s is taken while it is held' % eng.where(ev.lock))
            if ev.kind == 'mutex':
                self.held(eng, st, ev.held, None, 'may block on %s' % eng.where(ev.lock))
            c = self.cls(eng, ev.lock)
            if c:
                for h in [self.cls(eng, l) for l in ev.held if l != ev.lock] or [None]:
                    self.me['acq'].add((h, c))
                    self.me['where'].setdefault((h, c), eng.loc(st))
        elif k == 'release':
            self.check(eng, st, N5, ev.held, '%s is released without being held' % eng.where(ev.lock))
        elif k == 'suspend':
            self.held(eng, st, ev.held, None, 'suspends')
        elif k == 'cv_wait':
            self.held(eng, st, ev.held, ev.lock, 'puts the thread to sleep')
        elif k == 'switch':
            self.held(eng, st, ev.held, None, 'switches to another stack')
        elif k in ('join', 'resume'):
            self.held(eng, st, [l for l in ev.held if l not in self.init], None, 'calls %s' % k)
        elif k == 'precall' and ev.virt:
            r = [f for f in self.P.fns.values() if f.defined and f.short.endswith('::' + ev.virt) and f.short.startswith(NS) and f.cls is not None]
            self.called(eng, st, ev.virt, r)

    def exit(self, eng, st, kind, val):
        if kind == 'terminate':
            return
        left = [l for l in st.locks if l not in self.init]
        self.check(eng, st, N1, not left, '%s is still held at the %s' % (', '.join(eng.where(l) for l in left), 'end' if kind == 'ret' else 'exception'))


SKIP = re.compile(r'detail::spinlock|spinlock_(ttas|rtm|status)|detail::rtm')


def run(ctx):
    graph = {}
    for units in UNITS:
        P = ctx.load(units)
        eng = Engine(P)
        done, todo = set(), set()
        first = [f.name for f in entries(P, eng.models)] + [f.name for f in P.fns.values() if f.defined and f.short.startswith('use::')]
        todo.update(first)
        while todo - done:
            for n in sorted(todo - done):
                done.add(n)
                f = P.fns[n]
                if SKIP.search(f.short) or not f.defined or '::$_' in f.short or "'lambda" in f.dem:
                    continue
                ctx.explore(P, f, Locks(P, graph, todo))
    # close over the calls
    acq = {n: {c for h, c in g['acq']} for n, g in graph.items()}
    more = True
    while more:
        more = False
        for n, g in graph.items():
            for h, c in g['calls']:
                new = acq.get(c, set()) - acq[n]
                if new:
                    acq[n] |= new
                    more = True
    order = {}
    for n, g in graph.items():
        for h, c in g['acq']:
            if h:
                order.setdefault(h, {}).setdefault(c, (n, None, g['where'][(h, c)]))
        for h, f in g['calls']:
            if h:
                for c in acq.get(f, ()):
                    order.setdefault(h, {}).setdefault(c, (n, f, ''))
    for h in sorted(order):
        ctx.ok(N4, h)
        for c in sorted(order[h]):
            # a path back
            seen, work = {c: None}, [c]
            while work:
                x = work.pop()
                for y in order.get(x, ()):
                    if y not in seen:
                        seen[y] = x
                        work.append(y)
            if h in seen:
                n, f, w = order[h][c]
                chain, x = [h], h
                while seen[x] is not None:
                    x = seen[x]
                    chain.append(x)
                ctx.violation(N4, n, '%s is taken while %s is held%s, and elsewhere %s' % (
                    c, h, ' (in %s)' % f if f else '', ' under '.join(chain) if h != c else 'the same holds the other way round'), w, [])
    for r, n in ((N1, 100), (N2, 20), (N3, 20), (N4, 3), (N5, 20)):
        ctx.require(r, n)
