"""Bundled scheduling algorithms."""
import re
from rules.sched import *

AUNITS = ['src/algo/round_robin.cpp', 'src/algo/shared_work.cpp', 'src/algo/work_stealing.cpp', 'src/numa/algo/work_stealing.cpp', 'src/context.cpp']
N1 = 'N1 a notification is recorded under the mutex and announced'
N2 = 'N2 a thread sleeps only after it saw, under the mutex, that no notification is pending'
N3 = 'N3 a pending notification is not cleared before going to sleep'
N4 = 'N4 an algorithm that can sleep can be notified'
N5 = 'N5 an idle thread wakes up at its deadline at the latest'


def classes(P):
    """Algorithm classes: both suspend_until and notify are implemented."""
    r = {}
    for f in P.fns.values():
        m = re.match(re.escape(NS) + r'((?:numa::)?algo::\w+)::(\w+)$', f.short)
        if m and f.defined:
            r.setdefault(m.group(1), {}).setdefault(m.group(2), f)
    return {c: fs for c, fs in sorted(r.items()) if 'suspend_until' in fs and 'notify' in fs}


class Idle(Mon):
    """suspend_until and notify of one algorithm."""
    def resolve_virtual(self, eng, st, base, off, slot, name):
        return self.P.vtable(eng.symty.get('this'), slot) if base == 'this' else None

    inline_prefix = (NS + 'algo', NS + 'numa::algo', NS + 'detail::')
    keep_order = True

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        ms = leaf_members(P, record(P, NS + cls))
        self.bools = {o: n for o, n, tn, *_ in ms if tn == 'bool'}
        self.mtx = [o for o, n, tn, *_ in top_members(P, record(P, NS + cls)) if tn == 'std::mutex']
        self.flags, self.blocks, self.silent = None, [], []

    def start(self, eng, st):
        st.mon.update(seen=U, cleared=ZERO, wrote=ZERO, note=ZERO, here=ZERO)
        self.tp = None
        for v, tn in named_args(eng):
            if 'time_point' in tn:
                st.mon['tp'] = eng.load(st, v, 'until', False, 8, silent=True)
        for o in self.bools:
            if self.flags is None or o not in self.flags:
                st.mon['b%d' % o] = eng.load(st, ('p', 'this', o), 'b:cfg%d' % o, False, 1, silent=True)

    def rely(self, eng, st, base, off, val):
        if base == 'this' and off in self.bools and (self.flags is None or off not in self.flags):
            return 'keep'           # configuration
        if base.startswith('nn:arg'):
            return 'keep'
        return Mon.rely(self, eng, st, base, off, val)

    def model(self, eng, st, fr, i, fn, args):
        if fn.defined and re.match(r'std::condition_variable::wait(_for|_until)?$', fn.short) and fn.np > (1 if fn.short.endswith('::wait') else 2) or \
                fn.defined and fn.short == 'std::condition_variable::wait_for':
            return [(st, ('inline', fn, args, None))]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def held(self, st):
        return any(l[1] == 'this' and l[2] in self.mtx for l in st.locks)

    def cfg(self, st):
        return {k: st.truth(v) for k, v in st.mon.items() if k[0] == 'b' and k[1:].isdigit() and st.truth(v) is not None}

    def flag(self, ev):
        return ev.base == 'this' and ev.off in (self.flags if self.flags is not None else self.bools)

    def on_event(self, eng, st, ev):
        m, k = st.mon, ev.k
        if k == 'acquire' or k == 'cv_waited':
            m['seen'] = U
            m['here'] = ZERO
        elif k == 'read' and self.flag(ev):
            m['seen'] = ev.val
        elif k == 'write' and self.flag(ev):
            up = st.truth(ev.val)
            if self.fn.short.endswith('::notify'):
                self.wrote.add(ev.off)
                self.check(eng, st, N1, self.held(st) and up is True, 'the notification is %s' % ('recorded without the mutex' if up is True else 'cleared'))
                m['wrote'] = ONE
                m['note'] = m['here']
            elif self.flags is not None and ev.off in self.flags:
                self.check(eng, st, N3, self.held(st), 'the notification is changed without the mutex')
                if up is not True and st.truth(m['seen']) is not False:
                    m['cleared'] = ONE
                m['seen'] = ev.val
        elif k == 'cv_notify':
            m['here'] = ONE if self.held(st) else ZERO
            if m['wrote'] == ONE:
                m['note'] = ONE
        elif k == 'cv_wait':
            self.check(eng, st, N2, self.held(st) and ev.own is not False and m['seen'] != U and st.truth(m['seen']) is False,
                       'sleeps although a notification may be pending' if self.held(st) else 'sleeps without the mutex')
            self.check(eng, st, N3, m['cleared'] == ZERO, 'sleeps after a notification was cleared')
            self.blocks.append(self.cfg(st))
            tp = m.get('tp')
            if not ev.timed:
                self.check(eng, st, N5, tp is not None and (st.known_eq(tp, MAXTP) is True or before(st, tp, MAXTP) is False), 'sleeps without a deadline')
            else:
                v = eng.load(st, ev.tp, 'cvtp', False, 8, silent=True) if ev.tp[0] == 'p' else ev.tp
                form = {s: n for s, n in linear(v).items() if s is None or not (s[0] == 's' and s[1].startswith('now'))}
                self.check(eng, st, N5, tp is not None and (form == {tp: 1} or st.known_eq(v, tp) is True), 'sleeps until %s' % eng.where(v))

    def exit(self, eng, st, kind, val):
        m = st.mon
        rule = N1 if self.fn.short.endswith('::notify') else N2
        self.check(eng, st, rule, kind == 'ret' and not st.locks, 'leaves with %s' % (kind if kind != 'ret' else 'the mutex locked'))
        if rule == N1 and kind == 'ret':
            self.ctx.ok(N1, self.fn.short)
            if m['wrote'] == ZERO:
                self.silent.append(self.cfg(st))
                self.lastsilent = (eng, st.copy())
            else:
                self.check(eng, st, N1, m['note'] == ONE, 'the notification is recorded, but a sleeping thread is not woken')


def idle(ctx, P):
    for c, fs in classes(P).items():
        n = Idle(P, c)
        n.wrote = set()
        ctx.explore(P, fs['notify'], n)
        s = Idle(P, c)
        s.flags = n.wrote
        ctx.explore(P, fs['suspend_until'], s)
        if not s.blocks:
            raise Broken('no wait found in %s' % fs['suspend_until'].dem)
        for a in n.silent:
            bad = [b for b in s.blocks if not any(k in b and b[k] != v for k, v in a.items())]
            ctx.ok(N4, c)
            if bad:
                eng, st = n.lastsilent
                n.check(eng, st, N4, False, 'notify does nothing in a configuration in which suspend_until sleeps')
        ctx.ok(N4, c)


A1 = 'A1 a ready fiber is queued exactly once'
A2 = 'A2 pinned fibers stay with their thread'
A3 = 'A3 pick_next returns the fiber it took, and nothing only when there is none'
A4 = 'A4 has_ready_fibers tells the truth'
A5 = 'A5 the shared queue is accessed under its mutex only'
A6 = 'A6 a thread\'s own queue is first in, first out'
A7 = 'A7 a fiber others may take is detached before it is queued and attached before it runs'
A8 = 'A8 stealing is only tried again if there is somebody to steal from'
A9 = 'A9 stealing addresses existing schedulers'
A10 = 'A10 a scheduler registers itself before anybody steals'
QT = re.compile(r'^boost::fibers::detail::context_(?:spinlock|spmc)_queue::(push|pop|steal|empty)$')
DQ = re.compile(r'^std::deque::(push_back|push_front|pop_front|pop_back|front|back|empty|size)$')


def strip(v):
    """Without conversions between integer types."""
    while v[0] == 'o' and v[1] in ('trunc', 'zext', 'sext'):
        v = v[2]
    return v


def vsize(eng, st, p):
    """The number of elements of a vector nobody else changes."""
    for q, n in st.mon.get('vs', ()):
        if q == p:
            return n
    n = eng.fresh(st, 'vs', p[1] + str(p[2]), False, None, 'size of ' + eng.where(p))
    setsize(st, p, n)
    return n


def setsize(st, p, n):
    st.mon['vs'] = tuple(x for x in st.mon.get('vs', ()) if x[0] != p) + ((p, n),)


class Reg(Mon):
    """Constructor of an algorithm whose instances steal from each other."""
    inline_prefix = (NS + 'algo', NS + 'numa::algo')
    watch = {NS + 'detail::thread_barrier::wait': 'barrier'}

    def __init__(self, P, cls, shape):
        self.P, self.cls, self.shape = P, cls, shape

    def start(self, eng, st):
        st.mon.update(reg=ZERO, bar=ZERO, slot=U, ix=U, init=ZERO)
        self.params = [v for v in eng.argvals if v[0] == 's']

    def ty(self, fn, n):
        return self.P.strs[fn.args[n][0]]

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == 'std::call_once':
            s2 = st.copy()
            s2.mon['init'] = ONE
            out = [(st, None)]
            f = eng.load(s2, args[1], 'once', True, 8, silent=True)
            g = self.P.fns.get(f[1]) if f[0] == 'f' else None
            if g is not None and g.defined:
                a = []
                for n, x in enumerate(args[2:]):
                    a.append(x if n + 3 < len(args) and self.ty(g, n) == 'ptr' else eng.load(s2, x, 'once%d' % n, self.ty(g, n) == 'ptr', 4 if self.ty(g, n) == 'i32' else 8, silent=True))
                s2.say('%s: first thread' % eng.loc(s2))
                out.append((s2, ('inline', g, a, None)))
            else:
                out.append((s2, None))
            return out
        if fn.short.startswith('std::vector::'):
            op = fn.short.split('::')[-1]
            if op == 'vector' and len(fn.args) == 4 and self.P.strs[fn.args[1][0]] == 'i64':
                setsize(st, args[0], args[1])
                return [(st, None)]
            if op == 'swap':
                a, b = vsize(eng, st, args[0]), vsize(eng, st, args[1])
                setsize(st, args[0], b)
                setsize(st, args[1], a)
                return [(st, None)]
            if op in ('resize', 'assign'):
                setsize(st, args[0], args[1])
                return [(st, None)]
            if op == 'operator[]' and args[0][1][0] == '@':
                v = eng.result_sym(st, fr, i, fn, fn.short)
                st.mon.update(slot=v, ix=strip(args[1]), table=args[0])
                return [(st, v)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'write' and m['slot'] != U and ('p', ev.base, ev.off) == m['slot']:
            own = strip(m['ix'])
            self.check(eng, st, A10, ev.val[0] == 'p' and ev.val[1] == 'this', 'enters %s into the table of schedulers' % eng.where(ev.val))
            self.check(eng, st, A10, m['bar'] == ZERO, 'registers itself after the other threads were allowed to start')
            self.check(eng, st, A10, own in self.params or own == m.get('ticket'), 'registers itself under %s, which is not this thread\'s own number' % eng.where(own))
            m['reg'] = ONE
            if m['init'] == ONE and m.get('ticket') is not None:
                n = strip(vsize(eng, st, m['table']))
                self.check(eng, st, A10, n in self.params, 'the table of schedulers gets %s entries' % eng.where(n))
                for (b, o), v in st.mem.items():
                    if b == 'this' and v == n:
                        self.shape['count'] = o
        elif ev.k == 'rmw' and ev.base[0] == '@':
            if linear(strip(ev.val)) == {strip(ev.old): 1, None: 1}:
                m['ticket'] = strip(ev.old)
        elif ev.k == 'barrier':
            self.check(eng, st, A10, m['reg'] == ONE, 'lets the other threads start before it is registered')
            m['bar'] = ONE

    def exit(self, eng, st, kind, val):
        if kind == 'ret':
            self.check(eng, st, A10, st.mon['bar'] == ONE, 'does not wait until every thread is registered')


class Algor(Queues):
    """awakened, pick_next, has_ready_fibers of one algorithm."""
    def resolve_virtual(self, eng, st, base, off, slot, name):
        return self.P.vtable(eng.symty.get('this'), slot) if base == 'this' else None

    inline_prefix = (NS + 'algo', NS + 'numa::algo', NS + 'context::is_context', NS + 'context::ready_', NS + 'context::get_scheduler')
    watch = {NS + 'context::attach': 'attach', NS + 'context::detach': 'detach'}
    max_states = 40000

    def __init__(self, P, cls, kinds, shape):
        self.P, self.cls, self.kinds, self.shape = P, cls, kinds, shape
        self.eltype = record(P, NS + 'context')
        ms = [m for m in top_members(P, self.eltype) if m[2] == NS + 'type']
        if len(ms) != 1:
            raise Broken('anchor vanished: kind of a context')
        self.kind = ms[0][0]
        self.sched = [m[0] for m in top_members(P, self.eltype) if m[2] == NS + 'scheduler*'][0]
        # the hook of the queues of an algorithm
        self.hook = [(m[0], m[3]) for m in top_members(P, self.eltype) if m[2] == NS + 'detail::ready_hook' or 'detail::ready_tag' in m[2]]
        self.op = None

    def rely(self, eng, st, base, off, val):
        if base.startswith(('nn:arg', 'nn:el', 'arg')) and off == self.kind:
            return 'keep'
        if base == 'this':
            return 'keep'           # only its own thread changes an algorithm, its queues excepted
        return Mon.rely(self, eng, st, base, off, val)

    def start(self, eng, st):
        m = st.mon
        m.update(n=ZERO, took=U, att=ZERO, det=ZERO, draw=U, src=U, bound=U)
        self.c = next((v for v in eng.argvals if v[0] == 'p' and v[1] not in ('this', 'a:ret')), None)
        if self.c is not None and self.k:
            st.mem[(self.c[1], self.kind)] = ('c', self.kinds[self.k])

    def where_(self, p):
        return (p[1] if p[1][0] == '@' else 'this', p[2] if isinstance(p[2], int) else 0)

    def shared(self, p):
        return p[1][0] == '@' or self.where_(p) in self.shape['stealable']

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == 'boost::context::detail::prefetch_range':
            return [(st, None)]
        if re.match(r'std::(uniform_int_distribution|random_device|linear_congruential_engine)::', fn.short):
            v = eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None
            if fn.short == 'std::uniform_int_distribution::operator()':
                self.draw(eng, st, v, dict(st.mon.get('di', ())).get(args[0]))
            elif fn.short.endswith('::uniform_int_distribution') and len(args) == 3:
                st.mon['di'] = tuple(x for x in st.mon.get('di', ()) if x[0] != args[0]) + ((args[0], args[2]),)
            return [(st, v)]
        if fn.short in ('std::vector::size', 'std::vector::empty', 'std::vector::operator[]'):
            return self.vector(eng, st, fr, i, fn, args)
        m = QT.match(fn.short)
        if m:
            op = m.group(1)
            p = aptr(args[0])
            if p[1] == 'this':
                self.shape['stealable'].add(self.where_(p))
            if op == 'push':
                return self.container(eng, st, fr, i, fn, [p, args[1]], 'push_back')
            if op == 'empty':
                return self.fresh(self.container(eng, st, fr, i, fn, [p], 'empty'), p)
            out = []
            for s, v in self.split(eng, st, fr, i, fn, p):
                if v != ZERO:
                    self.setq(s, p, 'U')
                    self.take(eng, s, p, v, 'pop_front')
                out.append((s, v))
            return self.fresh(out, p)
        m = DQ.match(fn.short)
        if m:
            op = m.group(1)
            p = aptr(args[0])
            if op.startswith('push'):
                a = args[1]
                if a[0] == 'p' and len(fn.args) > 1:
                    a = eng.load(st, a, 'dqv', True, 8, silent=True)
                return self.container(eng, st, fr, i, fn, [p, a], op)
            if op in ('front', 'back'):
                out = []
                for s, v in self.container(eng, st, fr, i, fn, [p], op):
                    if v != ZERO:
                        s.mem[('dq:' + p[1], 0)] = v
                        out.append((s, ('p', 'dq:' + p[1], 0)))
                return self.fresh(out, p)
            return self.fresh(self.container(eng, st, fr, i, fn, [p], op), p)
        r = Queues.model(self, eng, st, fr, i, fn, args)
        if r is not None and CONT.match(fn.short):
            return self.fresh(r, aptr(args[1] if fn.sret else args[0]))
        return r

    def fresh(self, out, p):
        """An element just met is of one of the kinds the queue holds."""
        r = []
        ks = self.shape['kinds'].get(self.where_(p)) or set(self.kinds)
        for s, v in out:
            e = s.mon.pop('newel', None)
            if e is None:
                r.append((s, v))
                continue
            for n, k in enumerate(sorted(ks)):
                t = s.copy() if n + 1 < len(ks) else s
                t.mem[(e[1], self.kind)] = ('c', self.kinds[k])
                t.say('    (a %s fiber)' % k)
                r.append((t, v))
        return r

    def new_elem(self, eng, st, p, v):
        st.mon['newel'] = v

    def kind_of(self, eng, st, v):
        x = eng.load(st, ('p', v[1], self.kind), 'kd', False, 4, silent=True)
        for k, n in self.kinds.items():
            if x == ('c', n):
                return k
        return None

    def glock(self, st):
        return any(l[1][0] == '@' for l in st.locks)

    def on_event(self, eng, st, ev):
        m, k = st.mon, ev.k
        if k == 'hook' and ev.op == 'unlink' and any(o <= ev.h[2] < o + z for o, z in self.hook):
            for p, s, first, org in m.get('q', ()):
                if s == 'N' and first[0] == 'p' and first[1] == ev.h[1]:
                    self.setq(st, p, 'U')
                    self.take(eng, st, p, first, 'pop_front')
        if k in ('put', 'took', 'peek') and ev.c[1][0] == '@':
            self.check(eng, st, A5, self.glock(st), '%s is accessed without a mutex shared by all threads' % eng.where(ev.c))
        if k == 'put':
            w = self.where_(ev.c)
            kd = self.kind_of(eng, st, ev.val)
            self.check(eng, st, A1, self.op == 'awakened' and ev.val == self.c and m['n'] == ZERO, 'puts %s into %s%s' % (eng.where(ev.val), eng.where(ev.c), ' again' if m['n'] != ZERO else ''))
            m['n'] = ONE
            pinned = kd in ('main', 'dispatcher')
            if pinned:
                self.check(eng, st, A2, ev.c[1][0] != '@', 'a %s fiber is queued where other threads take it' % kd)
            elif self.shared(ev.c):
                self.check(eng, st, A7, m['det'] == ONE, 'a fiber other threads may take is still attached to this thread')
            self.shape['kinds'].setdefault(w, set()).add(kd)
            self.shape['det'][(w, kd)] = m['det'] == ONE
            self.shape['ops'].setdefault(w, set()).add(ev.op)
        elif k == 'took':
            self.check(eng, st, A3, self.op == 'pick_next' and m['took'] == U and ev.how != 'clear', '%s takes %s' % (self.op, eng.where(ev.val)))
            m['took'] = ev.val
            w = self.where_(ev.c)
            m['src'] = w
            if ev.c[1] == 'this' and w not in self.shape['stealable']:
                back = 'push_back' in self.shape['ops'].get(w, ())
                self.check(eng, st, A6, ev.how in (('pop_front', 'erase') if back else ('pop_back',)), 'takes the fiber made ready last (%s)' % ev.how)
        elif k == 'call' and ev.name.endswith('::steal') and ev.res is not None:
            self.check(eng, st, A3, self.op == 'pick_next' and (m['took'] == U or st.truth(mkcmp('eq', m['took'], ZERO, 64)) is True), 'steals although it already took %s' % eng.where(m['took']))
            st.mem[(ev.res[1], self.kind)] = ('c', self.kinds['worker'])
            m['took'] = ev.res
            m['src'] = U
            m['draw'] = U
        elif k in ('attach', 'detach'):
            self.moved(eng, st, ev)

    def size(self, eng, st, p):
        return vsize(eng, st, p)

    def vector(self, eng, st, fr, i, fn, args):
        p = args[0]
        n = self.size(eng, st, p)
        op = fn.short.split('::')[-1]
        if op == 'size':
            return [(st, n)]
        if op == 'empty':
            return [(st, mkcmp('eq', n, ZERO, 64))]
        ix = strip(args[1])
        b = st.mon['bound']
        if b != U and st.mon['draw'] == ix:
            b = linear(strip(b))
            b = {k: n2 - (1 << 32) if k is None and 1 << 31 <= n2 < 1 << 32 else n2 for k, n2 in b.items()}
            ok = b == {n: 1, None: -1} and st.truth(mkcmp('eq', n, ZERO, 64)) is False
            if not ok and p[1][0] == '@':
                # the table has as many entries as there are threads (A10)
                c = [k for k in b if k is not None]
                ok = len(c) == 1 and b == {c[0]: 1, None: -1} and any(bb == 'this' and v == c[0] and o == self.shape.get('count') for (bb, o), v in st.mem.items())
            self.check(eng, st, A9, ok, 'the index drawn for %s reaches up to %s' % (eng.where(p), eng.where(st.mon['bound'])))
        return [(st, eng.result_sym(st, fr, i, fn, fn.short))]

    def draw(self, eng, st, res, bound):
        m = st.mon
        m['bound'] = bound or U
        if m['draw'] != U:
            # what was drawn before was rejected
            self.check(eng, st, A8, self.others(st, bound), 'draws again although there may be nobody else to steal from')
        m['draw'] = res

    def others(self, st, bound):
        """Is it known that the number of threads or cpus drawn from is greater than one?"""
        b = [strip(x) for x in linear(strip(bound)) if x is not None] if bound else []
        for f, t in st.facts.items():
            if len(f) < 4 or not any(strip(x) in b for x in f[2:4] if x[0] in 'so'):
                continue
            if f[0] == 'o' and f[1] in ('ult', 'slt') and t is True and f[2][0] == 'c' and f[2][1] >= 1 and f[3][0] != 'c':
                return True
            if f[0] == 'o' and f[1] in ('ult', 'slt') and t is False and f[3][0] == 'c' and f[3][1] >= 2 and f[2][0] != 'c':
                return True
        return False

    def moved(self, eng, st, ev):
        m, args = st.mon, ev.args
        if ev.k == 'detach':
            kd = self.kind_of(eng, st, args[0])
            self.check(eng, st, A7, self.op == 'awakened' and args[0] == self.c and m['n'] == ZERO and m['det'] == ZERO,
                       'detaches %s%s' % (eng.where(args[0]), ' after it was queued: another thread may already run it' if m['n'] == ONE else ''))
            self.check(eng, st, A2, kd == 'worker', 'detaches a %s fiber from its thread' % kd)
            m['det'] = ONE
        else:
            self.check(eng, st, A7, self.op == 'pick_next' and args[0] == ACTIVE and args[1] == m['took'] and m['att'] == ZERO, 'attaches %s to the scheduler of %s' % (eng.where(args[1]), eng.where(args[0])))
            m['att'] = ONE

    def exit(self, eng, st, kind, val):
        m = st.mon
        rule = {'awakened': A1, 'pick_next': A3, 'has_ready_fibers': A4}[self.op]
        self.check(eng, st, rule, kind == 'ret' and not st.locks, 'leaves with %s' % (kind if kind != 'ret' else 'a lock held'))
        if kind != 'ret':
            return
        if self.op == 'awakened':
            self.check(eng, st, A1, m['n'] == ONE, 'the fiber is not queued')
            return
        qs = [self.q(st, ('p', b, o))[1] for b, o in self.shape['kinds']]
        if self.op == 'has_ready_fibers':
            for want in (True, False):
                r = ret_bool(st, val)
                if r is not None and r != want:
                    continue
                s = st.copy() if r is None else st
                if r is None and not eng.assume(s, val, want):
                    continue
                self.check(eng, s, A4, 'N' in qs if want else all(x == 'E' for x in qs), 'reports %s although %s' % (want, 'no queue is known to hold one' if want else 'a queue may hold one'))
            return
        t = m['took']
        none = t == U or st.truth(mkcmp('eq', t, ZERO, 64)) is True
        if none:
            self.check(eng, st, A3, val is not None and st.truth(mkcmp('eq', val, ZERO, 64)) is True, 'returns %s, which it took from nowhere' % eng.where(val))
            self.check(eng, st, A3, all(x == 'E' for x in qs), 'returns nothing although its queue may hold a ready fiber')
        else:
            if t[1][:2] == 'r_':
                self.check(eng, st, A3, st.truth(mkcmp('eq', t, ZERO, 64)) is not None, 'whether something was stolen is not looked at')
            self.check(eng, st, A3, st.known_eq(val, t) is True, 'returns %s, but took %s' % (eng.where(val), eng.where(t)))
            want = m['src'] == U or self.shape['det'].get((m['src'], self.kind_of(eng, st, t)))
            self.check(eng, st, A7, m['att'] == (ONE if want else ZERO), 'the fiber is returned %s' % ('without being attached to this thread' if m['att'] == ZERO else 'attached again'))


def algorithms(ctx, P):
    kinds = {k: constant(P, 'k_' + k)[1] for k in ('main', 'dispatcher', 'worker')}
    for c, fs in classes(P).items():
        shape = dict(stealable=set(), kinds={}, det={}, ops={})
        if any(f.defined for f in P.by_short.get(NS + c + '::steal', ())):
            for f in P.by_short.get(NS + c + '::' + c.split('::')[-1], ()):
                if f.np > 1 and f.defined:
                    ctx.explore(P, f, Reg(P, c, shape))
        for op in ('awakened', 'pick_next', 'has_ready_fibers'):
            f = fs.get(op)
            if f is None:
                raise Broken('anchor vanished: %s::%s' % (c, op))
            for k in kinds if op == 'awakened' else (None,):
                r = Algor(P, c, kinds, shape)
                r.op, r.k = op, k
                ctx.explore(P, f, r)
        ctx.sample('%s: queues %s, stealable %s' % (c, {'%s+%s' % k: sorted(map(str, v)) for k, v in shape['kinds'].items()}, sorted(shape['stealable'])))
