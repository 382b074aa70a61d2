"""Guarded-atomic-action rules for the four mutex classes.

Every member function of mutex, timed_mutex, recursive_mutex and recursive_timed_mutex is
explored over all its paths; at each critical section of the object's spinlock the owner
(and recursion count) before and after, the queue operations made and the outcome
returned are compared with the permitted transitions."""
from rules.common import *

CLASSES = ('mutex', 'timed_mutex', 'recursive_mutex', 'recursive_timed_mutex')


class MutexRules(CS):
    mutex_throws = False

    def __init__(self, P, t, rec, kind, own):
        self.t, self.rec, self.kind, self.own_rules = t, rec, kind, own
        o = by_type(P, t, NS + 'context*', name='owner_')
        l = by_type(P, t, SPINT, name='wait_queue_splk_')
        w = by_type(P, t, NS + 'wait_queue', name='wait_queue_')
        self.lockoff = (l[0], P.types[l[3]]['sz'])
        self.wq = (w[0], P.types[w[3]]['sz'])
        self.fields = {'owner': (o[0], True, 8)}
        if rec:
            c = [m for m in leaf_members(P, t) if m[2] in ('unsigned long', 'std::size_t', 'size_t')]
            if len(c) != 1:
                raise Broken('anchor vanished: recursion count of ' + P.tname(t))
            self.fields['count'] = (c[0][0], False, 8)

    def want(self, rule):
        return self.own_rules is None or rule[:3] in self.own_rules or rule.startswith('E10') and 'E1 ' in self.own_rules

    def check(self, eng, st, rule, cond, msg, site=None, where=None):
        if self.want(rule):
            return Mon.check(self, eng, st, rule, cond, msg, site, where)
        return cond

    # only the owner gives a mutex up, and nobody makes another fiber the owner
    def rely(self, eng, st, base, off, val):
        if base == 'this' and off == self.fields['owner'][0]:
            me = st.known_eq(val, ACTIVE)
            if me:
                return 'keep'

            def fresh(s, b, o, v, me=me):
                if me is False:
                    n = eng.load(s, ('p', b, o), 'rely.owner', True, 8, silent=True)
                    eng.assume(s, mkcmp('eq', n, ACTIVE, 64), False)
            return fresh
        if self.rec and base == 'this' and off == self.fields['count'][0]:
            ow = st.mem.get(('this', self.fields['owner'][0]))
            if ow is not None and st.known_eq(ow, ACTIVE):
                return 'keep'
            return None
        return CS.rely(self, eng, st, base, off, val)

    def start(self, eng, st):
        st.mon['gain'] = ZERO      # recursion levels gained by this call

    def is_wq(self, wq):
        return wq[0] == 'p' and wq[1] == 'this' and isinstance(wq[2], int) and \
            self.wq[0] <= wq[2] < self.wq[0] + self.wq[1]

    def event(self, eng, st, ev):
        k = ev.k
        if k == 'write':
            f = self.fname(ev)
            if f:
                self.check(eng, st, 'E1 ownership state is written only under the object\'s spinlock', self.held(eng, st),
                           'write of %s.%s without holding the guarding spinlock' % (self.kind, ev.path))
        elif k in ('notify', 'enqueue', 'wq_empty') and self.is_wq(ev.wq):
            self.check(eng, st, 'H1 the wait queue is touched only under the object\'s spinlock', self.held(eng, st),
                       '%s on the wait queue without holding the guarding spinlock' % k)
            if k == 'enqueue':
                self.check(eng, st, 'H2 a fiber parks with the guarding spinlock, released only once it is parked',
                           ev.lock is not None and self.is_lock(eng, st, ev.lock),
                           'the waiter is parked with a lock other than the one guarding the wait queue')
                own = self.cell(eng, st, 'owner')
                self.check(eng, st, 'H3 a fiber parks only while another fiber owns the mutex',
                           st.known_eq(own, ZERO) is False,
                           'the fiber parks although the mutex may be free (owner not known to be set in the same '
                           'critical section): nobody will wake it')
                self.check(eng, st, 'H4 the parked fiber is the calling fiber', st.known_eq(ev.ctx, ACTIVE) is True,
                           'a context other than the calling fiber is parked')
        elif k == 'throw':
            self.check(eng, st, 'M1 only lock_error is thrown', ev.name == NS + 'lock_error',
                       'throws %s' % ev.name)
            own = st.mem.get(('this', self.fields['owner'][0]))
            code = ev.code[1] if ev.code and ev.code[0] == 'c' else None
            op = self.fn.short.split('::')[-1]
            if op == 'unlock':
                self.check(eng, st, 'M2 unlock by a non-owner is refused with operation_not_permitted',
                           code == EPERM and own is not None and st.known_eq(own, ACTIVE) is False,
                           'error raised with code %s while owner is %s' % (code, self.rel(st, own)))
            else:
                self.check(eng, st, 'M3 relocking by the owner is refused with resource_deadlock_would_occur',
                           code == EDEADLK and own is not None and st.known_eq(own, ACTIVE) is True,
                           'error raised with code %s while owner is %s' % (code, self.rel(st, own)))

    def rel(self, st, own):
        if own is None:
            return 'unread'
        a, z = st.known_eq(own, ACTIVE), st.known_eq(own, ZERO)
        return 'the caller' if a else 'null' if z else 'not the caller' if a is False else 'unknown'

    def cs_begin(self, eng, st):
        # representation invariant kept by every transition below: a free mutex has count 0
        if self.rec and 'owner' in self.fields:
            if st.known_eq(self.pre(st, 'owner'), ZERO):
                eng.assume(st, mkcmp('eq', self.pre(st, 'count'), ZERO, 64), True)

    def cs_end(self, eng, st, why):
        pre, post = self.pre(st, 'owner'), self.cell(eng, st, 'owner')
        me_pre, free_pre = st.known_eq(pre, ACTIVE), st.known_eq(pre, ZERO)
        changed = st.known_eq(pre, post) is not True
        me_post, free_post = st.known_eq(post, ACTIVE), st.known_eq(post, ZERO)
        op = self.fn.short.split('::')[-1]
        gain = 0
        if changed:
            if free_post:
                self.check(eng, st, 'E2 only the owner frees the mutex', me_pre is True,
                           'the owner is cleared by a fiber not known to own the mutex')
                self.check(eng, st, 'E3 only unlock frees the mutex', op == 'unlock',
                           'an operation other than unlock clears the owner')
                nt = [e for e in st.mon['cs'] if e[0] in ('notify', 'wq_none') and self.is_wq(e[2])]
                self.check(eng, st, 'H5 freeing the mutex notifies a waiter in the same critical section', bool(nt),
                           'the owner is cleared but no waiter is notified before the guarding spinlock is released')
                gain = -1
            else:
                self.check(eng, st, 'E4 ownership is taken only from the free state', free_pre is True,
                           'the owner is overwritten although the mutex is not known to be free')
                self.check(eng, st, 'E5 ownership is given only to the calling fiber', me_post is True,
                           'a context other than the calling fiber becomes owner')
                gain = 1
        if self.rec:
            c0, c1 = self.pre(st, 'count'), self.cell(eng, st, 'count')
            if free_pre:
                c0 = ZERO
            d = mkop('sub', (c1, c0), 64) if c1 != c0 else ZERO
            if c1[0] == 'o' and c1[1] == 'add' and c1[2] == c0 and c1[3][0] == 'c':
                d = c1[3]
            step = {ZERO: 0, ONE: 1, ('c', (1 << 64) - 1): -1}.get(d)
            for k in (-1, 0, 1):
                if step is None and st.known_eq(c1, mkop('add', (c0, ('c', k & ((1 << 64) - 1))), 64)):
                    step = k
            if changed and not free_post:
                self.check(eng, st, 'R1 taking a free recursive mutex sets the recursion count to one', st.known_eq(c1, ONE) is True,
                           'the recursion count after the first acquisition is %s' % eng.where(c1))
            elif changed and free_post:
                self.check(eng, st, 'R2 the mutex is freed exactly when the recursion count reaches zero',
                           step == -1 and st.known_eq(c1, ZERO) is True,
                           'the owner is cleared while the recursion count goes from %s to %s' % (eng.where(c0), eng.where(c1)))
                gain = -1
            else:
                self.check(eng, st, 'R3 the recursion count moves by one and only for the owner',
                           step == 0 or (step in (1, -1) and me_pre is True),
                           'the recursion count goes from %s to %s%s' % (
                               eng.where(c0), eng.where(c1), '' if me_pre else ' for a fiber not known to be the owner'))
                gain = step or 0
                if step == -1:
                    self.check(eng, st, 'R2 the mutex is freed exactly when the recursion count reaches zero',
                               st.known_eq(c1, ZERO) is False, 'the recursion count reaches zero but the mutex stays owned')
        st.mon['gain'] = mkop('add', (st.mon['gain'], ('c', gain & ((1 << 64) - 1))), 64)
        if op == 'unlock' and why == 'unlock':
            st.mon['auth'] = {True: ONE, False: ZERO, None: ('c', 2)}[me_pre]
        if op in ('lock', 'try_lock') and not self.rec:
            st.mon['self'] = {True: ONE, False: ZERO, None: ('c', 2)}[me_pre]

    def exit(self, eng, st, kind, val):
        op = self.fn.short.split('::')[-1]
        g = st.mon['gain']
        g = {ZERO: 0, ONE: 1, ('c', (1 << 64) - 1): -1}.get(g, g)
        if kind == 'ret' and op == 'lock':
            self.check(eng, st, 'E6 lock returns only as owner, with exactly one level gained', g == 1,
                       'lock returns having gained %s level(s)' % (g,))
            if not self.rec:
                self.check(eng, st, 'M4 lock by the owner never succeeds', st.mon.get('self') == ZERO,
                           'lock may return normally although the caller already owned the mutex')
        elif kind == 'ret' and op.startswith('try_lock'):
            r = ret_bool(st, val)
            self.check(eng, st, 'E7 try_lock reports success exactly when it acquired',
                       (r is True and g == 1) or (r is False and g == 0),
                       'returns %s having gained %s level(s)' % ({True: 'true', False: 'false'}.get(r, 'undetermined ' + eng.where(val)), g))
            if op == 'try_lock' and not self.rec:
                self.check(eng, st, 'M4 lock by the owner never succeeds', st.mon.get('self') == ZERO,
                           'try_lock may return normally although the caller already owned the mutex')
        elif kind == 'ret' and op == 'unlock':
            self.check(eng, st, 'M5 unlock succeeds only for the owner', st.mon.get('auth') == ONE,
                       'unlock returns normally for a fiber not known to own the mutex')
            self.check(eng, st, 'E8 unlock gives up exactly one level', g == -1, 'unlock returns having gained %s level(s)' % (g,))
        elif kind == 'throw':
            self.check(eng, st, 'E9 a refused operation changes nothing', g == 0, 'an exception leaves after the state changed')
        elif kind == 'terminate':
            self.report(eng, st, 'M6 no operation terminates the program', 'an exception reaches a noexcept boundary')
        self.check(eng, st, 'E10 the guarding spinlock is released on every exit', not self.held(eng, st),
                   'the spinlock is still held at %s' % kind)


class CtorRules(Mon):
    def __init__(self, mr, kind):
        self.mr, self.kind = mr, kind

    def exit(self, eng, st, kind, val):
        for n, (o, p, s) in self.mr.fields.items():
            v = eng.load(st, ('p', 'this', o), 'ctor', p, s, silent=True)
            self.check(eng, st, 'E0 a new mutex is free', v == ZERO, '%s is initialised to %s' % (n, eng.where(v)))


OPS = {'lock', 'try_lock', 'unlock', 'try_lock_until', 'try_lock_for'}
# calls among the mutex operations are entered, not summarised
MutexRules.inline = tuple(NS + c + '::' + o for c in CLASSES for o in OPS)


def run(ctx, own):
    P = ctx.load(['src/mutex.cpp', 'src/timed_mutex.cpp', 'src/recursive_mutex.cpp', 'src/recursive_timed_mutex.cpp',
                  'tu/mutexes.cpp'])
    for c in CLASSES:
        t = record(P, NS + c)
        rec = c.startswith('recursive')
        mr = MutexRules(P, t, rec, c, own)
        seen = set()
        for f in ctx.members(P, c, need=3):
            nm = f.short.split('::')[-1]
            if nm == c and f.np == 0:
                seen.add(nm)
                if own is None or 'E0 ' in own:
                    ctx.explore(P, f, CtorRules(mr, c))
            elif nm in OPS:
                # private helpers are analysed where they are called
                seen.add(nm)
                ctx.explore(P, f, MutexRules(P, t, rec, c, own))
        need = {'lock', 'try_lock', 'unlock', c} | ({'try_lock_until', 'try_lock_for'} if 'timed' in c else set())
        if not need <= seen:
            raise Broken('anchor vanished: %s lacks %s' % (c, sorted(need - seen)))
    if own is None or 'E1 ' in own:
        for r, n in (('E6 lock returns only as owner, with exactly one level gained', 4),
                     ('E7 try_lock reports success exactly when it acquired', 6),
                     ('E8 unlock gives up exactly one level', 4)):
            ctx.require(r, n)
    if own is None or 'H5 ' in own:
        ctx.require('H5 freeing the mutex notifies a waiter in the same critical section', 4)
        ctx.require('H3 a fiber parks only while another fiber owns the mutex', 6)
    if own is None or 'M2 ' in own:
        ctx.require('M2 unlock by a non-owner is refused with operation_not_permitted', 4)
        ctx.require('M3 relocking by the owner is refused with resource_deadlock_would_occur', 4)
