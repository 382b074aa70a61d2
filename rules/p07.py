"""Every wait and notify of condition_variable_any and condition_variable is explored over all
paths, with a user lock and predicate whose operations may throw.  The caller's lock is
released only inside the critical section of the internal lock in which the fiber is
registered; it is re-acquired, with nothing internal held, before every return; predicate
waits return only what the predicate said last, evaluated under the lock after the last
wait; timed waits pass on the caller's deadline and report a timeout exactly when the
deadline ended them; notifications reach the wait queue under the internal lock."""
from rules.common import *
ASSUME = ['the wait queue parks, resumes and times out as decided by P04', 'the user lock\'s lock()/unlock() may throw, and a throwing '
          'unlock leaves the caller without registered waiter']
CV = ('condition_variable_any', 'condition_variable')


class CVRules(Mon):
    inline_prefix = (NS + 'condition_variable',)

    def __init__(self, P, op, K):
        self.P, self.op, self.K = P, op, K

    def setup(self, eng, st):
        self.user = self.dur = self.tp = self.ul = None
        self.pred = 'Pred' in self.fn.dem.split('(', 1)[1]
        for v, tn in named_args(eng):
            if 'unique_lock' in tn:
                self.user = ('p', 'nn:usermutex', 0)
                eng.symdesc['nn:usermutex'] = 'caller\'s mutex'
                eng.roots.add('nn:usermutex')
                st.names.add('nn:usermutex')
                st.mem[(v[1], 0)] = self.user
                st.mem[(v[1], 8)] = ONE
                self.ul = v
            elif tn == 'Lk':
                self.user = v
            elif 'time_point' in tn:
                self.tp = v
            elif 'duration' in tn:
                self.dur = v
        if self.op.startswith('wait') and self.user is None:
            raise Broken('anchor vanished: %s takes no lock' % self.fn.dem)
        if self.op.startswith('wait'):
            st.locks = (self.user,)
            if 'until' in self.op and self.tp is None or '_for' in self.op and self.dur is None:
                raise Broken('anchor vanished: deadline of ' + self.fn.dem)
        # the deadline the caller gave, before anything else runs
        d = self.tp or self.dur
        self.d0 = eng.load(st, d, 'd0', False, 8, silent=True) if d else None
        st.mon.update(rel=ZERO, parks=ZERO, to=ZERO, pv=U, fresh=ZERO, oops=ZERO, nt=ZERO, dl=U)

    def rely(self, eng, st, base, off, val):
        return 'keep' if base in ('nn:arg0', 'nn:arg1', 'nn:arg2') and base != 'this' and base != getattr(self.user, '1', None) else \
            Mon.rely(self, eng, st, base, off, val)

    def internal(self, st):
        return [l for l in st.locks if l != self.user]

    def model(self, eng, st, fr, i, fn, args):
        from models import do_acquire, do_release
        if fn.short == 'Lk::lock':
            s = st.copy()
            s.mon['oops'] = ONE
            s.say('%s: relocking throws' % eng.loc(s))
            do_acquire(eng, st, args[0], 'user', fn.short)
            return [(s, ('throw', None)), (st, None)]
        if fn.short == 'Lk::unlock':
            s = st.copy()
            s.mon['oops'] = ONE
            s.say('%s: unlocking throws' % eng.loc(s))
            self.unlocks(eng, s)
            do_release(eng, st, args[0], 'user', fn.short)
            return [(s, ('throw', None)), (st, None)]
        if fn.short == 'Pred::operator()':
            self.check(eng, st, 'C5 the predicate is evaluated under the caller\'s lock', self.user in st.locks and not self.internal(st),
                       'the predicate is evaluated %s' % ('without the caller\'s lock' if self.user not in st.locks else
                                                          'while the internal lock is held'))
            s = st.copy()
            s.say('%s: predicate throws' % eng.loc(s))
            f = st.copy()
            f.mon.update(pv=ZERO, fresh=ONE)
            f.say('%s: predicate false' % eng.loc(f))
            st.mon.update(pv=ONE, fresh=ONE)
            st.say('%s: predicate true' % eng.loc(st))
            return [(s, ('throw', None)), (f, ZERO), (st, ONE)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def unlocks(self, eng, st):
        st.mon['rel'] = ONE if self.internal(st) else ('c', 2)

    def on_event(self, eng, st, ev):
        k, m = ev.k, st.mon
        if k == 'release' and ev.lock == self.user:
            self.unlocks(eng, st)
        elif k == 'release' and ev.lock != self.user and ev.why == 'unlock':
            if m['rel'] == ONE:
                m['rel'] = ('c', 2)
        elif k == 'acquire' and ev.lock == self.user:
            self.check(eng, st, 'C6 the caller\'s lock is re-acquired with no internal lock held', not self.internal(st),
                       'blocks on the caller\'s lock while holding the condition variable\'s internal lock')
        elif k == 'enqueue':
            self.check(eng, st, 'C1 the caller\'s lock is released after the fiber can be notified',
                       m['rel'] == ONE and ev.lock in self.internal(st) and self.user not in st.locks,
                       'the fiber parks with the caller\'s lock still held' if self.user in st.locks else
                       'the caller\'s lock is not released within the critical section that registers the fiber: a notification '
                       'in between is lost')
            self.check(eng, st, 'C2 the fiber registers itself', st.known_eq(ev.ctx, ACTIVE) is True, 'another fiber is registered')
            if self.pred:
                self.check(eng, st, 'C7 a predicate wait blocks only after the predicate was seen false', m['fresh'] == ONE and m['pv'] == ZERO,
                           'the fiber blocks without the predicate having been false')
            if '_' in self.op:
                self.check(eng, st, 'C8 the deadline registered is the caller\'s', ev.timed and self.deadline(eng, st, ev.tp),
                           'the wait is registered %s' % ('with another deadline' if ev.timed else 'without a deadline'))
                if self.dur is not None:
                    self.check(eng, st, 'C8 the deadline registered is the caller\'s', m['dl'] in (U, m.get('now')),
                               'the fiber waits again, and its duration starts anew')
                    m['dl'] = m.get('now', U)
            else:
                self.check(eng, st, 'C8 the deadline registered is the caller\'s', not ev.timed, 'an untimed wait has a deadline')
            m.update(parks=ONE if m['parks'] == ZERO else ('c', 2), fresh=ZERO, rel=ZERO, to=ZERO)
        elif k == 'wait_result':
            m['to'] = ONE if ev.timeout else ZERO
        elif k == 'notify':
            self.check(eng, st, 'C9 notifications are made under the internal lock', bool(self.internal(st)),
                       'the wait queue is notified without the internal lock')
            m['nt'] = ONE if ev.which == self.op and m['nt'] == ZERO else ('c', 2)
        elif k == 'wq_empty' and self.internal(st):
            m['emp'] = ev.val
        elif k == 'now':
            m['now'] = ev.val

    def deadline(self, eng, st, tp):
        v = eng.load(st, tp, 'tp', False, 8, silent=True)
        if self.tp is not None:
            return st.known_eq(v, self.d0) is True
        return 'now' in st.mon and st.known_eq(v, mkop('add', (st.mon['now'], self.d0), 64)) is True

    def exit(self, eng, st, kind, val):
        m, op = st.mon, self.op
        if op.startswith('notify'):
            self.check(eng, st, 'C10 a notification is forwarded exactly once', kind == 'ret' and (
                m['nt'] == ONE or m['nt'] == ZERO and 'emp' in m and st.truth(m['emp']) is True),
                       '%s does not perform exactly one %s on its wait queue' % (op, op))
            self.check(eng, st, 'C3 the caller\'s lock is held on return and nothing else', not st.locks, 'a lock leaks')
            return
        if kind == 'terminate':
            self.check(eng, st, 'C11 terminates only when relocking fails', m['oops'] == ONE, 'terminates')
            return
        if kind == 'throw' and m['oops'] == ONE:
            self.check(eng, st, 'C3 the caller\'s lock is held on return and nothing else', not self.internal(st), 'the internal lock leaks')
            return
        self.check(eng, st, 'C3 the caller\'s lock is held on return and nothing else', st.locks == (self.user,),
                   'leaves (%s) with locks %s' % (kind, [eng.where(l) for l in st.locks]))
        if self.ul is not None:
            self.check(eng, st, 'C3 the caller\'s lock is held on return and nothing else', st.mem.get((self.ul[1], 8)) == ONE,
                       'the caller\'s unique_lock no longer reports ownership')
        if kind != 'ret':
            return
        if self.pred:
            r = ret_bool(st, val) if op != 'wait' else True
            self.check(eng, st, 'C12 a predicate wait returns what the predicate said last',
                       m['fresh'] == ONE and r is not None and m['pv'] == (ONE if r else ZERO),
                       'returns %s although the predicate %s' % (tri(r), 'was not evaluated after the last wait' if m['fresh'] != ONE
                                                                else 'said otherwise'))
            if op != 'wait' and r is False:
                self.check(eng, st, 'C13 false is returned only after the deadline', m['to'] == ONE and m['parks'] != ZERO,
                           'gives up before the deadline')
        else:
            self.check(eng, st, 'C14 a plain wait waits once', m['parks'] == ONE, 'returns without having waited, or waits again')
            if op != 'wait':
                want = self.K['timeout' if m['to'] == ONE else 'no_timeout']
                self.check(eng, st, 'C15 a timeout is reported exactly when the deadline ended the wait', val == want or
                           st.known_eq(val, want) is True, 'returns %s after %s' % (eng.where(val), 'a timeout' if m['to'] == ONE else 'a notification'))


def run(ctx):
    P = ctx.load(['tu/cv.cpp', 'src/condition_variable.cpp'])
    K = {k: constant(P, 'k_' + k) for k in ('timeout', 'no_timeout')}
    n = 0
    for c in CV:
        for op in ('wait', 'wait_until', 'wait_for', 'notify_one', 'notify_all'):
            for f in ctx.functions(P, '%s::%s' % (c, op), need=1 if op.startswith('notify') else 2):
                r = CVRules(P, op, K)
                ctx.explore(P, f, r, r.setup)
                n += 1
    ctx.require('C1 the caller\'s lock is released after the fiber can be notified', 6)
    ctx.require('C12 a predicate wait returns what the predicate said last', 6)
    ctx.require('C9 notifications are made under the internal lock', 2)
