"""Every member function of the wait queue is explored over all its paths (loops to a
fixpoint).  Parking: a fresh waker of the calling fiber is linked at the tail before the
fiber suspends, with the guarding lock handed to the suspension.  Notification: waiters are
taken from the head, each is unlinked before it is woken, notify_one stops only when a wake
succeeded or the queue is empty, notify_all leaves the queue empty and wakes whatever it
took.  Expiry: a timed-out waiter re-acquires the lock, is unlinked when the frame holding
its queue node goes away, and hands over a notification that had already claimed it."""
from rules.common import *
from rules.queues import Queues
from models import drop_links
ASSUME = ['callers hold the guarding lock when they enter the wait queue (decided per primitive by P03, P07-P11, P18)',
          'Boost.Intrusive containers behave as documented', 'context::suspend/wait_until release the lock they are given only '
          'after the fiber can be resumed (decided by P06)']
WQ = NS + 'wait_queue'


class WQ_Rules(Queues):
    inline = (WQ + '::suspend_and_wait', WQ + '::suspend_and_wait_until', WQ + '::notify_one', WQ + '::notify_all',
              WQ + '::empty', NS + 'waker::wake')

    def __init__(self, P):
        self.P = P
        self.t = record(P, WQ)
        self.tw = record(P, NS + 'waker')
        self.eltype = record(P, NS + 'waker_with_hook')
        self.list = by_type(P, self.t, 'boost::intrusive::slist%', name='slist_')
        self.wctx = by_type(P, self.tw, NS + 'context*')[0]
        self.wep = [m for m in leaf_members(P, self.tw) if m[2] in ('size_t', 'unsigned long', 'std::size_t')][0][0]
        th = record(P, NS + 'waker_with_hook')
        hooks = [m for m in leaf_members(P, th) if 'hook' in m[2] or 'hook' in m[1]]
        if len(hooks) != 1:
            raise Broken('anchor vanished: queue hook of waker_with_hook')
        self.hook = hooks[0][0]

    def mine(self, c):
        return c[0] == 'p' and c[1] == 'this' and isinstance(c[2], int) and self.list[0] <= c[2] < self.list[0] + 16

    def start(self, eng, st):
        st.mon.update(created=ZERO, parked=ZERO, phase='run', taken=(), woken=ZERO, dead=(), timeout='no')

    def node(self, v):
        """The queue node a container element refers to."""
        if v is None or v[0] != 'p':
            return None
        return v

    def on_event(self, eng, st, ev):
        k, m = ev.k, st.mon
        if k == 'rmw' and ev.path and 'epoch' in ev.path:
            m['created'] = ev.val
            m['epoch_of'] = ('p', ev.base, 0)
        elif k == 'put':
            self.put(eng, st, ev)
        elif k == 'took':
            self.took(eng, st, ev)
        elif k == 'wake':
            self.wake(eng, st, ev)
        elif k in ('ctx_suspend', 'ctx_wait_until'):
            self.park(eng, st, ev)
        elif k == 'wait_result':
            m['timeout'] = 'yes' if ev.timeout else 'no'
        elif k == 'hook' and ev.op == 'unlink':
            m['linked'] = ZERO
        elif k == 'hook' and ev.op == 'is_linked' and m['parked'] == ONE and ev.h[1] == m['node'][1]:
            self.check(eng, st, 'W6 an expired waiter looks at its queue link only under the lock', bool(st.locks),
                       'the link of the waiting fiber\'s queue node is read without the guarding lock')
        elif k == 'acquired':
            m['relocked'] = ONE
        elif k == 'release' and ev.why == 'unlock' and m['parked'] == ONE:
            self.leave(eng, st, 'releases the lock')

    def new_elem(self, eng, st, p, v):
        m = st.mon
        m['seen'] = tuple(x for x in m.get('seen', ()) if x[0] != v)[-3:] + ((v, self.field(eng, st, v, self.wctx, True), self.field(eng, st, v, self.wep, False)),)

    def put(self, eng, st, ev):
        m = st.mon
        if ev.val[0] == 'p':
            drop_links(st, ev.val[1])
        if not self.mine(ev.c):
            return
        self.check(eng, st, 'W1 waiters queue at the tail', ev.op == 'push_back',
                   'the waiter is linked with %s: a later waiter is served before an earlier one' % ev.op)
        self.check(eng, st, 'W2 the waiter is linked under the guarding lock', bool(st.locks),
                   'the waiter is linked without the guarding lock')
        v = ev.val
        ctx = eng.load(st, ('p', v[1], addoff(v[2], self.wctx)), 'w.ctx', True, 8, silent=True)
        ep = eng.load(st, ('p', v[1], addoff(v[2], self.wep)), 'w.ep', False, 8, silent=True)
        self.check(eng, st, 'W3 the linked waker belongs to the parking fiber and is its newest',
                   m['created'] != ZERO and st.known_eq(ctx, m['epoch_of']) is True and st.known_eq(ep, m['created']) is True,
                   'the linked waker does not carry the fiber\'s newest wake epoch')
        m['node'] = v
        m['linked'] = ONE
        m['pctx'] = ctx
        m['pep'] = ep

    def took(self, eng, st, ev):
        m, v = st.mon, ev.val
        if v[0] == 'p':
            drop_links(st, v[1])
        if ev.how in ('remove', 'erase') and m['parked'] == ONE and v[1] == m.get('node', ZERO)[1]:
            self.check(eng, st, 'W6 an expired waiter looks at its queue link only under the lock', bool(st.locks),
                       'the expired waiter unlinks itself without the guarding lock')
            m['linked'] = ZERO
            return
        self.check(eng, st, 'W4 waiters are taken from the head', ev.how == 'pop_front' or self.q(st, ev.c)[2] == v,
                   'the waiter is taken with %s' % ev.how)
        if not any(x[0] == v for x in m.get('seen', ())):
            self.report(eng, st, 'W7 every waiter taken from the queue is woken', 'a waiter is removed without having been looked at')
        if v not in m['taken']:
            m['taken'] = m['taken'] + (v,)
        if m['woken'] == ONE and self.op in ('notify_one',):
            self.report(eng, st, 'W8 notify_one takes waiters only until one is woken',
                        'another waiter is taken after one has been woken')

    def field(self, eng, st, p, off, ptr):
        return eng.load(st, ('p', p[1], addoff(p[2], off)), 'w.%s.%s%s' % ('ctx' if ptr else 'ep', p[1], p[2]), ptr, 8, silent=True)

    def wake(self, eng, st, ev):
        m = st.mon
        v = ev.args[0]
        if ev.short.endswith('context::wake') or v not in m['taken']:
            # reached through waker::wake, or a copy of the waker: recover the queued one from its fields
            def field(p, off, ptr):
                return self.field(eng, st, p, off, ptr)
            seen = {x[0]: x[1:] for x in m.get('seen', ())}
            if ev.short.endswith('context::wake'):
                ctx, ep = ev.args[0], ev.args[1]
            elif v[0] == 'p':
                ctx, ep = field(v, self.wctx, True), field(v, self.wep, False)
            else:
                ctx = ep = U
            cand = [t for t in m['taken'] if ctx != U and st.known_eq(ctx, field(t, self.wctx, True)) and st.known_eq(ep, field(t, self.wep, False)) or
                    t in seen and ctx != U and st.known_eq(ctx, seen[t][0]) and st.known_eq(ep, seen[t][1])]
            v = cand[0] if cand else None
        ctx_ok = v is not None
        self.check(eng, st, 'W5 a waiter is unlinked before it is woken, and woken with its own context and epoch', ctx_ok,
                   'wake of a waker that is still linked, was not taken from the queue, or with other arguments: the woken '
                   'fiber destroys its queue node while it is in the queue')
        if ctx_ok:
            l = list(m['taken'])
            l.remove(v)
            m['taken'] = tuple(l)
        # remember the outcome; the branch on it refines the symbol
        m['last'] = ev.val
        if self.op == 'notify_one' or m['parked'] == ONE:
            m['woken'] = ev.val

    def park(self, eng, st, ev):
        m = st.mon
        w = m.get('node')
        self.check(eng, st, 'W9 the fiber suspends only after its waker is linked', w is not None and m.get('linked') == ONE,
                   'the fiber suspends without a linked waker: no notification can reach it')
        if w is not None:
            self.check(eng, st, 'W10 the suspended fiber is the one whose waker is linked', st.known_eq(ev.ctx, m['pctx']) is True,
                       'the suspending context differs from the waker\'s')
            self.check(eng, st, 'W3 the linked waker belongs to the parking fiber and is its newest',
                       st.known_eq(m['pep'], m['created']) is True,
                       'the linked waker was outdated by a newer one before the fiber suspended: its notification is ignored')
        self.check(eng, st, 'W11 the guarding lock is handed to the suspension', ev.lock is not None and st.known_eq(ev.lock, self.dev) is True
                   and self.dev in ev.held,
                   'the guarding lock is released before the fiber is suspended, or another lock is handed over')
        if ev.k == 'ctx_wait_until':
            self.check(eng, st, 'W12 the deadline is the caller\'s', self.tp is None or self.same_tp(eng, st, ev.tp),
                       'the fiber sleeps until a time point other than the caller\'s')
            wk = ev.waker
            if wk is not None and w is not None:
                c1 = eng.load(st, ('p', wk[1], addoff(wk[2], self.wctx)), 'sw.ctx', True, 8, silent=True)
                e1 = eng.load(st, ('p', wk[1], addoff(wk[2], self.wep)), 'sw.ep', False, 8, silent=True)
                self.check(eng, st, 'W13 the deadline waker and the queued waker carry the same epoch, so only one fires',
                           st.known_eq(c1, m['pctx']) is True and st.known_eq(e1, m['created']) is True,
                           'the sleep waker does not carry the epoch of the queued waker')
        elif self.tp is not None:
            self.report(eng, st, 'W12 the deadline is the caller\'s', 'the timed wait suspends without a deadline')
        self.check(eng, st, 'W14 one park per call', m['parked'] == ZERO, 'the fiber parks twice on one waker')
        m['parked'] = ONE
        # from here on a notification may or may not have unlinked the node
        m['linked'] = ('c', 2)
        self.forget(st)
        if w is not None:
            st.mem.pop((w[1], ('lk', addoff(w[2], self.hook))), None)

    def same_tp(self, eng, st, v):
        if v == self.tp:
            return True
        a = eng.load(st, v, 'tp1', False, 8, silent=True)
        b = eng.load(st, self.tp, 'tp2', False, 8, silent=True)
        return st.known_eq(a, b) is True

    def link_state(self, eng, st):
        """Is the parked waiter's node linked?  True / False / None."""
        m = st.mon
        if m['linked'] == ZERO:
            return False
        w = m['node']
        v = st.mem.get((w[1], ('lk', addoff(w[2], self.hook))))
        return None if v is None else st.truth(v)

    def own(self):
        return ('p', 'this', self.list[0])

    def empty_now(self, st):
        return self.q(st, self.own())[1] == 'E'

    def leave(self, eng, st, what):
        m = st.mon
        if m['timeout'] != 'yes' or m['phase'] == 'left':
            return
        ls = self.link_state(eng, st)
        own_removed = m['linked'] == ZERO
        self.check(eng, st, 'W15 an expired waiter is unlinked before its queue node dies', ls is False,
                   'the expired waiter %s while its queue node may still be linked' % what)
        if not own_removed and ls is False:
            self.check(eng, st, 'W16 an expired waiter hands over the notification that claimed it',
                       (m['woken'] != ZERO and st.truth(m['woken']) is True) or self.empty_now(st),
                       'a notification took this waiter from the queue, the waiter reports a timeout, and no other waiter is '
                       'notified: the notification is lost')
        m['phase'] = 'left'

    def exit(self, eng, st, kind, val):
        m, op = st.mon, self.op
        if kind != 'ret':
            self.check(eng, st, 'W17 wait-queue operations do not fail', kind == 'unreachable', 'leaves with %s' % kind)
            return
        if op.startswith('suspend'):
            self.check(eng, st, 'W9 the fiber suspends only after its waker is linked', m['parked'] == ONE,
                       'returns without having suspended')
            if op.endswith('until'):
                r = ret_bool(st, val)
                to = m['timeout'] == 'yes'
                self.check(eng, st, 'W18 the timed wait reports a timeout exactly when the deadline woke it', r is (not to),
                           'returns %s on %s' % (r, 'timeout' if to else 'notification'))
                if to:
                    self.leave(eng, st, 'returns')
                    self.check(eng, st, 'W15 an expired waiter is unlinked before its queue node dies', m.get('relocked') == ONE,
                               'the expired waiter returns without having taken the guarding lock')
            self.check(eng, st, 'W19 the caller\'s lock is released on return', not st.locks, 'returns with the guarding lock held')
            return
        empty = self.empty_now(st)
        if op == 'notify_one':
            woke = m['woken'] != ZERO and st.truth(m['woken']) is True
            self.check(eng, st, 'W8 notify_one gives up only when the queue is empty', woke or empty,
                       'returns although no waiter was woken and the queue may not be empty')
        if op == 'notify_all':
            others = [e for e in m.get('q', ()) if e[1] != 'E']
            self.check(eng, st, 'W20 notify_all leaves no waiter behind', empty and not others,
                       'returns although the queue may not be empty')
        if op == 'empty':
            self.check(eng, st, 'W21 empty reports the state of the queue', self.q(st, self.own())[1] in 'NE' and ret_bool(st, val) is empty,
                       'the result does not reflect the queue')
        self.check(eng, st, 'W7 every waiter taken from the queue is woken', not m['taken'],
                   'a waiter was taken from the queue and never woken')


def lk_setup(rules, eng, st):
    """Bind the unique_lock argument to an owned lock, and the other arguments by type."""
    rules.dev, rules.tp, rules.actx = None, None, None
    for v in eng.argvals:
        if v[0] != 'p' or v[1] in ('this', 'a:ret'):
            continue
        tn = eng.P.tname(eng.symty.get(v[1])) if eng.symty.get(v[1]) is not None else ''
        if 'unique_lock' in tn:
            dev = ('p', 'nn:lockdev', 0)
            eng.symdesc['nn:lockdev'] = 'guarding lock'
            eng.roots.add('nn:lockdev')
            st.names.add('nn:lockdev')
            st.mem[(v[1], 0)] = dev
            st.mem[(v[1], 8)] = ONE
            st.locks = (dev,)
            rules.dev = dev
        elif 'time_point' in tn:
            rules.tp = v
        elif tn.startswith(NS + 'context'):
            rules.actx = v


def run(ctx):
    P = ctx.load(['src/waker.cpp'])
    for op in ('suspend_and_wait', 'suspend_and_wait_until', 'notify_one', 'notify_all', 'empty'):
        for f in ctx.functions(P, 'wait_queue::' + op):
            r = WQ_Rules(P)
            r.op = op

            def setup(eng, st, r=r):
                lk_setup(r, eng, st)
                if r.op.startswith('notify'):
                    # notifiers run under the guarding lock (P03, P07-P11 decide that per caller)
                    st.locks = (('p', 'nn:lockdev', 0),)
                    eng.roots.add('nn:lockdev')
                elif r.op.startswith('suspend') and r.dev is None:
                    raise Broken('anchor vanished: %s takes no lock' % r.fn.short)
            ctx.explore(P, f, r, setup)
    for f in ctx.functions(P, 'waker::wake'):
        r = Fwd(P)
        ctx.explore(P, f, r)
    for rule in ('W9 the fiber suspends only after its waker is linked', 'W15 an expired waiter is unlinked before its queue node dies',
                 'W5 a waiter is unlinked before it is woken, and woken with its own context and epoch'):
        ctx.require(rule, 1)


class Fwd(WQ_Rules):
    inline = (NS + 'waker::wake',)
    op = 'wake'

    def on_event(self, eng, st, ev):
        if ev.k == 'wake':
            c = eng.load(st, ('p', 'this', self.wctx), 'c', True, 8, silent=True)
            e = eng.load(st, ('p', 'this', self.wep), 'e', False, 8, silent=True)
            self.check(eng, st, 'W22 a waker wakes its own fiber with its own epoch', st.known_eq(ev.args[0], c) is True and
                       st.known_eq(ev.args[1], e) is True, 'wake is called with another context or epoch')
            st.mon['r'] = ev.val
            st.mon['n'] = ONE

    def exit(self, eng, st, kind, val):
        self.check(eng, st, 'W23 a waker reports whether it woke the fiber', kind == 'ret' and st.mon.get('n') == ONE and
                   (val == st.mon['r'] or st.known_eq(val, st.mon['r']) is True or
                    (ret_bool(st, val) is not None and ret_bool(st, val) == st.truth(st.mon['r']))),
                   'the outcome of the wake is not reported')
