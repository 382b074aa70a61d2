"""Wake-ups carry the epoch of the wait they belong to.  create_waker is shown to advance the
fiber's wake epoch by one atomic increment and to return exactly the new value; wake is shown
to claim the wait by one atomic compare-and-exchange from the waker's epoch to its successor,
to make the fiber ready exactly once iff that succeeded, and to report it; every function of
the library that touches the epoch is scanned: no other kind of write exists."""
from rules.common import *
from engine import Engine
ASSUME = ['the epoch counter does not wrap around while a waker is outstanding']
S = NS + 'scheduler::'
STRONG = ('acq_rel', 'seq_cst')


class Create(Mon):
    def start(self, eng, st):
        st.mon['n'] = ZERO

    def on_event(self, eng, st, ev):
        if ev.k == 'rmw' and ev.base == 'this':
            self.check(eng, st, 'K1 a new waker advances the wake epoch by one atomic step', ev.rmw == 'add' and ev.x == ONE and
                       st.mon['n'] == ZERO, 'the epoch is changed by %s %s' % (ev.rmw, eng.where(ev.x)))
            st.mon['n'] = ONE
            st.mon['off'] = ('c', ev.off)
            st.mon['new'] = ev.val
            self.ctx.epoch_off = ev.off

    def exit(self, eng, st, kind, val):
        self.check(eng, st, 'K1 a new waker advances the wake epoch by one atomic step', kind == 'ret' and st.mon['n'] == ONE,
                   'create_waker does not advance the wake epoch atomically: an older waker stays valid')
        if st.mon['n'] != ONE:
            return
        # {context*, epoch} returned in two registers
        c, e = None, None
        if val is not None and val[0] == 'agg':
            c, e = val[1], val[2]
        elif 'a:ret' in eng.roots:
            c = eng.load(st, ('p', 'a:ret', 0), 'rc', True, 8, silent=True)
            e = eng.load(st, ('p', 'a:ret', 8), 're', False, 8, silent=True)
        self.check(eng, st, 'K2 the returned waker carries its fiber and the epoch just created',
                   c == ('p', 'this', 0) and st.known_eq(e, st.mon['new']) is True,
                   'the waker carries %s, epoch %s' % (eng.where(c), eng.where(e)))


class Wake(Mon):
    watch = {S + 'schedule': 'local', S + 'schedule_from_remote': 'remote'}
    inline = (NS + 'context::wake', NS + 'context::schedule')

    def __init__(self, off):
        self.off = off

    def start(self, eng, st):
        st.mon.update(claim='none', sched=ZERO)

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'cas' and ev.base == 'this' and ev.off == self.off:
            ep = self.epoch(eng)
            if ev.ok:
                self.check(eng, st, 'K3 a wake claims exactly the wait its waker was made for', st.known_eq(ev.exp, ep) is True,
                           'the exchange expects %s instead of the waker\'s epoch' % eng.where(ev.exp))
                self.check(eng, st, 'K4 a claimed wait cannot be claimed again', m['claim'] != 'won' and
                           ev.val == mkop('add', (ep, ONE), 64), 'the epoch becomes %s' % eng.where(ev.val))
                self.check(eng, st, 'K5 claiming a wait synchronises with the waiter', ev.order in STRONG, 'memory order is %s' % ev.order)
                m['claim'] = 'won'
            else:
                m['claim'], m['old'] = 'lost', ev.old
        elif ev.k == 'read' and ev.base == 'this' and ev.off == self.off and m['claim'] != 'won':
            m['old'] = ev.val
        elif ev.k in ('local', 'remote'):
            self.check(eng, st, 'K6 only the claim makes the fiber ready, once', m['claim'] == 'won' and m['sched'] == ZERO,
                       'the fiber is made ready although %s' % ('its wait was not claimed' if m['claim'] != 'won' else 'it already was'))
            m['sched'] = ONE
            self.check(eng, st, 'K7 the woken fiber is this one', ev.args[1] == ('p', 'this', 0), 'another fiber is made ready')
            so = self.sched_off(eng)
            mine = eng.load(st, ('p', 'this', so), 'so', True, 8, silent=True)
            self.check(eng, st, 'K8 the fiber is queued on its own scheduler', st.known_eq(ev.args[0], mine) is True,
                       'the fiber is handed to a scheduler it does not belong to')
            if ev.k == 'local':
                act = eng.load(st, ('p', 'nn:active', so), 'sa', True, 8, silent=True)
                self.check(eng, st, 'K9 the local queue is used only on the scheduler\'s own thread', st.known_eq(act, mine) is True,
                           'the unsynchronised ready queue is used although the caller may run on another thread')

    def epoch(self, eng):
        for v in eng.argvals:
            if v[0] == 's' and v[1] != 'this':
                return v
        raise Broken('anchor vanished: epoch argument of context::wake')

    def sched_off(self, eng):
        return by_type(eng.P, record(eng.P, NS + 'context'), NS + 'scheduler*', name='scheduler_')[0]

    def rely(self, eng, st, base, off, val):
        # a claimed (parked) fiber and the running one are not migrated by anybody else
        if off == self.sched_off(eng):
            return 'keep'
        return Mon.rely(self, eng, st, base, off, val)

    def exit(self, eng, st, kind, val):
        m = st.mon
        r = ret_bool(st, val) if kind == 'ret' else None
        self.check(eng, st, 'K10 wake reports whether it claimed the wait', r is not None and r == (m['claim'] == 'won'),
                   'wake %s with the claim %s' % (r, m['claim']))
        self.check(eng, st, 'K6 only the claim makes the fiber ready, once', (m['sched'] == ONE) == (m['claim'] == 'won'),
                   'the wait is claimed but the fiber is not made ready: it sleeps for ever')
        self.check(eng, st, 'K11 a valid wake is never refused', m['claim'] == 'won' or
                   ('old' in m and st.known_eq(m['old'], self.epoch(eng)) is False),
                   'wake gives up although the epoch may still match: the wake-up is lost')


class Scan(Mon):
    """Every write to a context's epoch, anywhere."""
    opaque_throws = False

    def __init__(self, P, off):
        self.tids = {t for t in P.types if P.types[t].get('els') and
                     (P.tshort(t) in (NS + 'context', NS + 'main_context', NS + 'dispatcher_context') or
                      P.tshort(t).startswith(NS + 'worker_context'))}
        self.off = off

    def on_event(self, eng, st, ev):
        if ev.k not in ('write', 'rmw', 'cas') or ev.off != self.off or ev.ty not in self.tids:
            return
        nm = self.fn.short
        if ev.k == 'write':
            ctor = nm.split('::')[-1] == nm.split('::')[-2]
            self.check(eng, st, 'K12 the epoch only advances, atomically', ctor or ev.base[:2] in ('h:', 'a:'),
                       'plain write of the wake epoch', where=nm)
        elif ev.k == 'rmw':
            self.check(eng, st, 'K12 the epoch only advances, atomically', ev.rmw == 'add' and ev.x == ONE,
                       'the wake epoch is changed by %s %s' % (ev.rmw, eng.where(ev.x)), where=nm)
        elif ev.ok:
            self.check(eng, st, 'K12 the epoch only advances, atomically', ev.val == mkop('add', (ev.exp, ONE), 64),
                       'the wake epoch is exchanged for %s' % eng.where(ev.val), where=nm)


def run(ctx):
    P = ctx.load(['src/context.cpp', 'src/scheduler.cpp', 'src/waker.cpp'])
    ctx.epoch_off = None
    for f in ctx.functions(P, 'context::create_waker'):
        ctx.explore(P, f, Create())
    if ctx.epoch_off is None:
        return
    for f in ctx.functions(P, 'context::wake'):
        ctx.explore(P, f, Wake(ctx.epoch_off))
    for f in entries(P, Engine(P).models, ('context::wake', 'context::create_waker')):
        ctx.explore(P, f, Scan(P, ctx.epoch_off))
    ctx.require('K3 a wake claims exactly the wait its waker was made for', 1)
