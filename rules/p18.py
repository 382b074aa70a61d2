"""Joining: context::join is explored over all paths — the terminated flag decides under the context's lock, an unfinished context makes the caller
park on that context's joiner queue within the same critical section, and nothing else blocks.  Termination: every launched fiber is followed on its
own stack from its callable to its release; it sets the flag under that lock, notifies every joiner no later than the end of that critical section,
has destroyed callable and arguments before, leaves worker list and locks behind, leaves by one switch to the scheduler's next fiber, and is neither
queued nor touched by itself afterwards."""
from rules.life import *
ASSUME = ['wait_queue parks and notifies as decided by P04', 'the switch preserves contexts as decided by P06', 'fiber-local clean-up is decided by P27',
          'spinlocks exclude each other as decided by P26']


class Join(CS):
    inline_prefix = (NS + 'context::join',)
    inline = (NS + 'context::join',)

    def __init__(self, P, lay):
        self.P, self.lay = P, lay
        self.lockoff = lay.lock
        self.fields = {'flag': (lay.flag, False, 1)}

    def rely(self, eng, st, base, off, val):
        # the flag only changes under the lock, and is never reset
        if base == 'this' and isinstance(off, int) and self.lay.flag <= off < self.lay.flag + 1 and not self.held(eng, st):
            return val if val == ONE else None
        return Mon.rely(self, eng, st, base, off, val)

    def start(self, eng, st):
        st.mon.update(done=ZERO, seen=U, parks=ZERO)

    def on_event(self, eng, st, ev):
        m, k, L = st.mon, ev.k, self.lay
        if k in ('read', 'rmw', 'cas') and ev.base == 'this' and isinstance(ev.off, int) and ev.off == L.flag:
            self.check(eng, st, 'J1 the terminated flag is tested under the lock that termination sets it under', self.held(eng, st),
                       'the flag is read without the lock: the fiber may end, and notify, before the caller is registered')
        if k in ('write', 'rmw', 'cas') and ev.base == 'this' and isinstance(ev.off, int) and ev.off == L.flag:
            self.check(eng, st, 'J5 joining does not change the joined fiber', False, 'join writes the terminated flag')
        if k == 'acquired' and overlaps(ev.lock, 'this', *L.lock):
            m['done'] = ZERO
        if k == 'enqueue':
            v = self.cell(eng, st, 'flag') if self.held(eng, st) else U
            inq = ev.wq[1] == 'this' and L.wq[0] <= ev.wq[2] < L.wq[0] + L.wq[1]
            self.check(eng, st, 'J2 the caller registers, as itself, on the joined fiber\'s queue in the critical section that saw it unfinished',
                       inq and overlaps(ev.lock, 'this', *L.lock) and ev.own == ONE and st.known_eq(ev.ctx, ACTIVE) is True and not ev.timed,
                       'registers %s on %s under %s' % (eng.where(ev.ctx), eng.where(ev.wq), eng.where(ev.lock)))
            self.check(eng, st, 'J3 join blocks only on a fiber that has not terminated', st.known_eq(v, ZERO) is True, 'blocks although the fiber may have terminated')
            m['parks'] = ONE
            m['done'] = ONE
        elif k == 'suspend' and ev.kind not in ('wait', 'wait_until'):
            self.check(eng, st, 'J3 join blocks only on a fiber that has not terminated', False, 'suspends without being registered')
        elif k == 'notify':
            self.check(eng, st, 'J5 joining does not change the joined fiber', False, 'join notifies waiters')
        CS.on_event(self, eng, st, ev)

    def cs_end(self, eng, st, why):
        if st.known_eq(self.cell(eng, st, 'flag'), ONE) is True or st.truth(self.cell(eng, st, 'flag')) is True:
            st.mon['done'] = ONE

    def exit(self, eng, st, kind, val):
        m = st.mon
        self.check(eng, st, 'J6 join leaves nothing locked', not st.locks, 'leaves %s locked' % [eng.where(l) for l in st.locks])
        if kind == 'ret':
            self.check(eng, st, 'J4 join returns only after the fiber has terminated', m['done'] == ONE,
                       'returns although the fiber was neither seen terminated nor waited for')


def run(ctx):
    P, lay = explore(ctx, 'T')
    f, = ctx.functions(P, 'context::join', need=1)
    ctx.explore(P, f, Join(P, lay))
    ctx.require('J2 the caller registers, as itself, on the joined fiber\'s queue in the critical section that saw it unfinished', 1)
    for r in ('T1 a terminating fiber sets its terminated flag under its lock', 'T2 a terminating fiber wakes every joiner'):
        ctx.require(r, 1)
