"""The four ways to leave a fiber's stack (resume, resume with a lock, resume with a fiber to
requeue, suspend_with_cc) are explored through Boost.Context's switch primitive: code before
the switch, the closure that runs on the target's stack, and the code after.  The running
context is published before the switch, the suspended stack is stored in the previous
context before the caller's lock is released or the fiber is made ready, the lock is released
exactly once and on the other stack, and no other lock is held across."""
from rules.common import *
ASSUME = ['Boost.Context\'s ontop_fcontext runs the closure on the target stack with the caller\'s stack suspended']


class Switch(Mon):
    inline = (NS + 'context::resume', NS + 'context::suspend_with_cc')
    inline_prefix = ('boost::context::',)
    watch = {NS + 'context::schedule': 'sched', NS + 'scheduler::schedule': 'sched'}

    def __init__(self, P, kind):
        self.P = P
        t = record(P, NS + 'context')
        self.c = [m for m in leaf_members(P, t) if m[2].startswith('boost::context::fiber')]
        if len(self.c) != 1:
            raise Broken('anchor vanished: suspended stack of context')
        self.c = self.c[0][0]
        self.g = active_context(P)
        self.kind = kind

    def setup(self, eng, st):
        st.names.add('nn:active')
        eng.roots |= {'nn:active', self.g}
        eng.symty['nn:active'] = record(self.P, NS + 'context')
        eng.symdesc['nn:active'] = 'previously active context'
        st.mem[(self.g, 0)] = ACTIVE
        st.mem[('nn:active', self.c)] = ZERO        # a running fiber has no suspended stack
        self.dev = self.ready = None
        for v in eng.argvals[0:]:
            if v[0] != 'p' or v[1] in ('this', 'a:ret'):
                continue
            tn = eng.P.tname(eng.symty[v[1]]) if eng.symty.get(v[1]) is not None else ''
            if 'unique_lock' in tn:
                self.dev = ('p', 'nn:lockdev', 0)
                eng.symdesc['nn:lockdev'] = 'caller\'s lock'
                eng.roots.add('nn:lockdev')
                st.mem[(v[1], 0)] = self.dev
                st.mem[(v[1], 8)] = ONE
                st.locks = (self.dev,)
            elif tn.startswith(NS + 'context'):
                self.ready = v
        st.mon.update(phase='before', rel=ZERO, sched=ZERO)

    def rely(self, eng, st, base, off, val):
        return 'keep' if base in ('nn:active', self.g, 'this') or base.startswith('nn:arg') else None

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == NS + 'context::active':
            return [(st, eng.load(st, ('p', self.g, 0), 'act', True, 8, silent=True))]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'switch':
            if m['phase'] != 'before':
                self.check(eng, st, 'S1 one switch per resumption', st.known_eq(ev.target, ZERO) is True or m['phase'] == 'after' and False,
                           'a second stack switch happens during a resumption')
                return
            m['phase'] = 'on'
            self.check(eng, st, 'S2 the resumed fiber is the active one when it starts to run',
                       st.mem.get((self.g, 0)) == ('p', 'this', 0), 'the active context is not the resumed one at the switch')
            own = m.get('target')
            self.check(eng, st, 'S3 the switch goes to the stack suspended in the resumed context', own is not None and ev.target == own,
                       'the switch goes to %s' % eng.where(ev.target))
            self.check(eng, st, 'S4 a running fiber holds no suspended stack', st.mem.get(('this', self.c)) == ZERO,
                       'the stack handle stays in the resumed context: it could be resumed twice')
            self.check(eng, st, 'S5 the caller\'s lock is still held when the stack is left', (self.dev is None and not ev.held) or
                       (self.dev is not None and ev.held == (self.dev,)),
                       'locks at the switch: %s' % [eng.where(l) for l in ev.held])
        elif ev.k == 'read' and ev.base == 'this' and ev.off == self.c and 'target' not in m:
            m['target'] = ev.val
        elif ev.k == 'release' and ev.lock == self.dev:
            m['rel'] = ONE if m['rel'] == ZERO else ('c', 2)
            self.check(eng, st, 'S6 the lock is released only once the fiber can be resumed', self.saved(eng, st) and m['phase'] == 'on',
                       'the lock is released before the suspended stack is stored: a waker could resume a fiber that is still running')
        elif ev.k == 'sched':
            self.check(eng, st, 'S7 the fiber becomes ready only once it can be resumed', self.saved(eng, st) and m['phase'] == 'on',
                       'the fiber is made ready before its suspended stack is stored')
            self.check(eng, st, 'S8 the requeued fiber is the one handed in', self.ready is not None and ev.args[1] == self.ready and m['sched'] == ZERO,
                       'another fiber is made ready, or it is made ready twice')
            m['sched'] = ONE
        elif ev.k == 'switched':
            self.check(eng, st, 'S9 the suspended stack is stored in the previous context', self.saved(eng, st),
                       'the suspended stack is not stored in the context that was active')
            self.check(eng, st, 'S10 nothing is held across the switch', not ev.held, 'a lock is still held: %s' % [eng.where(l) for l in ev.held])
            self.check(eng, st, 'S11 the resumer hands nothing back to the resumed stack', ev.ret is None or self.null(st, ev.ret),
                       'the closure returns a live stack to the resumed fiber')
            m['phase'] = 'after'

    def null(self, st, r):
        v = r[1] if r[0] == 'agg' else r
        return v == ZERO

    def saved(self, eng, st):
        v = st.mem.get(('nn:active', self.c))
        return v is not None and v[0] == 'p' and v[1].startswith('nn:selfctx')

    def exit(self, eng, st, kind, val):
        m = st.mon
        if kind != 'ret':
            self.check(eng, st, 'S12 a resumption does not fail', False, 'leaves with %s' % kind)
            return
        self.check(eng, st, 'S12 a resumption does not fail', m['phase'] == 'after', 'returns without having switched')
        if self.dev is not None:
            self.check(eng, st, 'S13 the caller\'s lock is released exactly once', m['rel'] == ONE, 'the lock is %s' % (
                'never released' if m['rel'] == ZERO else 'released twice'))
        if self.ready is not None:
            self.check(eng, st, 'S14 the fiber handed in is made ready', m['sched'] == ONE, 'the fiber handed in is dropped')


def run(ctx):
    P = ctx.load(['src/context.cpp'])
    n = 0
    for op in ('resume', 'suspend_with_cc'):
        for f in ctx.functions(P, 'context::' + op):
            r = Switch(P, op)
            ctx.explore(P, f, r, r.setup)
            n += 1
    if n < 4:
        raise Broken('anchor vanished: only %d ways to leave a stack found' % n)
    ctx.require('S9 the suspended stack is stored in the previous context', 2)
    ctx.require('S6 the lock is released only once the fiber can be resumed', 1)
    ctx.require('S7 the fiber becomes ready only once it can be resumed', 1)
