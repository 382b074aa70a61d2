"""The start of a thread's runtime is explored from the first fiber operation, and from the two ways of installing an algorithm, over all paths: one main fiber,
scheduler and dispatcher, tied together, before the first operation goes on, created only if there are none, and as many actions at thread exit as there are
initialisations.  The end is explored from that action: scheduler before main fiber, once each; the scheduler's destructor first tells the dispatcher, then lets it
run, and only then detaches the thread and releases the dispatcher.  Other threads notify or see an algorithm exchanged only under the lock that keeps it alive."""
from rules.sched import *
import rules.sched as sched
import rules.geometry as geometry
ASSUME = ['the dispatcher ends only without workers and hands back every fiber as decided by P20, which also decides that an exchanged algorithm leaves no ready fiber behind',
          'thread-local destructors run at thread exit']
NOTE = 'the order of thread-local and static destruction across translation units is left to the implementation'
UN = ['tu/start.cpp', 'src/context.cpp', 'src/scheduler.cpp', 'src/algo/round_robin.cpp']
R = {10: 'R10 the control block and the stack below it lie inside the allocated stack', 1: 'R1 the first operation of a thread sets up its runtime once, complete', 2: 'R2 what exists is not set up again',
     3: 'R3 every initialisation is undone by one action at thread exit', 4: 'R4 main fiber, scheduler and dispatcher refer to each other',
     5: 'R5 the given algorithm is the one in use', 6: 'R6 the end of a thread releases scheduler, then main fiber, once',
     7: 'R7 a scheduler that ends lets its dispatcher finish first', 8: 'R8 the dispatcher is released once, off its own stack', 9: 'R9 no fiber is active once the scheduler is gone'}
V1, V2 = sched.V1, sched.V2


class Names:
    def __init__(self, P):
        self.active = active_context(P)
        n = thread_locals(P, lambda t: t.endswith(('size_t', 'unsigned long', 'unsigned int', 'uint32_t', '::uint64_t', 'int', 'long')))
        if len(n) != 1:
            raise Broken('anchor vanished: counter of the initialisations of a thread')
        self.counter = n[0]
        self.guard = ['@' + n for n, o in P.globals.items() if n.startswith('_ZGV') and 'context_initializer' in o.get('dem', n) or n.startswith('_ZGV') and 'ctx_initializer' in n]
        self.vts = '@_ZTVN5boost6fibers9schedulerE'
        if self.vts[1:] not in P.globals:
            raise Broken('anchor vanished: dispatch table of scheduler')
        self.c = record(P, NS + 'context')
        self.s = record(P, NS + 'scheduler')
        self.cnt = next(m[0] for m in top_members(P, self.c) if 'atomic' in m[2] or m[2] == 'unsigned long')
        self.type = member(P, self.c, lambda m: m[2] == NS + 'type', 'kind of fiber')[0]
        self.consts = {k: constant(P, 'k_' + k) for k in ('main', 'dispatcher')}


class Start(Mon):
    inline_prefix = ('boost::fibers::', 'boost::context::preallocated', 'boost::context::stack_context')
    inline = (NS + 'intrusive_ptr_add_ref', NS + 'intrusive_ptr_release')
    sequential = True
    max_states = 20000

    def __init__(self, P, lay, nm, count, known):
        self.P, self.lay, self.nm, self.count, self.known = P, lay, nm, count, known

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def start(self, eng, st):
        nm = self.nm
        self.op = self.fn.short.rsplit('::', 1)[-1]
        c0 = ('c', self.count)
        st.mem[(nm.counter, 0)] = c0
        for g in nm.guard:
            st.mem[(g, 0)] = ('c', self.known)
        a0 = ('p', 'nn:a0', 0)
        st.names.add('nn:a0')
        eng.roots.add('nn:a0')
        eng.symty['nn:a0'] = nm.c
        eng.symdesc['nn:a0'] = 'the active fiber'
        st.mem[(nm.active, 0)] = a0
        st.mon.update(c0=c0, a0=a0, reg=ZERO, up=(), aw=(), setalgo=(), scheds=(), dead=(), cnt=ZERO, block=U)
        if self.op == 'with':
            st.names.add('nn:alg')
            eng.roots.add('nn:alg')
            eng.symdesc['nn:alg'] = 'the given algorithm'
            st.mem[(eng.argvals[0][1], 0)] = ('p', 'nn:alg', 0)
            st.mon['g'] = ('p', 'nn:alg', 0)

    def model(self, eng, st, fr, i, fn, args):
        m, s = st.mon, fn.short
        if s == '__cxa_thread_atexit':
            m['reg'] = ('c', m['reg'][1] + 1)
            self.ctx.fini = args[0]
            st.say('%s: an action at thread exit is registered' % eng.loc(st))
            return [(st, ZERO)]
        if s.split('::')[-1] == 'allocate' and ('stack' in s):
            return [(st, geometry.allocated(eng, st, fr, i, fn, args, geometry.KNOWN))]
        geometry.control_block(self, eng, st, R[10], fn, args)
        geometry.below(self, eng, st, R[10], fn, args, m['block'] if m['block'] != U else None)
        if geometry.constructs(self.P, fn) and args[0][0] == 'p' and geometry.place(args[0])[0] == geometry.KNOWN[1]:
            m['block'] = args[0]
        if s == NS + 'scheduler::set_algo':
            v = eng.load(st, args[1], 'sa', True, 8, silent=True)
            m['setalgo'] = m['setalgo'] + ((args[0], v),)
            return [(st, None)]
        if s == NS + 'algo::algorithm::awakened' or s.endswith('::awakened') and s.startswith(NS + 'algo::'):
            m['aw'] = m['aw'] + (args[1],)
            return [(st, None)]
        if s.endswith('::~scheduler') or s.endswith('::~context') or s.endswith('::~main_context') or s.endswith('::~dispatcher_context'):
            m['dead'] = m['dead'] + (args[0],)
            return [(st, None)]
        return None

    def vt(self, st, base):
        v = st.mem.get((base, 0))
        return v[1] if v and v[0] == 'p' else None

    def on_event(self, eng, st, ev):
        m, L, nm = st.mon, self.lay, self.nm
        if ev.k == 'write' and ev.base.startswith(('x:', 'nn:al:', 'nn:stack')):
            eng.roots.add(ev.base)  # the stack the dispatcher is placed on
        if ev.k in ('write', 'rmw') and ev.off == nm.cnt and ev.base.startswith(('x:', 'nn:al:', 'nn:stack')):
            m['cnt'] = ev.val
        if ev.k == 'write' and ev.off == L.main and ev.val != ZERO and ev.base[0] == 'h' and self.vt(st, ev.base) == nm.vts:
            m['scheds'] = m['scheds'] + ((('p', ev.base, 0), ev.val),)
        if ev.k == 'call' and ev.virt is not None and ev.virt.startswith('awakened'):
            m['aw'] = m['aw'] + (ev.args[1],)
        if ev.k == 'call' and ev.fn is None and len(ev.args) == 1 and ev.name and ev.name.startswith((NS + 'scheduler::', NS + 'context::')):
            m['dead'] = m['dead'] + (ev.args[0],)

    def exit(self, eng, st, kind, val):
        m, L, nm = st.mon, self.lay, self.nm
        if kind != 'ret':
            self.check(eng, st, R[1], kind == 'terminate', 'leaves by an exception')
            return
        first = st.known_eq(m['c0'], ZERO)
        c1 = eng.load(st, ('p', nm.counter, 0), 'c1', False, 8, silent=True)
        act = eng.load(st, ('p', nm.active, 0), 'a1', True, 8, silent=True)
        late = self.op != 'first' and first is False
        d = linear(mkop('sub', (c1, m['c0']), 64))
        self.check(eng, st, R[3], d == {1: m['reg'][1]} or d == {} and m['reg'] == ZERO or st.known_eq(c1, mkop('add', (m['c0'], m['reg']), 64)) is True,
                   'the count of initialisations changes by %s, %d actions are registered' % (eng.where(mkop('sub', (c1, m['c0']), 64)), m['reg'][1]))
        self.check(eng, st, R[2], not m['dead'], 'tears down what exists')
        if first is True:
            ok = len(m['scheds']) == 1
            self.check(eng, st, R[1], ok and m['reg'] != ZERO, '%d schedulers are set up, %d actions registered' % (len(m['scheds']), m['reg'][1]))
            if not ok:
                return
            s, mc = m['scheds'][0]
            ld = lambda b, o, n, p=True: eng.load(st, ('p', b[1], addoff(b[2], o)), n, p, 8, silent=True)
            disp = ld(s, L.disp, 'dp')
            if disp[0] == 'o' and st.known_eq(disp, ZERO) is True:
                return  # a stack does not lie at the null page
            self.check(eng, st, R[4], st.known_eq(act, mc) is True, 'the active fiber is %s, the scheduler\'s main fiber %s' % (eng.where(act), eng.where(mc)))
            self.check(eng, st, R[4], st.known_eq(ld(mc, L.sched, 'ms'), s) is True, 'the main fiber belongs to %s' % eng.where(ld(mc, L.sched, 'ms')))
            if disp[0] not in 'po':
                self.check(eng, st, R[4], False, 'the dispatcher is %s' % eng.where(disp))
                return
            db = ('p', eng.opaque_base(st, disp), 0) if disp[0] == 'o' else disp
            self.check(eng, st, R[4], st.known_eq(ld(db, L.sched, 'dsd'), s) is True, 'the dispatcher belongs to %s' % eng.where(ld(db, L.sched, 'dsd')))
            self.check(eng, st, R[1], m['aw'] == (disp,), 'made ready: %s' % [eng.where(a) for a in m['aw']])
            n = m['cnt']
            self.check(eng, st, R[8], n == ONE, 'the dispatcher starts with %s references, its scheduler holds one' % eng.where(n))
            for b, k in ((mc, 'main'), (db, 'dispatcher')):
                t = eng.load(st, ('p', b[1], addoff(b[2], nm.type)), 'ty', False, 4, silent=True)
                self.check(eng, st, R[4], st.known_eq(t, nm.consts[k]) is True, 'the %s fiber is of kind %s' % (k, eng.where(t)))
            algo = ld(s, L.algo, 'al')
            if self.op == 'with':
                g = m['g']
                self.check(eng, st, R[5], st.known_eq(algo, g) is True, 'the algorithm in use is %s' % eng.where(algo))
                self.check(eng, st, R[5], st.truth(val) is True, 'reports that the thread had been initialised before')
            else:
                self.check(eng, st, R[5], algo[0] == 'p' and algo[1].startswith('h:'), 'the algorithm in use is %s' % eng.where(algo))
            self.check(eng, st, R[5], not m['setalgo'], 'replaces the algorithm')
        else:
            self.check(eng, st, R[2], not m['scheds'] and not m['aw'] and first is False, 'sets up another scheduler' if m['scheds'] else 'does not look whether there is one')
            self.check(eng, st, R[2], st.known_eq(act, m['a0']) is True, 'replaces the active fiber')
            if late:
                own = eng.load(st, ('p', m['a0'][1], L.sched), 'os', True, 8, silent=True)
                ok = len(m['setalgo']) == 1 and st.known_eq(m['setalgo'][0][0], own) is True
                if ok and self.op == 'with':
                    g = m['g']
                    ok = st.known_eq(m['setalgo'][0][1], g) is True
                    self.check(eng, st, R[5], st.truth(val) is False, 'reports that the thread had not been initialised before')
                self.check(eng, st, R[5], ok, 'the algorithm is not handed to the thread\'s scheduler')
        if self.op == 'first':
            self.check(eng, st, R[1], st.known_eq(val, act) is True, 'returns %s' % eng.where(val))


class Finish(Start):
    """What runs at thread exit."""
    def start(self, eng, st):
        Start.start(self, eng, st)
        st.names.add('nn:s0')
        eng.roots.add('nn:s0')
        eng.symty['nn:s0'] = self.nm.s
        eng.symdesc['nn:s0'] = 'its scheduler'
        st.mem[('nn:a0', self.lay.sched)] = ('p', 'nn:s0', 0)

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'read' and ev.base == 'nn:a0' and ('p', 'nn:a0', 0) in m['dead'] or ev.k == 'read' and ev.base == 'nn:s0' and ('p', 'nn:s0', 0) in m['dead']:
            self.check(eng, st, R[6], False, 'uses %s after its end' % eng.where(('p', ev.base, 0)))
        n = len(m['dead'])
        Start.on_event(self, eng, st, ev)
        if len(m['dead']) > n and m['dead'][-1] == ('p', 'nn:s0', 0):
            st.mem[(self.nm.active, 0)] = ZERO

    def exit(self, eng, st, kind, val):
        m = st.mon
        c1 = eng.load(st, ('p', self.nm.counter, 0), 'c1', False, 8, silent=True)
        self.check(eng, st, R[3], kind == 'ret' and st.known_eq(c1, mkop('add', (m['c0'], ('c', -1)), 64)) is True, 'the count of initialisations becomes %s' % eng.where(c1))
        last = st.known_eq(m['c0'], ONE)
        self.check(eng, st, R[6], last is not None, 'does not look whether it is the last one')
        if last:
            self.check(eng, st, R[6], m['dead'] == (('p', 'nn:s0', 0), ('p', 'nn:a0', 0)), 'ends %s' % [eng.where(x) for x in m['dead']])
        elif last is False:
            self.check(eng, st, R[6], not m['dead'], 'ends %s although the thread goes on' % [eng.where(x) for x in m['dead']])


class Down(Mon):
    """The scheduler's destructor."""
    inline_prefix = ('boost::intrusive_ptr', NS + 'context::reset_active', NS + 'scheduler')

    def __init__(self, P, lay, nm):
        self.P, self.lay, self.nm = P, lay, nm

    def start(self, eng, st):
        st.names.add('nn:disp')
        eng.roots.add('nn:disp')
        eng.symty['nn:disp'] = self.nm.c
        eng.symdesc['nn:disp'] = 'the dispatcher'
        st.mem[('this', self.lay.disp)] = ('p', 'nn:disp', 0)
        st.mon.update(told=ZERO, ran=ZERO, rel=ZERO, act=ONE)

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def model(self, eng, st, fr, i, fn, args):
        m = st.mon
        if fn.short == NS + 'intrusive_ptr_release' and args[0] == ('p', 'nn:disp', 0):
            self.check(eng, st, R[8], m['rel'] == ZERO, 'the dispatcher is released again')
            self.check(eng, st, R[8], m['ran'] == ONE, 'the dispatcher is released before it has come to its end')
            m['rel'] = ONE
            st.say('%s: the dispatcher is released' % eng.loc(st))
            return [(st, None)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def on_event(self, eng, st, ev):
        m, L = st.mon, self.lay
        if ev.k == 'write' and ev.base == 'this' and ev.off == L.down:
            m['told'] = ev.val
        elif ev.k == 'suspend':
            self.check(eng, st, R[7], m['told'] == ONE and m['ran'] == ZERO and not st.locks, 'lets the dispatcher run %s' % ('again' if m['ran'] != ZERO else 'without telling it to end'))
            m['ran'] = ONE
        elif ev.k == 'write' and ev.base == self.nm.active:
            m['act'] = ZERO if ev.val == ZERO else ONE

    def exit(self, eng, st, kind, val):
        m = st.mon
        self.check(eng, st, R[7], kind == 'ret' and m['ran'] == ONE, 'the dispatcher does not get to run the remaining fibers')
        self.check(eng, st, R[8], m['rel'] == ONE, 'the dispatcher is not released')
        self.check(eng, st, R[9], m['act'] == ZERO, 'a fiber of this thread still counts as active')


def run(ctx):
    sched.explore(ctx, 'V')
    P = ctx.load(UN)
    lay, nm = Lay(P), Names(P)
    ctx.fini = None
    fs = sorted((f for f in P.fns.values() if f.defined and f.short.startswith('use::start::')), key=lambda f: f.dem)
    if len(fs) != 3:
        raise Broken('anchor vanished: ways to start a thread\'s runtime')
    for f in fs:
        # nothing there; initialised, but not yet through active(); everything there
        for count, known in ((0, 0), (1, 0), (1, 1), (2, 1)):
            ctx.explore(P, f, Start(P, lay, nm, count, known))
    if ctx.fini is None or ctx.fini[0] != 'f':
        raise Broken('anchor vanished: no action is registered at thread exit')
    for count in (1, 2, 3):
        ctx.explore(P, P.fns[ctx.fini[1]], Finish(P, lay, nm, count, 1))
    fs = [f for f in ctx.functions(P, 'scheduler::~scheduler')]
    r = Down(P, lay, nm)
    r.inline = (NS + 'context::reset_active',)
    ctx.explore(P, fs[0], r)
    for r in list(R.values()) + [V1, V2]:
        ctx.require(r, 1)
