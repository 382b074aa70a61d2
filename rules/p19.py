"""Every pair of reference-counting functions in the library (found by name, one pair per counted class) is explored over all paths: taking a reference is one atomic
increment; giving one up is one atomic decrement that releases, the object is destroyed only where the counter was one, once, in the way its storage demands, after an
acquire, and is otherwise not touched again.  On top of that the operations that create, copy, move and drop references are explored and the counters balanced: shared
states over every operation of promises, futures and tasks, control blocks over every way of launching a fiber (one reference for the runtime, one for the handle)."""
from rules.common import *
from rules.life import Life, Lay, UNITS, top_members
import rules.futures as futures
ASSUME = ['boost::intrusive_ptr takes and gives up the references of the pointer it holds', 'a terminated fiber is queued once (P15) and that queue is emptied with one release each (P20)',
          'std::atomic and fences have the semantics of the C++ memory model']
REL, ACQ = ('release', 'acq_rel', 'seq_cst'), ('acquire', 'acq_rel', 'seq_cst')
A1 = 'A1 taking a reference is one atomic increment'
A2 = 'A2 giving a reference up is one atomic decrement that releases'
A3 = 'A3 the last reference destroys the object once, and only the last'
A4 = 'A4 the destroyer acquires what the others released'
A5 = 'A5 an object is not touched after its reference was given up'
A6 = 'A6 a control block is destroyed off its own stack, which is then given back'
A7 = 'A7 a launched fiber starts with one reference for the runtime and one for its handle'


class Count(Mon):
    def __init__(self, P, t, counter, stack):
        self.P, self.t, self.counter, self.stack = P, t, counter, stack

    def start(self, eng, st):
        self.X = eng.argvals[0]
        st.facts[mkcmp('eq', self.X, ZERO, 64)] = False
        st.mon.update(n=ZERO, old=U, acq=ZERO, dead=(), stray=ZERO, freed=ZERO, moved=ZERO, resumed=ZERO)

    def rely(self, eng, st, base, off, val):
        return None

    def mine(self, p):
        return isinstance(p, tuple) and p[0] == 'p' and p[1] == self.X[1]

    def model(self, eng, st, fr, i, fn, args):
        m = st.mon
        if fn.short.startswith('boost::context::fiber::'):
            op = fn.short.rsplit('::', 1)[1]
            if self.mine(args[-1]):
                m['moved'] = ONE
                m['local'] = args[0]
                return [(st, None)]
            if op in ('resume', 'resume_with'):
                m['resumed'] = ('c', m['resumed'][1] + 1) if args[1 if fn.args and fn.args[0][1] else 0] == m.get('local') else ('c', 9)
                m['when'] = ('c', len(m['dead']))
                return [(st, None)]
        return None

    def on_event(self, eng, st, ev):
        m, k = st.mon, ev.k
        if k == 'rmw' and self.mine(('p', ev.base, 0)) and ev.off == self.counter:
            m['n'] = ('c', m['n'][1] + 1)
            m['old'], m['x'], m['op'], m['ord'] = ev.old, ev.x, ('c', ev.rmw), ('c', ev.order)
            if ev.order in ACQ:
                m['acq'] = ONE
            st.say('%s: reference count %s %s' % (eng.loc(st), ev.rmw, ev.order))
        elif k == 'fence' and ev.order in ACQ and m['n'] != ZERO:
            m['acq'] = ONE
        elif k in ('read', 'write', 'cas') and self.mine(('p', ev.base, 0)):
            if ev.off == self.counter:
                if k == 'read' and ev.order in ACQ and m['n'] != ZERO and st.known_eq(m['old'], ONE) is True:
                    m['acq'] = ONE
                elif k != 'read':
                    m['stray'] = ONE
            if m['dead'] or m['n'] != ZERO and st.known_eq(m['old'], ONE) is not True:
                self.check(eng, st, A5, False, '%s of %s after the reference was given up' % (k, eng.where(('p', ev.base, ev.off))))
        elif k == 'call' and ev.args and self.mine(ev.args[0]) and not ev.get('threw'):
            how = 'other'
            if ev.fn is None and ev.virt is None:
                s = eng.vslot
                how = 'delete' if s and self.P.vfn(self.t, s - 1) is None else 'destroy'
            elif ev.fn is not None:
                how = 'destroy' if '::~' in ev.fn.short else 'other'
            m['dead'] = m['dead'] + (('c', how),)
            m['deadacq'] = m['acq']
            self.check(eng, st, A3, st.known_eq(m['old'], ONE) is True, 'the object is destroyed where the counter was %s' % (eng.where(m['old']) if m['old'] != U else 'not looked at'))
            self.check(eng, st, A4, m['acq'] == ONE, 'the object is destroyed without an acquire after the decrement')
        elif k == 'free' and self.mine(ev.ptr):
            m['freed'] = ONE

    def exit(self, eng, st, kind, val):
        m = st.mon
        if kind == 'terminate':
            return
        self.check(eng, st, A5, kind == 'ret', 'ends with %s' % kind)
        rule, d = (A1, 1) if self.fn.short.endswith('add_ref') else (A2, -1)
        ok = m['n'] == ONE and m['stray'] == ZERO
        if ok:
            x = m['x'][1] if m['x'][0] == 'c' else 99
            if x >= 1 << 63:
                x -= 1 << 64
            ok = (m['op'][1], x) in (('add', d), ('sub', -d))
        self.check(eng, st, rule, ok, 'the counter is changed %d times%s' % (m['n'][1], ', %s %s' % (m['op'][1], eng.where(m['x'])) if m['n'] != ZERO else ''))
        dead = tuple(x[1] for x in m['dead'])
        if d == 1:
            self.check(eng, st, A1, not dead and m['freed'] == ZERO, 'taking a reference destroys the object')
            return
        self.check(eng, st, A2, m['n'] == ONE and m['ord'][1] in REL, 'the decrement has order %s' % (m['ord'][1] if m['n'] != ZERO else 'none'))
        last = st.known_eq(m['old'], ONE)
        self.check(eng, st, A3, last is not None, 'goes on without knowing whether it was the last reference')
        if last is True:
            if self.stack:
                self.check(eng, st, A3, dead == ('destroy',) and m['freed'] == ZERO, 'the last reference ends with: %s' % (', '.join(dead) or 'nothing'))
                self.check(eng, st, A6, m['moved'] == ONE and m['resumed'] == ONE and m['when'] == ONE, 'the stack of the destroyed fiber is %s' % (
                    'not given back' if m['resumed'] == ZERO else 'given back before the control block on it is destroyed' if m['resumed'] == ONE else 'given back wrongly'))
            else:
                good = dead in (('delete',), ('other',)) and m['freed'] == ZERO or dead == ('destroy',) and m['freed'] == ONE
                self.check(eng, st, A3, good, 'the last reference ends with: %s' % (', '.join(dead) or 'nothing'))
        elif last is False:
            self.check(eng, st, A3, not dead and m['freed'] == ZERO, 'the object is destroyed although references are left')


class Launch(Life):
    """Only the references of a new control block."""
    prefixes = ''
    inline = Life.inline + (NS + 'intrusive_ptr_add_ref',)
    sequential = True

    def __init__(self, P, lay, consts, cnt):
        Life.__init__(self, P, lay, consts, '')
        self.cnt = cnt

    def start(self, eng, st):
        Life.start(self, eng, st)
        st.mon['refs'] = U

    def on_event(self, eng, st, ev):
        m = st.mon
        if m['side'] == 'launcher' and ev.k in ('write', 'rmw') and ev.off == self.cnt and m['ctx'] != U and ev.base == m['ctx'][1]:
            m['refs'] = ev.val
        Life.on_event(self, eng, st, ev)
        if m['side'] == 'launcher' and ev.k == 'write' and ev.off == self.cnt and m['ctx'] != U and ev.base == m['ctx'][1]:
            m['refs'] = ev.val

    def exit(self, eng, st, kind, val):
        m = st.mon
        if m['side'] == 'launcher' and kind == 'ret':
            self.fail(eng, st, A7, m['refs'] == ('c', 2), 'it has %s' % (eng.where(m['refs']) if m['refs'] != U else 'an unknown number'))

    def fail(self, *a):
        return Mon.check(self, *a)


def run(ctx):
    P = ctx.load(['src/context.cpp', 'tu/futures.cpp', 'tu/fss.cpp', 'src/algo/algorithm.cpp'])
    n = 0
    for what in ('intrusive_ptr_add_ref', 'intrusive_ptr_release'):
        k = 0
        for f in sorted(P.fns.values(), key=lambda f: f.dem):
            if not f.defined or not f.short.endswith('::' + what) or not f.short.startswith(NS):
                continue
            var = f.vars.get((0, 'v'))
            t = P.pointee(var[0]) if var else None
            if t is None or not P.types.get(t, {}).get('els'):
                raise Broken('anchor vanished: counted class of ' + f.dem)
            cs = [m for m in top_members(P, t) if 'atomic' in m[2] and 'size_t' in m[2] or m[2] in ('unsigned long', 'std::size_t') or 'atomic<unsigned long>' in m[2]]
            if not cs:
                raise Broken('anchor vanished: counter of ' + P.tname(t))
            c = next((m for m in cs if m[1].startswith('use_count')), cs[0])
            stack = any(m[2] == 'boost::context::fiber' for m in top_members(P, t))
            ctx.explore(P, f, Count(P, t, c[0], stack))
            k += 1
        if k < 4:
            raise Broken('anchor vanished: %d functions %s' % (k, what))
    futures.explore(ctx, 'C', ('Producer', 'Consumer', 'Task', 'set_', 'async_'))
    P = ctx.load(UNITS)
    lay = Lay(P)
    consts = {k: constant(P, n) for k, n in (('post', 'e_post'), ('dispatch', 'e_dispatch'))}
    cs = [m for m in top_members(P, lay.t) if m[1].startswith('use_count')] or [m for m in top_members(P, lay.t) if 'atomic' in m[2] or m[2] == 'unsigned long']
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        if f.defined and f.short.startswith('use::spawn::'):
            ctx.explore(P, f, Launch(P, lay, consts, cs[0][0]))
    for r, n in ((A1, 3), (A2, 3), (A3, 3), (A4, 3), (A5, 3), (A6, 1), (A7, 5), ('C1 references to a state balance', 20),
                 ('C2 the last reference destroys the state once and frees its memory', 2), ('C3 a stored value is destroyed with its state', 1)):
        ctx.require(r, n)
