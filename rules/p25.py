"""Two analyses. (1) Client programs, one per sequence of push, pop and steal (all of length 4, growth at every ring position, a pinned fiber at every position; thorough: all of
length 6 and 5 at two capacities; tu/queues.cpp), are explored with both queues inlined; all positions are constants, the abstract content of the queue is carried along and every obtained fiber
must be in it (the oldest, for the locked queue), nothing only if it is empty or a pinned fiber is in it. (2) push, pop, steal and empty of a queue shared with other threads, any positions: the locked queue is touched
under its lock only; for the one without lock, top, bottom and the array are found by their use and the protocol that makes a work-stealing deque safe under the C++ memory model is
checked on each path: store of the fiber, release, bottom; fill of the grown array, release, array, old array kept; the owner lowers bottom, sequentially consistent fence, top; a thief reads top,
sequentially consistent fence, bottom with acquire, slot, compare-exchange of top by one; the last fiber only by compare-exchange; bottom restored as it must be."""
from rules.sched import *
ASSUME = ['a deque following the checked protocol (Chase and Lev, PPoPP 2005; Le et al., PPoPP 2013) is linearizable under the C++ memory model', 'positions do not wrap around in 64 bits', 'std::vector behaves as documented']
NOTE = 'which protocol steps suffice is taken from the literature, not derived'
ACQ, REL = ('acquire', 'acq_rel', 'seq_cst'), ('release', 'acq_rel', 'seq_cst')
Q1 = 'Q1 what is pushed is obtained exactly once, in order'
Q2 = 'Q2 nothing is obtained only from an empty queue'
Q3 = 'Q3 pinned fibers are not stolen'


class Seq(Mon):
    """A client program: the contents of the queue are tracked."""
    inline_prefix = (NS + 'detail::context_s', NS + 'context::is_context', 'std::unique_ptr', 'std::__uniq_ptr', 'std::swap', 'std::default_delete', 'std::exchange', 'std::tuple', 'std::get')
    widen_phi = widen_mem = 200
    sequential = True

    def __init__(self, P, kinds, kind):
        self.P, self.kinds, self.kind = P, kinds, kind

    def start(self, eng, st):
        st.mon['has'] = ()
        for v, tn in named_args(eng):
            st.mem[(v[1], self.kind)] = ('c', self.kinds['worker'])
        self.pin = v
        st.mem[(v[1], self.kind)] = ('c', self.kinds['main'])

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def model(self, eng, st, fr, i, fn, args):
        if fn.short.startswith('use::') and not fn.defined:
            getattr(self, fn.short[5:])(eng, st, *args)
            return [(st, None)]
        if fn.short.startswith('std::vector::'):
            return [(st, eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def pushed(self, eng, st, c):
        st.mon['has'] += (c,)

    def got(self, eng, st, r, how):
        has = st.mon['has']
        if r == ZERO:
            self.check(eng, st, Q2, not has or how == 'steal' and self.pin in has, '%s obtains nothing from a queue of %d fibers' % (how, len(has)))
            return
        self.check(eng, st, Q1, r in has, '%s obtains %s, which is %s' % (how, eng.where(r), 'not in the queue'))
        if how == 'steal':
            self.check(eng, st, Q3, r != self.pin, 'a pinned fiber is stolen')
        if r in has:
            if self.fifo:
                self.check(eng, st, Q1, r == has[0], '%s obtains %s before %s, which was pushed earlier' % (how, eng.where(r), eng.where(has[0])))
            st.mon['has'] = tuple(x for x in has if x != r)

    def popped(self, eng, st, r):
        self.got(eng, st, r, 'pop')

    def stole(self, eng, st, r):
        self.got(eng, st, r, 'steal')

    def isempty(self, eng, st, b):
        r = ret_bool(st, b)
        self.check(eng, st, Q2, r is (not st.mon['has']), 'empty() reports %s for a queue of %d fibers' % (r, len(st.mon['has'])))

    def finished(self, eng, st):
        self.check(eng, st, Q1, not st.mon['has'], '%s never obtained' % ', '.join(eng.where(c) for c in st.mon['has']))
        st.mon['done'] = ONE
        self.ended = True

    def exit(self, eng, st, kind, val):
        self.check(eng, st, Q1, kind == 'exc' or kind == 'ret' and st.mon.get('done') == ONE, 'ends with %s' % kind)


Q4 = 'Q4 every access to the locked queue is made under its lock'
Q5 = 'Q5 a pushed fiber is published after it was stored, with release ordering'
Q6 = 'Q6 the grown array is published filled, and the old one is kept'
Q7 = 'Q7 the owner announces its claim before it looks for thieves'
Q8 = 'Q8 a thief looks at top, then at bottom, and takes by an atomic step'
Q9 = 'Q9 the last fiber is obtained by an atomic step only'
Q10 = 'Q10 the owner leaves bottom behind the last fiber that is queued'
Q11 = 'Q11 a thief looks into a fiber only while it is queued or its own'
BASE = 'nn:arg0'


class Guard(Mon):
    """push, pop, steal and empty of the queue with a lock."""
    inline_prefix = (NS + 'detail::context_s', NS + 'context::is_context')

    def start(self, eng, st):
        pass

    def on_event(self, eng, st, ev):
        if ev.k in ('read', 'write') and ev.base[:2] not in ('a:', 'h:') and ev.base[0] != '@':
            self.check(eng, st, Q4, any(l[1] == BASE for l in st.locks), '%s %s without its lock' % (ev.k, eng.where(('p', ev.base, ev.off))))

    def exit(self, eng, st, kind, val):
        self.check(eng, st, Q4, not st.locks, 'leaves with its lock held')


class Chase(Mon):
    """push, pop, steal and empty of the queue without lock; top, bottom and the array are found by their use."""
    inline_prefix = Seq.inline_prefix

    def __init__(self, P, op, roles, kind=None):
        self.P, self.op, self.roles, self.kind = P, op, roles, kind

    def model(self, eng, st, fr, i, fn, args):
        if fn.short.startswith('std::vector::'):
            return [(st, eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def start(self, eng, st):
        st.mon.update(T=U, B=U, last=U, slot=U, cas=U, seq=U, nb=ZERO, filled=ZERO, wb=U)
        self.c = next((v for v, tn in named_args(eng) if v[1] != BASE), None) if self.op == 'push' else None

    def role(self, ev):
        if ev.base != BASE:
            return None
        return next((r for r, o in self.roles.items() if o == ev.off), None)

    def step(self, st):
        st.mon['n'] = ('c', st.mon.get('n', ZERO)[1] + 1)
        return st.mon['n']

    def on_event(self, eng, st, ev):
        m, k = st.mon, ev.k
        if self.roles is None:
            return
        r = self.role(ev) if k in ('read', 'write', 'cas', 'rmw') else None
        if k == 'fence':
            if ev.order in REL:
                m['frel'] = ONE
                m['arel'] = ONE
            if ev.order == 'seq_cst':
                m['seq'] = {'pop': 'announced' if m['wb'] != U else U, 'steal': 'top' if m['T'] != U else U}.get(self.op, U)
            return
        if k == 'read' and r == 'top':
            if self.op == 'pop':
                self.check(eng, st, Q7, m['wb'] != U and (m['seq'] == 'announced' or m.get('wbord') == ev.order == 'seq_cst'),
                           'reads top %s' % ('before bottom is lowered' if m['wb'] == U else 'without a sequentially consistent fence after bottom was lowered'))
            if self.op == 'steal':
                self.check(eng, st, Q8, m['B'] == U, 'reads top after bottom')
                m['tord'] = ev.order
            m['T'] = ev.val
        elif k == 'read' and r == 'bottom':
            if self.op == 'steal':
                self.check(eng, st, Q8, m['T'] != U and (m['seq'] == 'top' or m['tord'] == ev.order == 'seq_cst') and ev.order in ACQ,
                           'reads bottom %s' % ('before top' if m['T'] == U else 'without acquire ordering' if ev.order not in ACQ else 'without a sequentially consistent fence after top'))
            if self.op != 'pop' or m['wb'] == U:
                m['B'] = ev.val
        elif k == 'read' and r == 'array' and self.op == 'steal':
            self.check(eng, st, Q8, ev.order in ACQ + ('consume',) and m['T'] != U, 'reads the array without acquire ordering' if m['T'] != U else 'reads the array before top')
        elif k == 'read' and ev.base not in (BASE,) and ev.base[:2] not in ('a:', 'h:') and ev.base[0] != '@' and self.op in ('pop', 'steal'):
            if m['slot'] != U and ev.base == m['slot'][1]:
                own = m['cas'] == 'ok' or any(l[1] == BASE for l in st.locks)
                self.check(eng, st, Q11, own, 'reads %s, which another thread may have taken and destroyed already' % eng.where(('p', ev.base, ev.off)),
                           where='%s looks at the %s of a fiber' % (self.fn.short.replace('use::cl_', 'context_spmc_queue::'), 'kind' if ev.off == self.kind else ev.path))
            elif ev.order not in (None, 'no', 'na', 'notatomic'):
                if self.op == 'steal':
                    self.check(eng, st, Q8, m['cas'] == U and m['B'] != U and self.lt(st), 'reads a slot %s' % ('after it took the fiber' if m['cas'] != U else 'although the queue may be empty'))
                m['slot'] = ev.val
        elif k == 'write' and r == 'bottom':
            if self.op == 'push':
                self.check(eng, st, Q5, linear(ev.val) == add(m['B'], 1) and m['nb'] == ZERO, 'sets bottom to %s' % eng.where(ev.val))
                self.check(eng, st, Q5, m['slot'] == self.c, 'publishes the fiber before it is stored')
                self.check(eng, st, Q5, m.get('frel') == ONE or ev.order in REL, 'publishes the fiber without release ordering')
                m['nb'] = ONE
            elif self.op == 'pop':
                m['wb'], m['wbord'] = ev.val, ev.order
                if linear(ev.val) == add(m['B'], -1):
                    m['low'] = ev.val
                m['seq'] = U
                self.check(eng, st, Q7, linear(ev.val) in (add(m['B'], 0), add(m['B'], -1)), 'sets bottom to %s' % eng.where(ev.val))
                if linear(ev.val) == add(m['B'], 0) and m['T'] != U and self.same(st) is not False and m['cas'] == U:
                    # only one fiber left: thieves are kept off until it is decided who takes it
                    self.check(eng, st, Q9, self.gt(st), 'raises bottom again before it is decided who takes the last fiber')
            else:
                self.check(eng, st, Q8, False, 'a thief changes bottom')
        elif k in ('write', 'rmw') and r == 'top':
            self.check(eng, st, Q8, False, 'changes top without comparing')
        elif k == 'cas' and r == 'top':
            self.check(eng, st, Q8 if self.op == 'steal' else Q9, self.op in ('steal', 'pop') and linear(ev.val) == add(m['T'], 1) and linear(ev.exp) == add(m['T'], 0) and (ev.order if ev.ok else ev.sorder) == 'seq_cst',
                       'moves top from %s to %s (%s)' % (eng.where(ev.exp), eng.where(ev.val), ev.order))
            m['cas'] = 'ok' if ev.ok else 'fail'
        elif k == 'write' and r == 'array':
            self.check(eng, st, Q6, self.op == 'push' and (ev.order in REL or m.get('arel') == ONE), 'publishes the grown array without release ordering')
            self.check(eng, st, Q6, ev.val[0] == 'p' and ev.val[1][:2] == 'h:', 'publishes %s' % eng.where(ev.val))
            m['arel'] = ONE
            m['arr'] = ev.val
            st.mon['pub'] = ONE
        elif k == 'write' and self.op == 'push':
            if ev.val == self.c and ev.base != BASE and ev.base[:2] != 'a:':
                m['slot'] = ev.val
                m['frel'] = U
                if m.get('arr', U) != U:
                    # into the array that is in use from now on
                    a = eng.load(st, ('p', m['arr'][1], self.roles['storage']), 'stg', True, 8, silent=True)
                    self.check(eng, st, Q5, a[0] == 'p' and ev.base == a[1], 'stores the fiber into the array that is no longer used')
            elif ev.base[:2] == 'h:':
                if m.get('pub') == ONE:
                    self.check(eng, st, Q6, False, 'fills the grown array after it was published')
                m['arel'] = U
        elif k == 'free' and self.op == 'push':
            self.check(eng, st, Q6, ev.ptr[0] != 'p' or ev.ptr[1][:2] in ('h:', 'a:'), 'frees %s, which a thief may still read' % eng.where(ev.ptr))
        elif k == 'write' and ev.base[:2] not in ('a:', 'h:') and self.op in ('steal', 'empty'):
            self.check(eng, st, Q8, False, '%s writes %s' % (self.op, eng.where(('p', ev.base, ev.off))))

    def lt(self, st):
        T, B = st.mon['T'], st.mon['B']
        return st.truth(mkcmp('ult', T, B, 64)) is True or st.truth(mkcmp('ult', B, T, 64)) is False and st.truth(mkcmp('eq', T, B, 64)) is False

    def same(self, st):
        return st.truth(mkcmp('eq', st.mon['T'], self.b1(st), 64))

    def gt(self, st):
        return st.truth(mkcmp('ult', self.b1(st), st.mon['T'], 64)) is True

    def b1(self, st):
        return st.mon.get('low', U)

    def exit(self, eng, st, kind, val):
        m = st.mon
        if self.roles is None:
            return
        if kind == 'exc':
            self.check(eng, st, Q5, self.op == 'push' and m['nb'] == ZERO, '%s throws after the queue was changed' % self.op)
            return
        if kind != 'ret':
            return
        if self.op == 'push':
            self.check(eng, st, Q5, m['nb'] == ONE, 'the fiber is not published')
            return
        if self.op == 'empty':
            return
        none = val == ZERO or st.truth(mkcmp('eq', val, ZERO, 64)) is True
        rule = Q8 if self.op == 'steal' else Q9
        if self.op == 'steal':
            if none:
                self.check(eng, st, rule, m['cas'] != 'ok', 'takes a fiber and drops it')
            else:
                self.check(eng, st, rule, m['cas'] == 'ok' and val == m['slot'], 'returns %s, which it did not take' % eng.where(val))
            return
        sure = st.truth(mkcmp('ult', m['T'], self.b1(st), 64)) is True or self.gt_false(st) and self.same(st) is False
        if none:
            self.check(eng, st, rule, m['cas'] != 'ok' and (m['cas'] == 'fail' or self.gt(st)), 'returns nothing although it took a fiber')
        else:
            self.check(eng, st, rule, val == m['slot'] and (m['cas'] == 'ok' or sure), 'returns %s, which a thief may have taken as well' % eng.where(val))
        want = add(m['B'], -1 if not none and m['cas'] == U else 0)
        self.check(eng, st, Q10, m['wb'] != U and linear(m['wb']) == want, 'leaves bottom at %s' % eng.where(m['wb']))

    def gt_false(self, st):
        return st.truth(mkcmp('ult', self.b1(st), st.mon['T'], 64)) is False


def add(v, n):
    return linear(('o', 'add', v, ('c', n & ((1 << 64) - 1))))


class Roles(Chase):
    """Finds top (compared and exchanged by thieves), bottom (stored by push) and the array (a pointer)."""
    def start(self, eng, st):
        pass

    def on_event(self, eng, st, ev):
        if ev.base == BASE and isinstance(ev.off, int):
            if ev.k == 'cas':
                self.found.setdefault('top', set()).add(ev.off)
            elif ev.k == 'write' and ev.order not in (None, 'no', 'na', 'notatomic'):
                self.found.setdefault('array' if ev.val[0] == 'p' else 'bottom', set()).add(ev.off)
                if ev.val[0] == 'p':
                    for (b, o), v in st.mem.items():
                        if b == ev.val[1] and v[0] == 'p' and v[1][:2] == 'h:':
                            self.found.setdefault('storage', set()).add(o)

    def exit(self, eng, st, kind, val):
        pass


def entries_(P, n):
    r = [f for f in P.by_short.get(n, ()) if f.defined]
    if not r:
        raise Broken('anchor vanished: ' + n)
    return r


def chase(ctx, P, kind):
    found = {}
    for op in ('push', 'steal'):
        for f in entries_(P, 'use::cl_' + op):
            r = Roles(P, op, None)
            r.found = found
            ctx.explore(P, f, r)
    if any(len(found.get(k, ())) != 1 for k in ('top', 'bottom', 'array', 'storage')):
        raise Broken('anchor vanished: top, bottom and array of the queue without lock: %s' % found)
    roles = {k: min(v) for k, v in found.items()}
    for op in ('push', 'pop', 'steal', 'empty'):
        for f in entries_(P, 'use::cl_' + op):
            ctx.explore(P, f, Chase(P, op, roles, kind))
        for f in entries_(P, 'use::sl_' + op):
            ctx.explore(P, f, Guard())


def run(ctx):
    P = ctx.load(['tu/queues.cpp', 'tu/algo.cpp'], defs=('-DTHOROUGH',) if ctx.tier == 'thorough' else ())
    kinds = {k: constant(P, 'k_' + k)[1] for k in ('main', 'dispatcher', 'worker')}
    kind = [m for m in top_members(P, record(P, NS + 'context')) if m[2] == NS + 'type'][0][0]
    for f in sorted((f for f in P.fns.values() if re.match(r'use::[sc]l_\w+$', f.short) and f.np == 9), key=lambda f: f.short):
        r = Seq(P, kinds, kind)
        r.fifo = f.short.startswith('use::sl')
        r.ended = False
        ctx.explore(P, f, r)
        if not r.ended and not ctx.new_violations():
            ctx.violation(Q1, f.short, 'never comes to an end', f.loc())
    chase(ctx, P, kind)
    for r, n in ((Q1, 250), (Q2, 250), (Q3, 50), (Q4, 4), (Q5, 1), (Q6, 1), (Q7, 1), (Q8, 1), (Q9, 1), (Q10, 1)):
        ctx.require(r, n)
