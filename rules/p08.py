"""barrier::wait is explored with the condition variable entered, as guarded atomic actions on
the barrier's mutex.  An arrival takes one place of the current round; the arrival that takes
the last place opens the next round (new generation, all places free again), notifies
everybody and returns true; every other arrival registers itself in the same critical section
and returns false only after it has seen, under the mutex, another generation than its own."""
from rules.common import *
ASSUME = ['the condition variable waits atomically (P07) and wakes everybody it is told to (P04)']


class Roles(Mon):
    """Which member is which: n = never written by wait(), places = the other one initialised from
    the constructor's argument, generation = the remaining counter."""
    def __init__(self, roles):
        self.r = roles

    def on_event(self, eng, st, ev):
        if ev.k == 'write' and ev.base == 'this':
            self.r.setdefault('w', set()).add(ev.off)


class Ctor(Mon):
    alloc_throws = False

    def __init__(self, cand, roles):
        self.cand, self.roles = cand, roles

    def start(self, eng, st):
        st.mon['a'] = eng.argvals[1]

    def on_event(self, eng, st, ev):
        if ev.k == 'throw':
            code = ev.code[1] if ev.code and ev.code[0] == 'c' else None
            self.check(eng, st, 'B1 a barrier for zero fibers is refused with invalid_argument, any other accepted',
                       ev.name == NS + 'fiber_error' and code == EINVAL and st.known_eq(st.mon['a'], ZERO) is True,
                       'throws %s with code %s' % (ev.name, code))

    def exit(self, eng, st, kind, val):
        if kind == 'ret':
            a = st.mon['a']
            self.check(eng, st, 'B1 a barrier for zero fibers is refused with invalid_argument, any other accepted',
                       st.known_eq(a, ZERO) is False, 'a barrier for zero fibers is created')
            self.roles['init'] = {o: eng.load(st, ('p', 'this', o), 'c%d' % o, False, 8, silent=True) == a or
                                  st.known_eq(eng.load(st, ('p', 'this', o), 'c%d' % o, False, 8, silent=True), a) is True for o in self.cand}


class Wait(CS):
    inline_prefix = (NS + 'condition_variable', NS + 'barrier::')

    def __init__(self, P, t, roles):
        self.P = P
        m = by_type(P, t, NS + 'mutex', name='mtx_')
        self.lockoff = (m[0], P.types[m[3]]['sz'])
        self.fields = {k: (roles[k], False, 8) for k in ('n', 'places', 'gen')}
        self.kind = 'barrier'

    def start(self, eng, st):
        st.mon.update(stage='arrive', parked=ZERO, nt=ZERO, my=U)

    def cs_begin(self, eng, st):
        # n >= 1 and 1 <= places <= n between critical sections (established by the constructor,
        # kept by B2/B3): a round's last place is never already taken
        pass

    def in_lock(self, eng, st):
        return self.held(eng, st)

    def event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'write':
            f = self.fname(ev)
            if f:
                self.check(eng, st, 'B4 the round\'s state changes only under the mutex', self.held(eng, st), 'writes %s without the mutex' % ev.path)
        elif ev.k == 'enqueue':
            m['parked'] = ONE
            self.check(eng, st, 'B5 only an arrival that is not the last blocks', m['stage'] in ('wait',),
                       'a fiber blocks although it was %s' % ('the last to arrive' if m['stage'] == 'last' else 'not counted'))
        elif ev.k == 'wq_none':
            if m['stage'] == 'last' or self.held(eng, st):
                m['nt'] = ONE
        elif ev.k == 'notify':
            m['nt'] = ONE if ev.which == 'notify_all' else m['nt']
            self.check(eng, st, 'B6 the last arrival resumes the whole round', m['stage'] == 'last' or self.held(eng, st), 'notifies before the round is complete')

    def cs_end(self, eng, st, why):
        m = st.mon
        p0, g0, n0 = (self.pre(st, k) for k in ('places', 'gen', 'n'))
        p1, g1, n1 = (self.cell(eng, st, k) for k in ('places', 'gen', 'n'))
        self.check(eng, st, 'B7 the number of participants never changes', st.known_eq(n0, n1) is True, 'the participant count is overwritten')
        if m['stage'] == 'arrive':
            left = mkop('sub', (p0, ONE), 64)
            last = st.known_eq(left, ZERO)
            if last is None:
                last = st.known_eq(p0, ONE)
            if last:
                self.check(eng, st, 'B2 the last arrival opens the next round for everybody',
                           st.known_eq(g0, g1) is False and (st.known_eq(p1, n0) is True), 'after the last arrival: generation %s, places %s' % (
                               eng.where(g1), eng.where(p1)))
                m['stage'] = 'last'
            else:
                self.check(eng, st, 'B3 an arrival takes one place of the round', last is False and st.known_eq(p1, left) is True and
                           st.known_eq(g0, g1) is True, 'after an arrival: generation %s, places %s' % (eng.where(g1), eng.where(p1)))
                m['stage'] = 'wait'
                m['my'] = g0
                m['cond'] = ZERO
        else:
            self.check(eng, st, 'B3 an arrival takes one place of the round', st.known_eq(p0, p1) is True and st.known_eq(g0, g1) is True,
                       'the round\'s state changes again after the arrival')
            if m['stage'] == 'wait':
                m['cond'] = ONE if st.known_eq(g1, m['my']) is False else ZERO

    left = False

    def done(self, eng):
        self.ctx.ok('B12 an arrival that waits can leave', self.fn.short)
        if not self.left:
            self.ctx.violation('B12 an arrival that waits can leave', self.fn.short, 'no path lets a waiting fiber see the end of its round')

    def exit(self, eng, st, kind, val):
        m = st.mon
        if kind != 'ret':
            if kind == 'throw' or kind == 'terminate':
                self.check(eng, st, 'B8 an arrival is not lost', m['stage'] == 'arrive', 'leaves with %s after the arrival was counted' % kind)
            return
        r = ret_bool(st, val)
        if m['stage'] == 'last':
            self.check(eng, st, 'B6 the last arrival resumes the whole round', m['nt'] == ONE, 'returns without notify_all')
            self.check(eng, st, 'B9 exactly the last arrival is told so', r is True, 'the last arrival returns %s' % tri(r))
            self.check(eng, st, 'B5 only an arrival that is not the last blocks', m['parked'] == ZERO, 'the last arrival blocks')
        else:
            self.left = True
            self.check(eng, st, 'B9 exactly the last arrival is told so', r is False, 'another arrival returns %s' % tri(r))
            self.check(eng, st, 'B10 a fiber leaves only after its round is complete', m['stage'] == 'wait' and m['cond'] == ONE,
                       'leaves without having seen, under the mutex, that its round is over')
        self.check(eng, st, 'B11 nothing is held on return', not st.locks, 'returns holding %s' % [eng.where(l) for l in st.locks])


def run(ctx):
    P = ctx.load(['src/barrier.cpp', 'src/condition_variable.cpp'])
    t = record(P, NS + 'barrier')
    cand = [m[0] for m in leaf_members(P, t) if m[2] in ('unsigned long', 'size_t', 'std::size_t')]
    roles = {}
    for f in ctx.functions(P, 'barrier::barrier', np=1):
        ctx.explore(P, f, Ctor(cand, roles))
    w = {}
    for f in ctx.functions(P, 'barrier::wait'):
        r = Roles(w)
        r.inline_prefix = Wait.inline_prefix
        ctx.explore(P, f, r)
    ini = roles.get('init', {})
    written = [o for o in cand if o in w.get('w', ())]
    n = [o for o in cand if o not in written and ini.get(o)]
    places = [o for o in written if ini.get(o)]
    gen = [o for o in written if not ini.get(o)]
    names = {m[1]: m[0] for m in leaf_members(P, t)}
    if len(n) == 1 and len(places) == 1 and len(gen) == 1:
        roles = dict(n=n[0], places=places[0], gen=gen[0])
    elif {'initial_', 'current_', 'cycle_'} <= set(names):
        roles = dict(n=names['initial_'], places=names['current_'], gen=names['cycle_'])
    else:
        raise Broken('anchor vanished: roles of the members of barrier')
    ctx.notes.append('members: ' + ', '.join('%s=+%d' % kv for kv in roles.items()))
    for f in ctx.functions(P, 'barrier::wait'):
        ctx.explore(P, f, Wait(P, t, roles))
    for r in ('B2 the last arrival opens the next round for everybody', 'B3 an arrival takes one place of the round',
              'B10 a fiber leaves only after its round is complete'):
        ctx.require(r, 1)


