"""The timed wait of the scheduler and its dispatch loop are explored over all paths with the sleep queue abstracted to empty / first element: a fiber is queued under exactly the deadline it was
given and after that deadline was stored, its waker is the one the sleep queue will wake, only sleepers whose deadline has passed are taken out and each is woken once, an idle scheduler is told the
earliest deadline, a time-out is reported only after the deadline.  The comparator of the sleep queue orders by deadline.  Every timed operation of the library is explored for a steady, a system and
a user-defined clock and for durations of several units: the deadline it hands down is, as a linear expression, now + duration, or now + (deadline - now of its own clock)."""
import re
from rules.sched import *
ASSUME = ['boost::intrusive::multiset keeps its order', 'the clock of std::chrono is monotonic', 'std::chrono arithmetic does not overflow',
          'between two calls of now() of different clocks no time passes', 'the algorithm is decided by P22 and P24']

E9 = 'E9 a call that waits repeatedly keeps its deadline'


class Less(Mon):
    def __init__(self, P, lay):
        self.P, self.lay = P, lay

    def start(self, eng, st):
        a = [v for v in eng.argvals if v[0] == 'p' and v[1] != 'this'][-2:]
        st.mon['l'], st.mon['r'] = [eng.load(st, ('p', v[1], self.lay.tp), 'tp%d' % n, False, 8, silent=True) for n, v in enumerate(a)]

    def exit(self, eng, st, kind, val):
        l, r = st.mon['l'], st.mon['r']
        want = mkcmp('slt', l, r, 64)
        ok = kind == 'ret' and val is not None
        if ok:
            ok = val == want
            if not ok:
                t = ret_bool(st, val)
                ok = t is not None and st.truth(want) is t
        self.check(eng, st, E6, ok, 'two sleepers compare as %s' % (eng.where(val) if val else kind))


class Deadline(Mon):
    inline_prefix = ('use::', NS + 'condition_variable', NS + 'timed_mutex', NS + 'recursive_timed_mutex', NS + 'future', NS + 'shared_future', NS + 'detail::',
                     NS + 'buffered_channel', NS + 'unbuffered_channel', 'boost::this_fiber', NS + 'detail::convert')
    keep_order = False

    def __init__(self, P, scale):
        self.P, self.scale = P, scale

    def start(self, eng, st):
        st.mon.update(n=ZERO, cn=U, dl=U)
        for v, tn in named_args(eng):
            if 'time_point' in tn or 'duration' in tn:
                st.mon['arg'] = eng.load(st, v, 'given', False, 8, silent=True)
        if 'arg' not in st.mon:
            raise Broken('anchor vanished: deadline of %s' % self.fn.dem)

    def rely(self, eng, st, base, off, val):
        return 'keep' if base.startswith('nn:arg') and not eng.symdesc.get(base, '').startswith('c') else Mon.rely(self, eng, st, base, off, val)

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'call' and ev.name.endswith('::now') and ev.res is not None:
            m['cn'] = ev.res
        tp = None
        if ev.k in ('enqueue', 'cv_wait') and ev.timed or ev.k == 'ctx_wait_until':
            tp = ev.tp
        elif ev.k in ('enqueue', 'cv_wait', 'ctx_suspend', 'suspend') and ev.timed is False:
            if ev.wq is None or ev.lock is None or True:
                self.check(eng, st, E7, False, 'waits without the deadline')
        if tp is None:
            return
        if tp[0] == 'p':
            tp = eng.load(st, tp, 'tpv', False, 8, silent=True)
        m['n'] = ONE
        form = linear(tp)
        form.pop(None, None) if form.get(None) == 0 else None
        now = [s for s in form if s is not None and s[0] == 's' and s[1].startswith('now')]
        arg = m['arg']
        if 'duration' in self.kind:
            ok = len(now) == 1 and form == {now[0]: 1, arg: self.scale}
            rule = E7
        elif self.kind == 'steady':
            ok, rule = form == {arg: 1} or st.known_eq(tp, arg) is True, E7
        else:
            ok, rule = len(now) == 1 and m['cn'] != U and form == {now[0]: 1, arg: 1, m['cn']: -1}, E8
        self.check(eng, st, rule, ok, 'waits until %s' % eng.where(tp))
        if 'duration' in self.kind and ok:
            self.check(eng, st, E9, m['dl'] in (U, now[0]), 'waits again, and starts to count the duration anew')
            m['dl'] = now[0]

    def exit(self, eng, st, kind, val):
        pass


class Counted(Deadline):
    def on_event(self, eng, st, ev):
        n = st.mon['n']
        Deadline.on_event(self, eng, st, ev)
        if n == ZERO and st.mon['n'] == ONE:
            self.waits += 1


def run(ctx):
    P, lay, roles = explore(ctx, 'E')
    comp = [f for f in P.fns.values() if f.defined and f.nm == 'operator()' and f.short.startswith(S) and f.np == 2]
    tn = [t for t in lay.queues.items() if t[0] == roles['sleep']]
    if not comp:
        raise Broken('anchor vanished: order of the sleep queue')
    for f in comp:
        ctx.explore(P, f, Less(P, lay))
    P2 = ctx.load(['tu/clocks.cpp', 'src/timed_mutex.cpp', 'src/recursive_timed_mutex.cpp', 'src/condition_variable.cpp'])
    for f in sorted(P2.fns.values(), key=lambda f: f.dem):
        m = re.match(r'use::(Until|For)<(.*)>::(\w+)\(', f.dem)
        if not m or not f.defined or ctx.tier == 'quick' and ('system_clock' in m.group(2) or 'ratio<1l, 1l>' in m.group(2)):
            continue
        sc = 1
        if m.group(1) == 'For':
            kind = 'duration'
            r = re.search(r'ratio<(\d+)l?, (\d+)l?>', m.group(2))
            sc = 1000000000 * int(r.group(1)) // int(r.group(2))
        else:
            kind = 'steady' if 'steady_clock' in m.group(2) else 'foreign'
        r = Counted(P2, sc)
        r.kind, r.waits = kind, 0
        ctx.explore(P2, f, r)
        if not r.waits:
            raise Broken('no timed wait found in %s' % f.dem)
    for r, n in ((D7, 1), (E1, 1), (E2, 1), (E3, 1), (E4, 1), (E5, 1), (E6, 1), (E7, 25), (E8, 10), (E9, 10)):
        ctx.require(r, n)
