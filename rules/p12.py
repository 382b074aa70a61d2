"""The iterators of both channels are explored over all paths with an opaque element type and
value_pop summarised as "hands out a value, reports closed by fiber_error, or fails".  The set of
storage cells that hold a live value is tracked: every increment destroys the value held before
exactly once, pops exactly once, and leaves either a value or the end iterator; nothing is
destroyed twice or dropped; dereferencing yields the held value; the end test compares channels."""
from rules.common import *
ASSUME = ['value_pop behaves as decided by P09, P10 and P11']
CH = ('buffered_channel', 'unbuffered_channel')


class It(Mon):
    def __init__(self, P, ch, op, chan, sto):
        self.P, self.ch, self.op, self.chan, self.sto = P, ch, op, chan, sto
        self.inline_prefix = (NS + ch + '::iterator', NS + 'begin', NS + 'end')

    def setup(self, eng, st):
        self.me = ('p', 'this', self.sto)
        st.mon.update(live=(), pops=ZERO, closed=ZERO, other=ZERO)
        if self.op == 'begin':
            eng.assume(st, mkcmp('eq', eng.argvals[1], ZERO, 64), False)
        if self.op == 'operator++':
            # the iterator was at a value
            c = eng.load(st, ('p', 'this', self.chan), 'c0', True, 8, silent=True)
            eng.assume(st, mkcmp('eq', c, ZERO, 64), False)
            st.mon['live'] = (self.me,)
            st.mon['c0'] = c

    def rely(self, eng, st, base, off, val):
        return 'keep' if base == 'this' else None      # an iterator belongs to one fiber

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == NS + self.ch + '::value_pop':
            d = args[0]
            self.check(eng, st, 'X1 an increment takes one value from its channel', st.mon['pops'] == ZERO and
                       (self.op == 'visit' or st.known_eq(args[1], st.mon.get('c0', args[1])) is True), 'value_pop is called again, or on another channel')
            st.mon['pops'] = ONE
            s1, s2 = st.copy(), st.copy()
            s1.mon['closed'] = ONE
            s1.say('%s: value_pop throws fiber_error (closed)' % eng.loc(s1))
            s2.mon['other'] = ONE
            s2.say('%s: value_pop throws' % eng.loc(s2))
            self.born(eng, st, d)
            st.say('%s: value_pop returns a value' % eng.loc(st))
            return [(s1, ('throw', self.fe)), (s2, ('throw', '_ZTISt9bad_alloc')), (st, None)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def born(self, eng, st, d):
        self.check(eng, st, 'X2 a value is not overwritten while alive', d not in st.mon['live'], 'a value is constructed over a live one')
        st.mon['live'] = tuple(sorted(set(st.mon['live']) | {d}, key=repr))

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'call' and (ev.name or '').startswith('Val::'):
            if '~Val' in ev.name:
                a = ev.args[0]
                self.check(eng, st, 'X3 every value is destroyed exactly once', a in m['live'], 'a value is destroyed that is not alive (destroyed before, or '
                           'never constructed)')
                m['live'] = tuple(x for x in m['live'] if x != a)
            elif ev.name.startswith('Val::Val') and not ev.threw and len(ev.args) > 1:
                self.check(eng, st, 'X4 values are only moved from where there is one', ev.args[1] in m['live'], 'a value is copied from storage that holds none')
                self.born(eng, st, ev.args[0])

    def exit(self, eng, st, kind, val):
        m = st.mon
        if self.op == 'visit':
            if m['other'] == ZERO and kind in ('ret', 'throw'):
                self.check(eng, st, 'X5 an iterator that goes away destroys the value it holds', not m['live'], 'the iterator is abandoned while it '
                           'holds a value, which is never destroyed', where=NS + self.ch + '::iterator')
            return
        if self.op == 'copy':
            self.check(eng, st, 'X6 a copy of an iterator at a value holds that value too', m['live'] and len(m['live']) == 2, 'the copy of an iterator at a '
                       'value refers to the channel but holds no value: dereferencing or incrementing it uses raw storage', where=NS + self.ch + '::iterator')
            return
        if kind == 'throw':
            self.check(eng, st, 'X7 only a failed pop fails an increment', m['other'] == ONE or m['pops'] == ONE and m['closed'] == ZERO, 'the end of the '
                       'channel leaves as an exception')
            self.check(eng, st, 'X3 every value is destroyed exactly once', m['live'] == () or (self.op == 'operator++' and m['live'] == (self.me,)),
                       'a value is dropped when the increment fails')
            return
        if kind != 'ret':
            self.check(eng, st, 'X8 iteration does not terminate the program', False, 'terminates')
            return
        c = eng.load(st, ('p', 'this', self.chan), 'c1', True, 8, silent=True)
        if m['closed'] == ONE:
            self.check(eng, st, 'X9 a closed channel makes the iterator equal to the end', c == ZERO and m['live'] == (), 'the iterator is not the end iterator '
                       'after the channel was closed and drained')
        elif m['other'] == ONE:
            self.check(eng, st, 'X7 only a failed pop fails an increment', False, 'the failure of a pop is swallowed')
        else:
            self.check(eng, st, 'X10 after a pop the iterator holds exactly the value popped', m['pops'] == ONE and m['live'] == (self.me,) and
                       st.known_eq(c, ZERO) is False, 'holds %d values, %s' % (len(m['live']), 'at the end' if c == ZERO else 'not at the end'))


class Access(Mon):
    """Comparison and dereference."""
    def __init__(self, ch, op, chan, sto):
        self.op, self.chan, self.sto = op, chan, sto
        self.inline_prefix = (NS + ch + '::iterator', NS + 'end', NS + 'begin')

    def setup(self, eng, st):
        self.a = eng.load(st, ('p', 'this', self.chan), 'ca', True, 8, silent=True)
        o = eng.argvals[1] if len(eng.argvals) > 1 else None
        self.b = eng.load(st, ('p', o[1], addoff(o[2], self.chan)), 'cb', True, 8, silent=True) if o is not None and o[0] == 'p' else None
        st.mon.update(a=self.a, b=self.b or ZERO)

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def exit(self, eng, st, kind, val):
        m = st.mon
        if self.op in ('operator*', 'operator->'):
            self.check(eng, st, 'X11 dereferencing yields the value held', kind == 'ret' and val == ('p', 'this', self.sto), 'yields %s' % eng.where(val or U))
            return
        want = mkcmp('eq', m['a'], m['b'], 64)
        if self.op == 'operator!=':
            want = mknot(want)
        ok = kind == 'ret' and (val == want or (ret_bool(st, val) is not None and ret_bool(st, val) == st.truth(want)))
        self.check(eng, st, 'X12 iterators are equal exactly when they refer to the same channel, or both to none', ok, 'compares something else')


class End(Mon):
    def __init__(self, ch, chan):
        self.chan = chan
        self.inline_prefix = (NS + ch + '::iterator', NS + 'end')

    def exit(self, eng, st, kind, val):
        base = 'a:ret' if self.fn.short.endswith('end') else 'this'
        for x in eng.argvals:
            if x[0] == 'p' and x[1] == 'a:ret':
                base = 'a:ret'
        v = eng.load(st, ('p', base, self.chan), 'e', True, 8, silent=True)
        self.check(eng, st, 'X13 the end iterator refers to no channel', v == ZERO, 'end refers to %s' % eng.where(v))


def run(ctx):
    P = ctx.load(['tu/channels.cpp'])
    fe = [n for n, g in P.globals.items() if g.get('dem', '') == 'typeinfo for ' + NS + 'fiber_error']
    It.fe = fe[0] if fe else '_ZTIN5boost6fibers11fiber_errorE'
    for ch in CH:
        t = record(P, NS + ch + '<Val>::iterator')
        ms = leaf_members(P, t)
        c = [m for m in ms if m[2].replace(' ', '').endswith('*')]
        s = [m for m in ms if not m[2].replace(' ', '').endswith('*')]
        if len(c) != 1 or not s:
            raise Broken('anchor vanished: members of %s::iterator' % ch)
        c, s = c[0][0], min(x[0] for x in s)
        pre = ch + '::iterator::'
        for f in ctx.functions(P, pre + 'operator++'):
            r = It(P, ch, 'operator++', c, s)
            ctx.explore(P, f, r, r.setup)
        n = 0
        for f in ctx.functions(P, pre + 'iterator', np=1):
            if 'const&' in f.dem.split('(', 1)[1]:
                r = Copy(P, ch, 'copy', c, s)
            else:
                r = It(P, ch, 'begin', c, s)
                n += 1
            ctx.explore(P, f, r, r.setup)
        if not n:
            raise Broken('anchor vanished: begin iterator of ' + ch)
        for op in ('operator==', 'operator!=', 'operator*', 'operator->'):
            for f in ctx.functions(P, pre + op):
                r = Access(ch, op, c, s)
                ctx.explore(P, f, r, r.setup)
        for f in [f for f in ctx.functions(P, 'end', need=2) if ' ' + NS + ch in ' ' + f.dem.split('(', 1)[1] or '(' + NS + ch in f.dem]:
            ctx.explore(P, f, End(ch, c))
        for f in ctx.functions(P, 'use::visit', need=2, full=True):
            if NS + ch + '<' in f.dem:
                r = It(P, ch, 'visit', c, s)
                ctx.explore(P, f, r, r.setup)
    ctx.require('X10 after a pop the iterator holds exactly the value popped', 3)
    ctx.require('X9 a closed channel makes the iterator equal to the end', 3)
    ctx.require('X13 the end iterator refers to no channel', 1)


class Copy(It):
    def setup(self, eng, st):
        It.setup(self, eng, st)
        o = eng.argvals[1]
        cb = eng.load(st, ('p', o[1], addoff(o[2], self.chan)), 'cb', True, 8, silent=True)
        eng.assume(st, mkcmp('eq', cb, ZERO, 64), False)
        st.mon['live'] = (('p', o[1], addoff(o[2], self.sto)),)
