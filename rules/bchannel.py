"""Guarded-atomic-action rules for buffered_channel (an element type whose operations are opaque and
may throw)."""
from rules.common import *

ESZ = 12
OPS = ('try_push', 'push', 'push_wait_for', 'push_wait_until', 'try_pop', 'pop', 'value_pop', 'pop_wait_for', 'pop_wait_until',
       'close', 'is_closed')


def roles(ctx, P, t):
    """Member offsets: capacity is never written by an operation, the producers' index is written by
    push, the consumers' index by pop; the producers' queue is where push parks, the consumers' where
    pop parks."""
    w, q = {}, {}

    class Look(Mon):
        inline_prefix = (NS + 'buffered_channel',)

        def on_event(self, eng, st, ev):
            if ev.k == 'write' and ev.base == 'this':
                w.setdefault(self.op, set()).add(ev.off)
            elif ev.k == 'enqueue' and ev.wq[1] == 'this':
                q.setdefault(self.op, set()).add(ev.wq[2])
    for op in ('push', 'pop', 'close'):
        for f in ctx.functions(P, 'buffered_channel::' + op):
            r = Look()
            r.op = op
            ctx.explore(P, f, r)
    size = [m for m in leaf_members(P, t) if m[2] in ('unsigned long', 'size_t', 'std::size_t')]
    names = {m[1]: m[0] for m in leaf_members(P, t)}
    o = {m[0] for m in size}
    p, c = w.get('push', set()) & o, w.get('pop', set()) & o
    if len(p) == 1 and len(c) == 1 and p != c and len(o) == 3:
        p, c = p.pop(), c.pop()
        cap = (o - {p, c}).pop()
    elif {'pidx_', 'cidx_', 'capacity_'} <= set(names):
        p, c, cap = names['pidx_'], names['cidx_'], names['capacity_']
    else:
        raise Broken('anchor vanished: roles of the indices of buffered_channel')
    closed = [m for m in leaf_members(P, t) if m[2] == 'bool']
    if len(closed) != 1:
        closed = [m for m in closed if m[1] == 'closed_']
    slots = [m for m in leaf_members(P, t) if m[2].replace(' ', '').endswith('*') and 'boost' not in m[2]]
    if len(slots) != 1:
        slots = [m for m in leaf_members(P, t) if m[1] == 'slots_']
    if not closed or not slots:
        raise Broken('anchor vanished: state of buffered_channel')
    wqs = [m for m in leaf_members(P, t) if m[2] == NS + 'wait_queue']
    wq = {}
    for op, side in (('push', 'prod'), ('pop', 'cons')):
        for x in q.get(op, ()):
            for m in wqs:
                if m[0] <= x < m[0] + P.types[m[3]]['sz']:
                    wq.setdefault(side, set()).add(m[0])
    nm = {m[1]: m[0] for m in wqs}
    if not (len(wq.get('prod', ())) == 1 and len(wq.get('cons', ())) == 1 and wq['prod'] != wq['cons']):
        if not {'waiting_producers_', 'waiting_consumers_'} <= set(nm):
            raise Broken('anchor vanished: wait queues of buffered_channel')
        wq = dict(prod={nm['waiting_producers_']}, cons={nm['waiting_consumers_']})
    sz = P.types[wqs[0][3]]['sz']
    return dict(p=p, c=c, cap=cap, closed=closed[0][0], slots=slots[0][0],
                prod=(wq['prod'].pop(), sz), cons=(wq['cons'].pop(), sz))


class Common(CS, Timed):
    inline_prefix = (NS + 'buffered_channel',)

    def __init__(self, P, t, R, K, own):
        self.P, self.R, self.K, self.own_rules = P, R, K, own
        l = by_type(P, t, SPINT, name='splk_')
        self.lockoff = (l[0], P.types[l[3]]['sz'])
        self.fields = dict(p=(R['p'], False, 8), c=(R['c'], False, 8), cap=(R['cap'], False, 8), closed=(R['closed'], False, 1),
                           slots=(R['slots'], True, 8))

    def check(self, eng, st, rule, cond, msg, site=None, where=None):
        if rule[0] == self.own_rules:
            return Mon.check(self, eng, st, rule, cond, msg, site, where)
        return cond

    def side(self, wq):
        for s in ('prod', 'cons'):
            o, z = self.R[s]
            if wq[0] == 'p' and wq[1] == 'this' and isinstance(wq[2], int) and o <= wq[2] < o + z:
                return s
        return None

    def nexts(self, st, x):
        cap = self.pre(st, 'cap')
        n = mkop('add', (x, ONE), 64)
        out = [mkop('urem', (n, cap), 64), mkop('and', (n, mkop('sub', (cap, ONE), 64)), 64),
               mkop('and', (n, mkop('add', (cap, ('c', (1 << 64) - 1)), 64)), 64)]
        w = st.known_eq(n, cap)
        if w is False:
            out.append(n)
        if w is True:
            out.append(ZERO)
        return out

    def full(self, st):
        p, c = self.pre(st, 'p'), self.pre(st, 'c')
        return self.any_eq(st, c, self.nexts(st, p))

    def any_eq(self, st, v, l):
        r = [st.known_eq(v, x) for x in l]
        return True if True in r else False if False in r else None

    def empty(self, st):
        return st.known_eq(self.pre(st, 'p'), self.pre(st, 'c'))

    def closed(self, st):
        return st.truth(self.pre(st, 'closed'))

    def setup(self, eng, st):
        self.deadline_setup(eng, st)
        self.op = self.fn.short.split('::')[-1]
        self.arg = None
        for v, tn in named_args(eng):
            if tn == 'Val':
                self.arg = v
        st.mon.update(tr=(), el=(), to=ZERO, threw=ZERO, st='', res=U, noted=ZERO)

    def slot_index(self, eng, st, a):
        """Index term when address a lies in the slot array, None otherwise."""
        s = self.cell(eng, st, 'slots')
        if a[0] != 'p' or s[0] != 'p' or a[1] != s[1]:
            return None
        o = a[2]
        if isinstance(o, tuple) and o[0] == 'ix' and len(o[2]) == 1 and o[2][0][1] == ESZ and o[1] % ESZ == 0:
            x = o[2][0][0]
            return mkop('add', (x, ('c', (o[1] // ESZ) & ((1 << 64) - 1))), 64) if o[1] else x
        if isinstance(o, int) and o % ESZ == 0:
            return ('c', o // ESZ)
        return U

    def event(self, eng, st, ev):
        m = st.mon
        self.deadline_event(eng, st, ev)
        k = ev.k
        if k == 'write':
            f = self.fname(ev)
            if f:
                self.check(eng, st, 'Q1 the channel\'s state changes only under its lock', self.held(eng, st), 'writes %s without the lock' % ev.path)
                self.check(eng, st, 'Q2 buffer and capacity never change', f not in ('cap', 'slots'), 'writes %s' % ev.path)
        elif k == 'call' and ev.name in ('Val::operator=', 'Val::Val') and len(ev.args) == 2:
            self.elem(eng, st, ev)
        elif k == 'wait_result':
            m['to'] = ONE if ev.timeout else ZERO
        elif k == 'enqueue':
            self.park(eng, st, ev)
        elif k in ('notify', 'wq_none'):
            self.check(eng, st, 'D1 the wait queues are touched only under the channel\'s lock', self.held(eng, st), '%s without the lock' % ev.which)
        elif k == 'throw':
            code = ev.code[1] if ev.code and ev.code[0] == 'c' else None
            m['st'] = 'error'
            self.check(eng, st, 'D10 value_pop fails with operation_not_permitted exactly when closed and drained',
                       self.op == 'value_pop' and ev.name == NS + 'fiber_error' and code == EPERM and 'cs' in m and
                       self.empty(st) is True and self.closed(st) is True, 'throws %s (%s) in another situation' % (ev.name, code))

    def elem(self, eng, st, ev):
        m = st.mon
        d, s = ev.args
        di, si = self.slot_index(eng, st, d), self.slot_index(eng, st, s)
        if self.arg is not None and self.arg in (d, s) and not ev.threw and not (ev.fn is not None and 'const&' in ev.fn.dem and s == self.arg):
            m['touched'] = ONE
        if di is None and si is None:
            if self.arg is not None and self.arg in (d, s) and not ev.threw:
                self.check(eng, st, 'Q3 a value is copied only between the caller and a slot',
                           self.op in ('push_wait_for', 'push_wait_until') and s == self.arg and False, 'the caller\'s value is copied or moved elsewhere')
            return
        self.check(eng, st, 'Q4 a slot is accessed only under the lock', self.held(eng, st), 'a slot is read or written without the lock')
        if ev.threw:
            m['threw'] = ONE
        else:
            m['el'] = m['el'] + (('st', di, s) if di is not None else ('ld', si, d),)

    def park(self, eng, st, ev):
        m = st.mon
        side = self.side(ev.wq)
        ok = ev.lock is not None and self.is_lock(eng, st, ev.lock) and self.held(eng, st)
        self.check(eng, st, 'D2 a fiber parks with the channel\'s lock', ok and st.known_eq(ev.ctx, ACTIVE) is True,
                   'parks another fiber, or with another lock: a wake-up can be missed')
        if not self.held(eng, st):
            return
        if side == 'prod':
            self.check(eng, st, 'D3 a producer blocks only while the channel is full and open', self.full(st) is True and self.closed(st) is False and
                       self.op in ('push', 'push_wait_for', 'push_wait_until'), '%s blocks as producer on a channel that is %s' % (self.op, self.sit(st)))
        else:
            self.check(eng, st, 'D4 a consumer blocks only while the channel is empty and open', side == 'cons' and self.empty(st) is True and
                       self.closed(st) is False and self.op in ('pop', 'value_pop', 'pop_wait_for', 'pop_wait_until'),
                       '%s blocks as consumer on a channel that is %s' % (self.op, self.sit(st)))
        self.check(eng, st, 'D5 timed operations wait until the caller\'s deadline, others without one', self.is_timed() == bool(ev.timed) and
                   (not ev.timed or self.deadline_ok(eng, st, ev.tp)), 'waits with another deadline')
        m['to'] = ZERO

    def sit(self, st):
        d = {True: 'yes', False: 'no', None: 'possibly'}
        return 'full: %s, empty: %s, closed: %s' % (d[self.full(st)], d[self.empty(st)], d[self.closed(st)])

    def cs_end(self, eng, st, why):
        m = st.mon
        pre = {k: self.pre(st, k) for k in self.fields}
        post = {k: self.cell(eng, st, k) for k in self.fields}
        ch = {k: st.known_eq(pre[k], post[k]) is not True for k in ('p', 'c', 'closed')}
        el = m['el']
        nt = [(w, self.side(e[2])) for e in m['cs'] if e[0] in ('notify', 'wq_none')
              for w in ((e[1],) if e[0] == 'notify' else ('notify_one', 'notify_all'))]
        if ch['p']:
            good = len(el) == 1 and el[0][0] == 'st' and st.known_eq(el[0][1], pre['p']) is True and el[0][2] == self.arg
            self.check(eng, st, 'Q5 a value is stored in the producers\' slot, once, from the caller\'s argument', good,
                       'the producers\' index moves after %d element operation(s), none storing the argument in its slot' % len(el))
            self.check(eng, st, 'Q6 a value is accepted only when a slot is free and the channel is open', self.full(st) is False and
                       self.closed(st) is False, 'a value is accepted by a channel that is %s' % self.sit(st))
            self.check(eng, st, 'Q7 the producers\' index moves to the next slot', self.any_eq(st, post['p'], self.nexts(st, pre['p'])) is True and not ch['c'],
                       'the index moves from %s to %s' % (eng.where(pre['p']), eng.where(post['p'])))
            self.check(eng, st, 'D6 a stored value resumes a waiting consumer', any(s == 'cons' for w, s in nt), 'no consumer is notified')
            m['tr'] = m['tr'] + ('push',)
        elif ch['c']:
            good = len(el) == 1 and el[0][0] == 'ld' and st.known_eq(el[0][1], pre['c']) is True and self.dest(el[0][2])
            self.check(eng, st, 'Q8 the value of the consumers\' slot is handed to the caller, once', good,
                       'the consumers\' index moves after %d element operation(s), none handing its slot to the caller' % len(el))
            self.check(eng, st, 'Q9 a value is taken only when there is one', self.empty(st) is False, 'a value is taken from a channel that is %s' % self.sit(st))
            self.check(eng, st, 'Q10 the consumers\' index moves to the next slot', self.any_eq(st, post['c'], self.nexts(st, pre['c'])) is True,
                       'the index moves from %s to %s' % (eng.where(pre['c']), eng.where(post['c'])))
            self.check(eng, st, 'D7 a freed slot resumes a waiting producer', any(s == 'prod' for w, s in nt), 'no producer is notified')
            m['tr'] = m['tr'] + ('pop',)
        else:
            self.check(eng, st, 'Q11 without a transfer no slot is touched', not el, 'a slot is read or written but no index moves')
        if ch['closed'] or self.op in ('close', '~buffered_channel'):
            self.check(eng, st, 'D8 closing marks the channel closed and resumes everybody', self.op in ('close', '~buffered_channel') and
                       st.truth(post['closed']) is True and (self.closed(st) is True or {('notify_all', 'prod'), ('notify_all', 'cons')} <= set(nt)),
                       'closed goes to %s, notified: %s' % (eng.where(post['closed']), nt))
            m['noted'] = ONE
        m['el'] = ()
        # the situation this critical section saw, for the status reported
        m['sit'] = (self.full(st), self.empty(st), self.closed(st))
        m['cl'] = post['closed']

    def dest(self, d):
        return d == self.arg if self.arg is not None else d[1][:2] == 'a:'

    def exit(self, eng, st, kind, val):
        m, op, tr = st.mon, self.op, st.mon['tr']
        full, empty, closed = m.get('sit', (None, None, None))
        self.check(eng, st, 'D9 the lock is released on every exit', not st.locks, 'leaves with the lock held')
        if kind == 'throw':
            self.check(eng, st, 'Q12 a failed operation transfers nothing', not tr, 'an exception leaves after a value was transferred')
            return
        if kind != 'ret':
            self.check(eng, st, 'D11 no operation terminates the program', False, 'terminates')
            return
        want = ('push',) if 'push' in op else ('pop',)
        if op == 'value_pop':
            self.check(eng, st, 'Q13 success is reported exactly for one transfer', tr == want, 'returns a value after %d transfers' % len(tr))
            return
        if op == 'is_closed':
            self.check(eng, st, 'D12 is_closed reports the state', 'cl' in m and (st.known_eq(val, m['cl']) is True or
                       ret_bool(st, val) is not None and ret_bool(st, val) == st.truth(m['cl'])), 'returns something else')
            return
        if op in ('close', '~buffered_channel'):
            self.check(eng, st, 'D8 closing marks the channel closed and resumes everybody', m['noted'] == ONE, 'returns without having closed')
            return
        name = None
        for k, c in self.K.items():
            if val == c or st.known_eq(val, c) is True:
                name = k
        self.check(eng, st, 'Q13 success is reported exactly for one transfer', (name == 'success' and tr == want) or
                   (name not in (None, 'success') and not tr), 'reports %s after %d transfers' % (name, len(tr)))
        ok = {'success': True,
              'closed': closed is True and ('push' in op or empty is True),
              'full': op == 'try_push' and full is True and closed is False,
              'empty': op == 'try_pop' and empty is True and closed is False,
              'timeout': m['to'] == ONE and self.is_timed()}.get(name, False)
        self.check(eng, st, 'D13 full, empty, closed and timeout are reported exactly in those situations', ok,
                   'reports %s%s on a channel that is full: %s, empty: %s, closed: %s' % (
                       name, ' after a timeout' if m['to'] == ONE else '', full, empty, closed))
        if name != 'success':
            self.check(eng, st, 'D14 an operation that fails leaves its argument untouched', 'touched' not in m,
                       'the argument was moved from or assigned although %s is reported' % name)


class Ctor(Mon):
    def __init__(self, P, R, own):
        self.P, self.R, self.own_rules = P, R, own

    check = Common.check

    def start(self, eng, st):
        self.op = self.fn.short.split('::')[-1]
        st.mon['a'] = eng.argvals[1] if len(eng.argvals) > 1 else ZERO

    def valid(self, st):
        a = st.mon['a']
        small = st.truth(mkcmp('ult', a, ('c', 2), 64))
        if small is None:
            s = st.truth(mkcmp('ult', ONE, a, 64))
            small = None if s is None else not s
        p = [st.known_eq(mkop('and', (a, x), 64), ZERO) for x in (mkop('sub', (a, ONE), 64), mkop('add', (a, ('c', (1 << 64) - 1)), 64))]
        pow2 = True if True in p else False if False in p else None
        if small is False and pow2 is True:
            return True
        if small is True or pow2 is False:
            return False
        return None

    def on_event(self, eng, st, ev):
        if ev.k == 'throw':
            code = ev.code[1] if ev.code and ev.code[0] == 'c' else None
            self.check(eng, st, 'Q14 capacities below two or not a power of two are refused, others accepted', ev.name == NS + 'fiber_error' and
                       code == EINVAL and self.valid(st) is False, 'throws %s (%s) for a valid capacity' % (ev.name, code))
        elif ev.k == 'alloc':
            st.mon['sz'] = ev.size

    def exit(self, eng, st, kind, val):
        if kind != 'ret':
            return
        L = lambda k, p, s: eng.load(st, ('p', 'this', self.R[k]), 'x' + k, p, s, silent=True)
        a = st.mon['a']
        self.check(eng, st, 'Q14 capacities below two or not a power of two are refused, others accepted', self.valid(st) is True,
                   'a channel of invalid capacity is created')
        self.check(eng, st, 'Q15 a new channel is empty, open and has the requested capacity', st.known_eq(L('p', False, 8), L('c', False, 8)) is True and
                   L('p', False, 8) == ZERO and st.known_eq(L('cap', False, 8), a) is True and L('closed', False, 1) == ZERO,
                   'initial state: %s' % [eng.where(L(k, False, 8)) for k in ('p', 'c', 'cap', 'closed')])
        n = set()
        syms_of(st.mon.get('sz', ZERO), n)
        s = L('slots', True, 8)
        b = set()
        syms_of(a, b)
        self.check(eng, st, 'Q16 the buffer has one slot per unit of capacity', s[0] == 'p' and s[1].startswith('h:') and b <= n and
                   self.elems(st.mon['sz'], a), 'the buffer is allocated for %s' % eng.where(st.mon.get('sz', ZERO)))

    def elems(self, t, a):
        """Does the allocation size contain a * ESZ?"""
        if t == mkop('mul', (a, ('c', ESZ)), 64):
            return True
        return isinstance(t, tuple) and any(isinstance(x, tuple) and self.elems(x, a) for x in t[1:])


class Dtor(Common):
    def start(self, eng, st):
        st.mon['fr'] = ZERO

    def event(self, eng, st, ev):
        if ev.k == 'free':
            st.mon['fr'] = ONE if st.mon['fr'] == ZERO else ('c', 2)
        Common.event(self, eng, st, ev)

    def elem(self, eng, st, ev):
        pass

    def exit(self, eng, st, kind, val):
        Common.exit(self, eng, st, kind, val)
        s = self.cell(eng, st, 'slots')
        self.check(eng, st, 'Q17 the buffer is freed exactly once', st.mon['fr'] == (ZERO if st.known_eq(s, ZERO) else ONE), 'it is %s' % (
            'not freed' if st.mon['fr'] == ZERO else 'freed twice'))


def run(ctx, own):
    P = ctx.load(['tu/channels.cpp'])
    K = {k: constant(P, 'k_' + k) for k in ('success', 'empty', 'full', 'closed', 'timeout')}
    t = record(P, NS + 'buffered_channel<Val>')
    R = roles(ctx, P, t)
    ctx.notes.append('members: %s' % R)
    seen = set()
    for op in OPS:
        for f in ctx.functions(P, 'buffered_channel::' + op, need=2 if op.startswith('push') or op == 'try_push' else 1):
            r = Common(P, t, R, K, own)
            ctx.explore(P, f, r, r.setup)
    for f in ctx.functions(P, 'buffered_channel::buffered_channel', np=1):
        ctx.explore(P, f, Ctor(P, R, own))
    for f in ctx.functions(P, 'buffered_channel::~buffered_channel'):
        r = Dtor(P, t, R, K, own)
        ctx.explore(P, f, r, r.setup)
    if own == 'Q':
        ctx.require('Q5 a value is stored in the producers\' slot, once, from the caller\'s argument', 4)
        ctx.require('Q8 the value of the consumers\' slot is handed to the caller, once', 5)
        ctx.require('Q16 the buffer has one slot per unit of capacity', 1)
    else:
        for r, n in (('D3 a producer blocks only while the channel is full and open', 3),
                     ('D4 a consumer blocks only while the channel is empty and open', 4),
                     ('D6 a stored value resumes a waiting consumer', 4), ('D7 a freed slot resumes a waiting producer', 5),
                     ('D8 closing marks the channel closed and resumes everybody', 1)):
            ctx.require(r, n)
