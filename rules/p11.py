"""Every operation of unbuffered_channel is explored over all paths as a participant of the slot
protocol, for an element type whose operations may throw.  A producer publishes its own slot
(null -> own) and leaves it only once a claimer resumed it, once it took the slot back itself
(own -> null), or once it saw the claimer's release flag; whoever claims a slot (slot -> null) owns
it until it resumes the producer, on exceptions too, and touches no slot it did not claim.  Success
is reported exactly when a consumer marked the value taken.  Both sides look again under the lock
of their queue before they park, and every change another side waits for notifies that side."""
from rules.common import *
ASSUME = ['the element type\'s operations do not touch the channel', 'waker::wake resumes the fiber if and only if it is still in that wait (P05)',
          'the channel outlives its operations (documented precondition)']
PUSH = ('push', 'push_wait_for', 'push_wait_until')
POP = ('pop', 'value_pop', 'pop_wait_for', 'pop_wait_until')
ACQ, REL = ('acquire', 'acq_rel', 'seq_cst'), ('release', 'acq_rel', 'seq_cst')


def ptr(v):
    return ('p', v[1], 0) if v[0] == 's' else v


class Shape:
    """Offsets of the channel's and the slot's members."""
    def __init__(self, ctx, P):
        t = record(P, NS + 'unbuffered_channel<Val>')
        ms = leaf_members(P, t)
        a = [m for m in ms if m[2].startswith('std::atomic<') and '*' in m[2]]
        b = [m for m in ms if m[2] in ('std::atomic<bool>', 'std::atomic_bool')]
        if len(b) != 1:
            b = [m for m in b if m[1] == 'closed_']
        if len(a) != 1 or len(b) != 1:
            raise Broken('anchor vanished: slot pointer and closed flag of unbuffered_channel')
        self.slot, self.closed = a[0][0], b[0][0]
        s = record(P, a[0][2][len('std::atomic<'):].replace('*', '').replace('>', '', 0).strip().rstrip('>').strip()
                   if a[0][2].count('<') == 1 else a[0][2][len('std::atomic<'):-1].replace('*', '').strip())
        self.val = by_type(P, s, 'Val')[0]
        w = by_type(P, s, NS + 'waker')
        self.wk = w[0]
        wm = leaf_members(P, w[3])
        self.wctx = [m[0] for m in wm if m[2].endswith('*')][0] + w[0]
        self.wep = [m[0] for m in wm if not m[2].endswith('*')][0] + w[0]
        c = record(P, NS + 'context')
        self.epoch = member(P, c, lambda m: m[1] == 'waker_epoch_' or 'atomic<unsigned long' in m[2] and 'epoch' in m[1], 'wait epoch')[0]
        self.locks = [(m[0], P.types[m[3]]['sz']) for m in ms if m[2].startswith(SPINT[:-1])]
        self.wqs = [(m[0], P.types[m[3]]['sz'], m[1]) for m in ms if m[2] == NS + 'wait_queue']
        look = {}

        class Look(Mon):
            inline_prefix = (NS + 'unbuffered_channel',)

            def on_event(self, eng, st, ev):
                if ev.k == 'enqueue' and ev.lock is not None:
                    look.setdefault(self.op, set()).add((ev.wq, ev.lock))
        for op in ('push', 'pop'):
            for f in ctx.functions(P, 'unbuffered_channel::' + op):
                r = Look()
                r.op = op
                ctx.explore(P, f, r)
        self.q, self.lk = {}, {}
        nm = {m[2]: m for m in self.wqs}
        for op, side in (('push', 'prod'), ('pop', 'cons')):
            for wq, l in look.get(op, ()):
                for o, z, n in self.wqs:
                    if wq[1] == 'this' and isinstance(wq[2], int) and o <= wq[2] < o + z:
                        self.q.setdefault(side, set()).add(o)
                for o, z in self.locks:
                    if l[1] == 'this' and isinstance(l[2], int) and o <= l[2] < o + z:
                        self.lk.setdefault(side, set()).add(o)
        full = {m[1]: m[0] for m in ms}
        for d, a, b in ((self.q, 'waiting_producers_', 'waiting_consumers_'), (self.lk, 'splk_producers_', 'splk_consumers_')):
            if not all(len(d.get(s, ())) == 1 for s in ('prod', 'cons')) or d['prod'] == d['cons']:
                if a not in full or b not in full:
                    raise Broken('anchor vanished: wait queues and locks of unbuffered_channel')
                d['prod'], d['cons'] = {full[a]}, {full[b]}
        self.q = {k: v.pop() for k, v in self.q.items()}
        self.lk = {k: v.pop() for k, v in self.lk.items()}

    def side(self, p, d, sizes):
        for s, o in d.items():
            z = [x[1] for x in sizes if x[0] == o][0]
            if p is not None and p[0] == 'p' and p[1] == 'this' and isinstance(p[2], int) and o <= p[2] < o + z:
                return s
        return None

    def wq(self, p):
        return self.side(p, self.q, self.wqs)

    def lock(self, p):
        return self.side(p, self.lk, self.locks)


class Chan(Mon, Timed):
    inline_prefix = (NS + 'unbuffered_channel',)

    def __init__(self, P, S, K, learnt):
        self.P, self.S, self.K, self.L = P, S, K, learnt

    def setup(self, eng, st):
        self.deadline_setup(eng, st)
        self.op = self.fn.short.split('::')[-1]
        self.arg = None
        for v, tn in named_args(eng):
            if tn == 'Val':
                self.arg = v
        st.mon.update(own=ZERO, pub='no', ep=U, claim=ZERO, at=ZERO, seen=(), closed='', csp='', csc='', clsp='', clsc='', rd=U, fl=(),
                      dn=(), owe='', wr=(), took=ZERO, to=ZERO, set='', woke='', need='', moved=ZERO)

    def rely(self, eng, st, base, off, val):
        m = st.mon
        for o in (m.get('own', ZERO), m.get('claim', ZERO)):
            if o != ZERO and base == o[1] and isinstance(off, int) and isinstance(o[2], int) and \
                    off - o[2] in (self.S.wctx, self.S.wep):
                return 'keep'       # claimers only read the waker
        return Mon.rely(self, eng, st, base, off, val)

    def unclaim(self, st):
        """An exchange that found no slot claimed nothing."""
        m = st.mon
        if m.get('xchg') == ONE and m['woke'] == '':
            if m['claim'] == ZERO or st.known_eq(m['claim'], ZERO) is True:
                m.update(claim=ZERO, owe='', at=ZERO, xchg=ZERO)

    # ---- helpers
    def held_side(self, st, s):
        return any(self.S.lock(l) == s for l in st.locks)

    def touch(self, eng, st, ev, what):
        """Is a slot of another fiber accessed, and may it be?"""
        m = st.mon
        bases = []
        if ev.k in ('read', 'write', 'rmw', 'cas'):
            bases = [ev.base]
        elif ev.k in ('call', 'wake'):
            bases = [a[1] for a in ev.args if a[0] == 'p']
        for b in bases:
            if m['claim'] != ZERO and b == m['claim'][1]:
                self.check(eng, st, 'U2 a slot is not touched after its producer was released', m['woke'] not in ('yes', 'rel'),
                           'the producer may already have left the slot that is accessed (%s)' % what)
                return b
            if any(x[1] == b for x in m['seen']) and b[:2] != 'a:' and b != 'this':
                self.check(eng, st, 'U1 only a claimed slot is accessed', False, 'another fiber\'s slot is accessed (%s) without having been claimed: '
                           'it may be consumed twice or no longer exist' % what)
                return b
        return None

    def resolved(self, st):
        m = st.mon
        return m['pub'] in ('no', 'back', 'gone') or (m['pub'] in ('yes', 'lost') and m['rd'] != U and st.truth(m['rd']) is True)

    def leave(self, eng, st):
        m = st.mon
        self.check(eng, st, 'U4 a producer keeps its slot until nobody else can reach it', self.resolved(st),
                   'the producer gives its slot up although %s' % ('a consumer took it and has not released it yet' if m['pub'] == 'lost' else
                                                                   'it is still on offer'))

    # ---- events
    def on_event(self, eng, st, ev):
        m, S, k = st.mon, self.S, ev.k
        self.unclaim(st)
        self.deadline_event(eng, st, ev)
        if k == 'throw':
            code = ev.code[1] if ev.code and ev.code[0] == 'c' else None
            self.check(eng, st, 'U25 closed is reported exactly for a closed channel with nothing taken', ev.name == NS + 'fiber_error' and code == EPERM,
                       'throws %s with code %s' % (ev.name, code))
        if k == 'acquired':
            s = S.lock(ev.lock)
            if s:
                m['cl' + 'sp' if s == 'prod' else 'clsc'] = ''
                m['csp' if s == 'prod' else 'csc'] = ''
        if k in ('read', 'write', 'rmw', 'cas') and ev.base == 'this' and ev.off == S.slot:
            self.slot_access(eng, st, ev)
        elif k in ('read', 'write', 'rmw', 'cas') and ev.base == 'this' and ev.off == S.closed:
            self.closed_access(eng, st, ev)
        elif k == 'rmw' and ev.base == ACTIVE[1] and ev.off == S.epoch:
            m['ep'] = ev.val
        elif k in ('read', 'write', 'rmw', 'cas', 'call', 'wake'):
            b = self.touch(eng, st, ev, eng.loc(st))
            if b is not None and m['claim'] != ZERO and b == m['claim'][1]:
                self.claimed(eng, st, ev)
            elif k in ('read', 'write') and m['own'] != ZERO and ev.base == m['own'][1]:
                self.own_access(eng, st, ev)
            if k == 'call' and ev.name and ev.name.startswith('Val::'):
                self.element(eng, st, ev)
        elif k in ('notify', 'wq_none'):
            s = S.wq(ev.wq)
            self.check(eng, st, 'U9 a wait queue is used under its lock', s is not None and self.held_side(st, s), 'notifies without the queue\'s lock')
            m['dn'] = tuple(sorted(set(m['dn']) | {(s, w) for w in ((ev.which,) if k == 'notify' else ('notify_one', 'notify_all'))}))
            if s == 'prod':
                m['owe'] = ''
        elif k == 'enqueue':
            self.park(eng, st, ev)
        elif k in ('ctx_suspend', 'ctx_wait_until'):
            self.offer(eng, st, ev)
        elif k == 'resumed' and ev.kind == 'suspend':
            m['pub'] = 'gone' if m['pub'] in ('yes', 'lost') else m['pub']
        elif k == 'wait_result':
            m['to'] = ONE if ev.timeout else ZERO
            if not ev.timeout and m['need'] == 'offer':
                m['pub'] = 'gone' if m['pub'] in ('yes', 'lost') else m['pub']
            m['need'] = ''
        elif k == 'lifetime_end' and m['own'] != ZERO and ev.base == m['own'][1]:
            self.leave(eng, st)

    def slot_access(self, eng, st, ev):
        m, k = st.mon, ev.k
        if k == 'read':
            v = ptr(ev.val)
            if v[0] == 'p':
                m['seen'] = (m['seen'] + (v,))[-3:]
            m['csp'] = m['csc'] = v
            return
        if k == 'write':
            self.check(eng, st, 'U3 the slot pointer changes only by publishing, claiming or taking back', False, 'the slot pointer is overwritten')
            return
        if k == 'rmw':
            self.check(eng, st, 'U3 the slot pointer changes only by publishing, claiming or taking back', ev.rmw == 'xchg' and ev.val == ZERO,
                       'the slot pointer is overwritten')
            self.claim(eng, st, ev.old, ev.order)
            m['xchg'] = ONE
            return
        exp, val = ptr(ev.exp), ptr(ev.val)
        own = m['own'] if m['own'] != ZERO else None
        if not ev.ok:
            if ev.old is not None and ptr(ev.old)[0] == 'p':
                m['seen'] = (m['seen'] + (ptr(ev.old),))[-3:]
            if own and exp == own and m['pub'] == 'yes':
                m['pub'] = 'lost'
            return
        m['csp'] = m['csc'] = val
        if st.known_eq(exp, ZERO) is True:
            self.check(eng, st, 'U3 the slot pointer changes only by publishing, claiming or taking back', val[0] == 'p' and val[1][:2] == 'a:' and
                       m['pub'] in ('no', 'back') and self.op in PUSH, 'publishes %s' % eng.where(val))
            self.check(eng, st, 'U5 publishing and claiming order the slot\'s contents', ev.order in REL, 'publishes with memory order ' + ev.order)
            L = lambda o, p=False, s=8: eng.load(st, ('p', val[1], addoff(val[2], o)), 'w', p, s, silent=True)
            self.check(eng, st, 'U6 the offered slot names the waiting producer and its current wait', L(self.S.wctx, True) == ACTIVE and m['ep'] != U and
                       st.known_eq(L(self.S.wep), m['ep']) is True, 'the slot\'s waker is not one created for this wait: nobody could resume the producer')
            self.check(eng, st, 'U7 the offered value is the caller\'s', m['took'] == ONE and m['at'] == ('p', val[1], addoff(val[2], self.S.val)),
                       'the slot does not hold the argument of the push')
            m.update(own=val, pub='yes', rd=U, fl=(), dn=())
            m['init'] = tuple((o, eng.load(st, ('p', val[1], addoff(val[2], o)), 'f%d' % o, False, 1, silent=True)) for o in sorted(self.L['marks']))
        elif own and exp == own:
            self.check(eng, st, 'U3 the slot pointer changes only by publishing, claiming or taking back', st.known_eq(val, ZERO) is True and m['pub'] in ('yes', 'lost'),
                       'takes back a slot that is not on offer, or replaces it')
            m['pub'] = 'back'
            m['owe'] = 'prod'
        else:
            self.check(eng, st, 'U3 the slot pointer changes only by publishing, claiming or taking back', st.known_eq(val, ZERO) is True and
                       st.known_eq(exp, ZERO) is False, 'replaces a slot of another fiber')
            self.claim(eng, st, exp, ev.order)

    def claim(self, eng, st, p, order):
        m = st.mon
        p = ptr(p)
        if st.known_eq(p, ZERO) is True or p[0] != 'p':
            return
        self.check(eng, st, 'U8 one slot is claimed at a time, by consumers and close only', m['claim'] == ZERO or m['woke'] in ('yes', 'rel'),
                   'a second slot is claimed while the first one\'s producer still sleeps')
        self.check(eng, st, 'U5 publishing and claiming order the slot\'s contents', order in ACQ, 'claims with memory order ' + order)
        self.check(eng, st, 'U8 one slot is claimed at a time, by consumers and close only', self.op in POP + ('close', '~unbuffered_channel'),
                   '%s claims a slot' % self.op)
        m.update(claim=p, woke='', wr=(), at=('p', p[1], addoff(p[2], self.S.val)), took=ZERO)
        m['owe'] = 'prod'
        if self.held_side(st, 'cons'):
            m['clsc'] = 'taken'

    def closed_access(self, eng, st, ev):
        m, k = st.mon, ev.k
        if k == 'read':
            m['closed'] = ev.val
            m['clsp'] = m['clsc'] = ev.val
            self.check(eng, st, 'U10 the closed flag is read and set with ordering', ev.order in ACQ, 'reads the flag with memory order ' + ev.order)
            return
        new = ev.val
        self.check(eng, st, 'U11 only close closes a channel, for good', self.op in ('close', '~unbuffered_channel') and st.truth(new) is True,
                   'the closed flag becomes %s in %s' % (eng.where(new), self.op))
        m['set'] = ev.old if k == 'rmw' else ZERO if k == 'write' or ev.ok else m['set']
        m.update(dn=(), csc='', csp='')

    def own_access(self, eng, st, ev):
        m = st.mon
        if m['pub'] == 'no':
            return
        off = ev.off - m['own'][2] if isinstance(ev.off, int) and isinstance(m['own'][2], int) else None
        if ev.k == 'write':
            if not self.resolved(st):
                self.check(eng, st, 'U4 a producer keeps its slot until nobody else can reach it', False, 'the producer changes the slot it has on offer')
            return
        if off in self.L['rel'] and not (m['pub'] == 'gone' and off in self.L['marks']):
            if ev.order in ACQ:
                m['rd'] = ev.val
            return
        if off in self.L['marks']:
            self.check(eng, st, 'U12 the outcome is read only after the claimer is done with the slot', self.resolved(st),
                       'the outcome is read while the claimer may still write it')
            m['fl'] = tuple(x for x in m['fl'] if x[0] != off) + ((off, ev.val),)

    def claimed(self, eng, st, ev):
        """The claimer works on the slot it owns."""
        m = st.mon
        c = m['claim']
        if ev.k == 'wake':
            self.check(eng, st, 'U13 the claimer resumes the slot\'s producer', ev.args[0] == ('p', c[1], addoff(c[2], self.S.wk)) and m['woke'] == '',
                       'resumes with something else than the slot\'s waker')
            m['woke'] = 'asked'
            m['wv'] = ev.val
            self.marks(st)
        elif ev.k == 'write':
            off = ev.off - c[2] if isinstance(ev.off, int) and isinstance(c[2], int) else None
            if m['woke'] == 'asked':
                ok = st.truth(m['wv']) is False and ev.order in REL and st.truth(ev.val) is True
                self.check(eng, st, 'U2 a slot is not touched after its producer was released', st.truth(m['wv']) is False,
                           'the slot is written although its producer may be running again')
                if ok:
                    m['woke'] = 'rel'
                    self.L['rel'].add(off)
                    self.L['relall'].append(off)
            else:
                m['wr'] = tuple(x for x in m['wr'] if x[0] != off) + ((off, ev.val),)
        elif m['woke'] == 'asked' and ev.k in ('read', 'call', 'rmw', 'cas'):
            self.check(eng, st, 'U2 a slot is not touched after its producer was released', st.truth(m['wv']) is False,
                       'the slot is used although its producer may be running again')

    def marks(self, st):
        m = st.mon
        self.L['wr'].setdefault('pop' if self.op in POP else 'close', []).append(frozenset(m['wr']))

    def element(self, eng, st, ev):
        m, a = st.mon, ev.args
        if '~Val' in ev.name:
            if m['own'] != ZERO and a[0][0] == 'p' and a[0][1] == m['own'][1]:
                self.leave(eng, st)
            return
        if len(a) < 2 or ev.threw:
            return
        src = m['at'] if m['at'] != ZERO else self.arg if self.op in PUSH else None
        if a[1] == src:
            if self.op in PUSH:
                self.check(eng, st, 'U7 the offered value is the caller\'s', m['pub'] == 'no', 'the value is moved out of the slot again')
            m['at'], m['took'] = a[0], ONE
        elif a[0] == m['at']:
            self.check(eng, st, 'U7 the offered value is the caller\'s', False, 'the value is overwritten')

    def park(self, eng, st, ev):
        m, S = st.mon, self.S
        side, lk = S.wq(ev.wq), S.lock(ev.lock) if ev.lock is not None else None
        self.check(eng, st, 'U9 a wait queue is used under its lock', side is not None and lk == side and self.held_side(st, side) and
                   st.known_eq(ev.ctx, ACTIVE) is True, 'parks without the queue\'s lock, or another fiber')
        cl, sl = (m['clsp'], m['csp']) if side == 'prod' else (m['clsc'], m['csc'])
        op = st.known_eq(cl, ZERO) is True if cl not in ('', 'taken') else False
        if side == 'prod':
            self.check(eng, st, 'U14 a producer parks only after seeing, under the lock, that the channel is open and the slot taken',
                       op and sl != '' and st.known_eq(sl, ZERO) is False and self.op in PUSH and m['pub'] in ('no', 'back'),
                       '%s parks without that: a notification or a close in between is missed' % self.op)
        else:
            self.check(eng, st, 'U15 a consumer parks only after seeing, under the lock, that the channel is open and the slot empty',
                       op and sl != '' and st.known_eq(sl, ZERO) is True and self.op in POP and (m['claim'] == ZERO),
                       '%s parks without that: a value or a close in between is missed' % self.op)
        self.check(eng, st, 'U16 timed operations wait until the caller\'s deadline, others without one', self.is_timed() == bool(ev.timed) and
                   (not ev.timed or self.deadline_ok(eng, st, ev.tp)), 'waits with another deadline')
        m['to'] = ZERO
        m['need'] = 'park'

    def offer(self, eng, st, ev):
        m, S = st.mon, self.S
        self.check(eng, st, 'U17 a producer suspends only with its slot on offer', m['pub'] in ('yes', 'lost') and st.known_eq(ev.ctx, ACTIVE) is True,
                   'suspends without having published its slot')
        lk = S.lock(ev.lock) if ev.lock is not None else None
        cl = m['clsc']
        seen_open = cl not in ('', 'taken') and (st.known_eq(cl, ZERO) is True)
        self.check(eng, st, 'U18 a producer looks for close() after publishing, in the critical section it suspends in',
                   lk == 'cons' and self.held_side(st, 'cons') and (seen_open or m['pub'] == 'lost'),
                   'a close() between publishing and suspending is missed: the producer sleeps for ever')
        self.check(eng, st, 'U19 publishing notifies a consumer', any(s == 'cons' for s, w in m['dn']), 'no consumer is notified of the value on offer')
        own = m['own']
        if own != ZERO:
            w = eng.load(st, ('p', own[1], addoff(own[2], S.wep)), 'w2', False, 8, silent=True)
            self.check(eng, st, 'U6 the offered slot names the waiting producer and its current wait', st.known_eq(w, m['ep']) is True,
                       'another wait of the producer has begun since the slot was published')
        timed = ev.k == 'ctx_wait_until'
        self.check(eng, st, 'U16 timed operations wait until the caller\'s deadline, others without one', self.is_timed() == timed and
                   (not timed or self.deadline_ok(eng, st, ev.tp)), 'suspends with another deadline')
        if timed:
            wk = ev.waker
            e = c = None
            if wk is not None and wk[0] == 'p':
                c = eng.load(st, ('p', wk[1], addoff(wk[2], S.wctx - S.wk)), 'wc', True, 8, silent=True)
                e = eng.load(st, ('p', wk[1], addoff(wk[2], S.wep - S.wk)), 'we', False, 8, silent=True)
            self.check(eng, st, 'U6 the offered slot names the waiting producer and its current wait', c == ACTIVE and st.known_eq(e, m['ep']) is True,
                       'the timer is armed for another wait than the one the slot names')
        m['to'] = ZERO
        m['need'] = 'offer'

    # ---- exits
    def exit(self, eng, st, kind, val):
        m, op, S = st.mon, self.op, self.S
        self.unclaim(st)
        self.check(eng, st, 'U20 no lock is left held', not st.locks, 'leaves with a lock held')
        if m['own'] != ZERO:
            self.leave(eng, st)
        if m['claim'] != ZERO:
            w = m['woke']
            done = w == 'rel' or w == 'asked' and st.truth(m['wv']) is True
            self.check(eng, st, 'U21 a claimed slot\'s producer is always released', done, 'the producer is %s' % (
                'never resumed' if w == '' else 'not told that its slot is free when it had already timed out'))
        cl = m['closed'] != '' and st.truth(m['closed']) is True
        if m['owe'] == 'prod' and op in POP + PUSH:
            self.check(eng, st, 'U22 emptying the slot notifies a waiting producer', cl and op in PUSH, 'no waiting producer is notified although the slot became free')
        elif op in POP + PUSH:
            self.ok(eng, st, 'U22 emptying the slot notifies a waiting producer')
        if kind == 'terminate':
            self.check(eng, st, 'U23 no operation terminates the program', False, 'terminates')
            return
        if kind == 'throw':
            exc = val[1] if val is not None and val[0] == 'exc' else None
            if op in PUSH:
                self.check(eng, st, 'U24 a failed push offers nothing', m['pub'] == 'no', 'an exception leaves after the value was on offer')
            elif exc is not None and 'fiber_error' in exc:
                self.check(eng, st, 'U25 closed is reported exactly for a closed channel with nothing taken', op == 'value_pop' and cl and m['claim'] == ZERO,
                           'throws although a value was taken or the channel is open')
            return
        if op == 'is_closed':
            self.check(eng, st, 'U26 is_closed reports the flag', m['closed'] != '' and (st.known_eq(val, m['closed']) is True or
                       ret_bool(st, val) is not None and ret_bool(st, val) == st.truth(m['closed'])), 'returns something else')
            return
        if op in ('close', '~unbuffered_channel'):
            again = m['set'] != '' and st.truth(m['set']) is True
            sl = m['csc']
            empty = m['fin'] == ONE if 'fin' in m else False
            self.check(eng, st, 'U27 closing sets the flag, then resumes everybody', m['set'] != '' and (again or {('prod', 'notify_all'), ('cons', 'notify_all')} <= set(m['dn'])),
                       'the flag is not set, or not everybody who waits is notified after it was set')
            self.check(eng, st, 'U28 closing takes back the value on offer, under the lock producers suspend with', m['set'] != '' and (again or empty),
                       'a producer whose value is on offer is not resumed, or one that publishes concurrently is missed')
            return
        if op == 'value_pop':
            self.check(eng, st, 'U29 a pop that succeeds hands exactly one claimed value to the caller', m['claim'] != ZERO and m['took'] == ONE and
                       m['at'][1] == 'a:ret', 'returns without a value, or with another')
            return
        name = None
        for k, c in self.K.items():
            if val == c or st.known_eq(val, c) is True:
                name = k
        if op in POP:
            if name == 'success':
                self.check(eng, st, 'U29 a pop that succeeds hands exactly one claimed value to the caller', m['claim'] != ZERO and m['took'] == ONE and
                           m['at'] == self.arg, 'reports success without having moved the claimed value to the caller')
            else:
                self.check(eng, st, 'U25 closed is reported exactly for a closed channel with nothing taken', m['claim'] == ZERO and (
                    name == 'closed' and cl or name == 'timeout' and m['to'] == ONE and self.is_timed()), 'reports %s' % name)
            return
        if op in PUSH:
            if m['pub'] == 'no' or m['pub'] == 'back':
                self.check(eng, st, 'U30 a push reports closed or timeout exactly in those situations, when nobody took the value',
                           name == 'closed' and cl or name == 'timeout' and m['to'] == ONE and self.is_timed(),
                           'reports %s although its value was not taken%s' % (name, '' if name in ('success', None) else ' and nothing of that kind happened'))
                return
            r = self.taken(st, val)
            self.check(eng, st, 'U31 success is reported exactly when a consumer took the value', r is not None and (name == 'success' and r is True or
                       name == 'closed' and r is False or name is None and r == 'value'), 'reports %s without distinguishing a consumer from close()' % name
                       if r is None else 'reports %s although the value was%s taken' % (name, '' if r else ' not'))

    def taken(self, st, val):
        """True/False: the mark tells that a consumer / close claimed the slot; 'value': the mark itself is returned."""
        m = st.mon
        out = None
        for off, v in m['fl']:
            pv, cv = self.L['marks'].get(off, (None, None))
            init = dict(m.get('init', ())).get(off)
            cv = init if cv is None else cv
            if pv is None or cv is None or st.known_eq(pv, cv) is not False:
                continue
            e = st.known_eq(v, pv)
            if e is None and st.known_eq(v, cv) is True:
                e = False
            if e is None and st.known_eq(v, cv) is False:
                e = True
            if e is None and st.known_eq(v, val) is True and pv == self.K['success'] and cv == self.K['closed']:
                return 'value'
            out = e if e is not None else out
        return out


class Close(Chan):
    """close() additionally: the slot is seen empty, or claimed, under the consumers' lock after the flag is set."""
    def on_event(self, eng, st, ev):
        Chan.on_event(self, eng, st, ev)
        m, S = st.mon, self.S
        if m['set'] != '' and self.held_side(st, 'cons') and ev.k in ('read', 'cas', 'rmw') and ev.base == 'this' and ev.off == S.slot:
            if ev.k == 'cas' and ev.ok or ev.k == 'rmw':
                m['fin'] = ONE
            elif ev.k == 'read':
                m['last'] = ev.val
        if 'last' in m and ev.k == 'release' and S.lock(ev.lock) == 'cons':
            if st.known_eq(m['last'], ZERO) is True:
                m['fin'] = ONE


class Init(Mon):
    def __init__(self, S):
        self.S = S

    def exit(self, eng, st, kind, val):
        L = lambda o, p, s: eng.load(st, ('p', 'this', o), 'i%d' % o, p, s, silent=True)
        self.check(eng, st, 'U32 a new channel is open and offers nothing', L(self.S.slot, True, 8) == ZERO and L(self.S.closed, False, 1) == ZERO,
                   'starts with %s, %s' % (eng.where(L(self.S.slot, True, 8)), eng.where(L(self.S.closed, False, 1))))


def run(ctx):
    P = ctx.load(['tu/channels.cpp'])
    K = {k: constant(P, 'k_' + k) for k in ('success', 'empty', 'full', 'closed', 'timeout')}
    S = Shape(ctx, P)
    ctx.notes.append('members: %s' % vars(S))
    L = dict(rel=set(), relall=[], wr={}, marks={})
    for op in POP + ('close', '~unbuffered_channel', 'is_closed'):
        for f in ctx.functions(P, 'unbuffered_channel::' + op):
            r = (Close if 'close' in op or op[0] == '~' else Chan)(P, S, K, L)
            ctx.explore(P, f, r, r.setup)
    # the marks consumers leave in a slot, and what close leaves there
    pw, cw = L['wr'].get('pop', []), L['wr'].get('close', [])
    if pw and cw:
        for off, v in set.intersection(*[set(x) for x in pw]):
            c = {dict(x).get(off) for x in cw}
            if off is not None and len(c) == 1:
                L['marks'][off] = (v, c.pop())
    ctx.notes.append('marks left by consumers and close: %s, release flag: %s' % (L['marks'], sorted(L['rel'], key=repr)))
    for op in PUSH:
        for f in ctx.functions(P, 'unbuffered_channel::' + op, need=2):
            r = Chan(P, S, K, L)
            ctx.explore(P, f, r, r.setup)
    for f in ctx.functions(P, 'unbuffered_channel::unbuffered_channel', np=0):
        ctx.explore(P, f, Init(S))
    for r, n in (('U14 a producer parks only after seeing, under the lock, that the channel is open and the slot taken', 3),
                 ('U15 a consumer parks only after seeing, under the lock, that the channel is open and the slot empty', 4),
                 ('U18 a producer looks for close() after publishing, in the critical section it suspends in', 3),
                 ('U21 a claimed slot\'s producer is always released', 5), ('U29 a pop that succeeds hands exactly one claimed value to the caller', 4),
                 ('U31 success is reported exactly when a consumer took the value', 3), ('U28 closing takes back the value on offer, under the lock producers suspend with', 2)):
        ctx.require(r, n)
