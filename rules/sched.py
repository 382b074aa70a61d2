"""The per-thread scheduler: every operation of its interface and of the dispatch loop is explored over all paths with its queues
abstracted to empty / first element / unknown (rules/queues.py).  D* rules belong to P20, E* rules to P21."""
from rules.queues import *
from rules.life import top_members

UNITS = ['src/scheduler.cpp', 'src/context.cpp', 'src/algo/algorithm.cpp', 'src/waker.cpp']
S = NS + 'scheduler::'
ALG = NS + 'algo::algorithm'
MAXTP = ('c', 0x7fffffffffffffff)
D1 = 'D1 a readied fiber is handed to the algorithm exactly once'
D2 = 'D2 a readied fiber leaves the sleep queue'
D3 = 'D3 a fiber readied by another thread is queued under the lock, then the scheduler is notified'
D4 = 'D4 yielding requeues the fiber behind the switch to the next one'
D5 = 'D5 suspending switches to the next ready fiber and hands the lock to the switch'
D6 = 'D6 remotely readied fibers are fetched under the lock and made ready in every round'
D7 = 'D7 expired sleepers are made ready in every round'
D8 = 'D8 terminated fibers are released once in every round'
D9 = 'D9 the dispatcher runs the fiber it picked and stays ready itself'
D10 = 'D10 the dispatcher goes idle only when nothing is ready'
D11 = 'D11 the dispatcher ends only at shutdown with no worker left, and returns to the main fiber'
D12 = 'D12 a replaced algorithm hands over every ready fiber'
D13 = 'D13 attaching and detaching register the fiber with exactly one scheduler'
D14 = 'D14 a fiber is readied on the scheduler it belongs to'
D15 = 'D15 the calls of a fiber reach its scheduler unchanged'
E1 = 'E1 a deadline is stored before the fiber is queued under it'
E2 = 'E2 a sleeping fiber can be woken by its deadline'
E3 = 'E3 only expired sleepers are made ready, each once'
E4 = 'E4 an idle scheduler sleeps until the earliest deadline'
E5 = 'E5 a timed wait reports a time-out only when the deadline has passed'
E6 = 'E6 sleepers are ordered by their deadline'
V1 = 'V1 another thread notifies an algorithm only while its scheduler can not go away'
V2 = 'V2 an algorithm is exchanged while no other thread can be notifying it'
E7 = 'E7 a sleeping call hands its deadline on unchanged'
E8 = 'E8 a deadline on another clock keeps the remaining duration'


class Lay:
    def __init__(self, P):
        self.P = P
        self.s = record(P, NS + 'scheduler')
        self.c = record(P, NS + 'context')
        ms = top_members(P, self.s)

        def one(t, ms, pred, what):
            r = [m for m in ms if pred(m[2].replace('const ', ''), m[1])]
            if len(r) != 1:
                raise Broken('anchor vanished: %s has %d members "%s"' % (t, len(r), what))
            return r[0][0], P.types[r[0][3]].get('sz') or 8
        self.queues = {o: (n, tn) for o, n, tn, x in ms if 'intrusive::' in tn and 'ptr' not in tn.split('<')[0] or tn.endswith('queue_type')}
        self.splk = one('scheduler', ms, lambda n, m: n.startswith(NS + 'detail::spinlock'), 'spinlock')
        self.algo = one('scheduler', ms, lambda n, m: 'algorithm' in n or 'ptr_t' in n, 'algorithm')[0]
        self.main = one('scheduler', ms, lambda n, m: n == NS + 'context*', 'main context')[0]
        self.disp = one('scheduler', ms, lambda n, m: 'intrusive_ptr' in n and 'context' in n, 'dispatcher context')[0]
        self.down = one('scheduler', ms, lambda n, m: n == 'bool', 'shutdown flag')[0]
        cm = top_members(P, self.c)
        self.sched = one('context', cm, lambda n, m: n == NS + 'scheduler*', 'scheduler')[0]
        self.tp = one('context', cm, lambda n, m: 'time_point' in n, 'deadline')[0]
        self.waker = one('context', cm, lambda n, m: n == NS + 'waker', 'sleep waker')[0]
        self.hooks = {}
        for h in ('ready', 'remote_ready', 'sleep', 'terminated', 'worker'):
            self.hooks[h] = one('context', cm, lambda n, m: n == NS + 'detail::%s_hook' % h or 'detail::%s_tag' % h in n, h + ' hook')
        wm = top_members(P, record(P, NS + 'waker'))
        self.w = {('c' if 'context' in tn else 'e'): o for o, n, tn, x in wm}


def before(st, a, b):
    """Is time point a known to lie before b: True, False (b <= a), or None?"""
    r = st.truth(mkcmp('slt', a, b, 64))
    return r if r is not None or st.truth(mkcmp('slt', b, a, 64)) is not True else False


def linear(v, k=1, acc=None):
    """{symbol: factor} of a linear expression (symbol None: the constant)."""
    acc = {} if acc is None else acc
    if v[0] == 'c':
        acc[None] = acc.get(None, 0) + k * (v[1] - (1 << 64) if v[1] >> 63 else v[1])
    elif v[0] == 'o' and v[1] in ('add', 'sub') and len(v) >= 4:
        linear(v[2], k, acc)
        linear(v[3], k if v[1] == 'add' else -k, acc)
    elif v[0] == 'o' and v[1] == 'mul' and (v[2][0] == 'c' or v[3][0] == 'c'):
        c, x = (v[2], v[3]) if v[2][0] == 'c' else (v[3], v[2])
        linear(x, k * (c[1] - (1 << 64) if c[1] >> 63 else c[1]), acc)
    else:
        acc[v] = acc.get(v, 0) + k
    return {s: n for s, n in acc.items() if n}


class Sched(Queues):
    """Common part: names of queues by the role they play is learnt from the operations that fill them."""
    inline_prefix = (S[:-2], NS + 'context::worker_', NS + 'context::ready_', NS + 'context::sleep_', NS + 'context::remote_', NS + 'context::terminated_',
                     NS + 'context::get_scheduler', NS + 'context::is_', NS + 'waker')
    watch = {NS + 'context::suspend_with_cc': 'swcc', NS + 'context::create_waker': None}
    max_states = 40000
    rules = 'DE'

    def __init__(self, P, lay, roles):
        self.P, self.lay, self.roles = P, lay, roles
        self.eltype = lay.c

    def check(self, eng, st, rule, cond, msg, site=None, where=None):
        if rule[0] not in self.rules and rule not in self.rules and not (rule == D7 and 'E' in self.rules):
            return cond
        return Mon.check(self, eng, st, rule, cond, msg, site, where)

    def isq(self, p, role):
        return p[1] == 'this' and p[2] == self.roles.get(role)

    def from_(self, org, role):
        return any(self.isq(o, role) for o in org)

    def ctx_arg(self, eng):
        for v in eng.argvals:
            t = eng.symty.get(v[1]) if v[0] == 'p' else None
            if v[0] == 'p' and v[1] != 'this' and t is not None and self.P.tname(t) in (NS + 'context',):
                return v
        raise Broken('anchor vanished: fiber argument of %s' % self.fn.short)

    def lock_arg(self, eng):
        for v in eng.argvals:
            t = eng.symty.get(v[1]) if v[0] == 'p' else None
            if v[0] == 'p' and t is not None and 'unique_lock' in self.P.tname(t):
                return v
        return None

    def rely(self, eng, st, base, off, val):
        L = self.lay
        if base == 'this':
            return 'keep' if off in (L.main, L.disp) else None
        if off == L.tp or off == L.sched or isinstance(off, tuple) and off[0] == 'lk' and off[1] != L.hooks['remote_ready'][0]:
            return 'keep'
        return Mon.rely(self, eng, st, base, off, val)

    def model(self, eng, st, fr, i, fn, args):
        s = fn.short
        if s == NS + 'intrusive_ptr_release' or s == NS + 'intrusive_ptr_add_ref':
            t = eng.symty.get(args[0][1]) if args[0][0] == 'p' else None
            eng.emit(st, Ev(k='unref' if s.endswith('release') else 'addref', val=args[0], held=st.locks))
            st.say('%s: %s(%s)' % (eng.loc(st), s.split('::')[-1], eng.where(args[0])))
            return [(st, None)]
        if s == NS + 'waker::wake':
            w = args[0]
            c = eng.load(st, ('p', w[1], addoff(w[2], self.lay.w['c'])), 'wkc', True, 8, silent=True)
            e = eng.load(st, ('p', w[1], addoff(w[2], self.lay.w['e'])), 'wke', False, 8, silent=True)
            v = eng.fresh(st, 'b:woke', '%d.%d' % (fr.ctx, i.get('i', 0)), False)
            eng.emit(st, Ev(k='woken', ctx=c, epoch=e, src=w))
            st.say('%s: wake(%s)' % (eng.loc(st), eng.where(w)))
            return [(st, v)]
        if s == NS + 'context::create_waker':
            st.say('%s: create_waker' % eng.loc(st))
            e = eng.fresh(st, 'epoch', '%d.%s' % (fr.ctx, i.get('i', 0)), False)
            st.mon['epoch'] = (args[1] if fn.sret else args[0], e)
            if fn.sret:
                eng.store(st, ('p', args[0][1], addoff(args[0][2], self.lay.w['c'])), args[1], i, silent=True)
                eng.store(st, ('p', args[0][1], addoff(args[0][2], self.lay.w['e'])), e, i, silent=True)
                return [(st, None)]
            return [(st, ('agg', args[0], e) if self.lay.w['c'] < self.lay.w['e'] else ('agg', e, args[0]))]
        if s.startswith(NS + 'context::resume') and s.split('::')[-1] == 'resume':
            t = eng.symty.get(args[1][1]) if len(args) > 1 and args[1][0] == 'p' else None
            kind = 'plain' if len(args) < 2 else 'lock' if 'spinlock' in fn.dem or 'unique_lock' in fn.dem else 'ready'
            if kind == 'lock':
                dev, own = ulock(eng, st, args[1])
            eng.emit(st, Ev(k='resume', ctx=args[0], kind=kind, arg=args[1] if len(args) > 1 else None, held=st.locks))
            st.say('%s: resume(%s)' % (eng.loc(st), eng.where(args[0])))
            eng.havoc(st, 'resume')
            self.forget(st)
            eng.emit(st, Ev(k='resumed', kind=kind))
            return [(st, None)]
        return Queues.model(self, eng, st, fr, i, fn, args)

    def deadline(self, eng, st, elem):
        """A fiber's deadline, as first read and as it is now."""
        r = [tp for e, tp in st.mon.get('tps', ()) if e == elem]
        return r + [eng.load(st, ('p', elem[1], self.lay.tp), 'tp%s' % elem[1].replace(':', ''), False, 8, silent=True)]

    def new_elem(self, eng, st, p, v):
        if self.isq(p, 'sleep') or p[1] == '?':
            tp = eng.load(st, ('p', v[1], self.lay.tp), 'tp%s' % v[1].replace(':', ''), False, 8, silent=True)
            live = [e[2] for e in st.mon.get('q', ())] + [e[0] for e in st.mon.get('pend', ())]
            st.mon['tps'] = tuple(x for x in st.mon.get('tps', ()) if x[0] != v and x[0] in live)[-3:] + ((v, tp),)

    def acall(self, ev):
        """Name of the algorithm operation a virtual call names."""
        if ev.k == 'call' and ev.virt and ev.name.startswith(ALG) and ev.name.split('::')[-2].startswith('algorithm'):
            return ev.name.split('::')[-1]
        return None

    def my_algo(self, eng, st):
        return eng.load(st, ('p', 'this', self.lay.algo), 'alg', True, 8, silent=True)


class Learn(Sched):
    """Which queue an operation fills."""
    rules = ''

    def on_event(self, eng, st, ev):
        if ev.k == 'put' and ev.c[1] == 'this':
            self.found.add(ev.c[2])


def learn(ctx, P, lay):
    roles = {}
    for role, fn, np in (('remote', 'schedule_from_remote', None), ('sleep', 'wait_until', None), ('terminated', 'terminate', None), ('worker', 'attach_worker_context', None)):
        found = set()
        for f in ctx.functions(P, 'scheduler::' + fn):
            r = Learn(P, lay, {})
            r.found = found
            ctx.explore(P, f, r)
        if len(found) > 1:
            raise Broken('anchor vanished: the queue that %s fills (%s)' % (fn, sorted(found)))
        roles[role] = found.pop() if found else None
    if None in roles.values():
        # an operation that fills no queue at all: the one nobody else fills is its own
        t = record(P, S[:-2])
        rest = {m[0] for m in top_members(P, t) if re.search(r'_queue_t$|intrusive::(s?list|multiset|set)\b', m[2]) and not any(q is not None and q == m[0] for q in roles.values())}
        for r in [r for r, q in roles.items() if q is None]:
            if len(rest) != 1:
                raise Broken('anchor vanished: the queue of %s fibers (%s)' % (r, sorted(rest)))
            roles[r] = rest.pop()
    if len(set(roles.values())) != 4:
        raise Broken('anchor vanished: scheduler queues coincide: %s' % roles)
    return roles


class Ready(Sched):
    """schedule, schedule_from_remote."""
    def start(self, eng, st):
        self.c = self.ctx_arg(eng)
        st.mon.update(aw=ZERO, put=ZERO, cs=ZERO, note=ZERO)

    def on_event(self, eng, st, ev):
        m, L = st.mon, self.lay
        a = self.acall(ev)
        loc = self.fn.short.endswith('::schedule')
        if a == 'awakened':
            self.check(eng, st, D1, loc and m['aw'] == ZERO and ev.args[1] == self.c and st.known_eq(ev.args[0], self.my_algo(eng, st)) is True,
                       'awakened(%s) %s' % (eng.where(ev.args[1]), 'again' if m['aw'] != ZERO else ''))
            m['aw'] = ONE
        elif a == 'notify':
            if m['put'] == ONE:
                m['note'] = ONE
            if not loc:
                self.check(eng, st, V1, any(overlaps(l, 'this', *L.splk) for l in st.locks),
                           'the lock of the remotely readied fibers is not held: the fiber may already have run, its thread ended and scheduler and algorithm be gone')
                self.check(eng, st, V1, st.known_eq(ev.args[0], self.my_algo(eng, st)) is True, 'notifies %s' % eng.where(ev.args[0]))
        elif ev.k == 'put':
            held = any(overlaps(l, 'this', *L.splk) for l in st.locks)
            self.check(eng, st, D3, not loc and self.isq(ev.c, 'remote') and held and ev.val == self.c and m['put'] == ZERO,
                       'puts %s into %s%s' % (eng.where(ev.val), eng.where(ev.c), '' if held else ' without the lock'))
            m['put'] = ONE
        elif ev.k == 'took':
            self.check(eng, st, D2 if loc else D3, loc and self.isq(ev.c, 'sleep') and ev.val == self.c, 'takes %s out of %s' % (eng.where(ev.val), eng.where(ev.c)))
            st.mem[(self.c[1], ('lk', L.hooks['sleep'][0]))] = ZERO
        elif ev.k == 'hook' and ev.op == 'unlink':
            o, z = L.hooks['sleep']
            self.check(eng, st, D2 if loc else D3, loc and overlaps(ev.h, self.c[1], o, z), 'unlinks %s' % eng.where(ev.h))

    def exit(self, eng, st, kind, val):
        m, L = st.mon, self.lay
        if self.fn.short.endswith('::schedule'):
            self.check(eng, st, D1, kind == 'ret' and m['aw'] == ONE, 'the fiber is not handed to the algorithm')
            lk = [v for k, v in st.mem.items() if k[0] == self.c[1] and isinstance(k[1], tuple) and k[1][0] == 'lk' and
                  overlaps(('p', self.c[1], k[1][1]), self.c[1], *L.hooks['sleep'])]
            self.check(eng, st, D2, any(st.truth(v) is False for v in lk), 'the fiber may still be in the sleep queue: it is readied again by its deadline')
        else:
            self.check(eng, st, D3, kind == 'ret' and m['put'] == ONE and m['note'] == ONE, 'the fiber is %s' % (
                'not queued' if m['put'] != ONE else 'queued, but the scheduler is not notified afterwards: it may sleep on'))
        self.check(eng, st, D3, not st.locks, 'leaves the queue locked')


class Switch(Sched):
    """yield, suspend, wait_until."""
    def start(self, eng, st):
        op = self.fn.short.split('::')[-1]
        self.op = op
        self.timed = op == 'wait_until'
        self.c = self.ctx_arg(eng) if op != 'suspend' else None
        self.lk = self.lock_arg(eng)
        self.tp = self.w = None
        if self.lk is not None:
            self.dev = ('p', 'nn:lockdev', 0)
            eng.symdesc['nn:lockdev'] = 'caller\'s lock'
            eng.roots.add('nn:lockdev')
            st.names.add('nn:lockdev')
            st.mem[(self.lk[1], 0)] = self.dev
            st.mem[(self.lk[1], 8)] = ONE
            st.locks = (self.dev,)
        st.mon.update(picked=U, gone=ZERO, put=ZERO, now=U, tp=U, wc=U, we=U)
        for v, tn in named_args(eng):
            if 'time_point' in tn:
                st.mon['tp'] = eng.load(st, v, 'tp0', False, 8, silent=True)
            elif tn.replace('const ', '').startswith(NS + 'waker'):
                st.mon['wc'] = eng.load(st, ('p', v[1], self.lay.w['c']), 'w0c', True, 8, silent=True)
                st.mon['we'] = eng.load(st, ('p', v[1], self.lay.w['e']), 'w0e', False, 8, silent=True)

    def rely(self, eng, st, base, off, val):
        if base.startswith('nn:arg') and not (self.c is not None and base == self.c[1]):
            return 'keep'       # the caller's own objects
        return Sched.rely(self, eng, st, base, off, val)

    def on_event(self, eng, st, ev):
        m, L = st.mon, self.lay
        a = self.acall(ev)
        if a == 'pick_next':
            self.check(eng, st, D5, m['picked'] == U, 'a second fiber is picked: the first one is lost')
            m['picked'] = ev.res
        elif a == 'awakened':
            self.check(eng, st, D4, False, 'the fiber is made ready before its stack is left')
        elif ev.k == 'put':
            self.check(eng, st, E1, self.timed and self.isq(ev.c, 'sleep') and ev.val == self.c and m['put'] == ZERO and m['gone'] == ZERO, 'puts %s into %s' % (eng.where(ev.val), eng.where(ev.c)))
            v = eng.load(st, ('p', self.c[1], L.tp), 'ctp', False, 8, silent=True) if self.c else U
            self.check(eng, st, E1, self.timed and st.known_eq(v, m['tp']) is True, 'the fiber is queued under %s' % eng.where(v))
            m['put'] = ONE
        elif ev.k == 'resume':
            ok = m['picked'] != U and ev.ctx == m['picked'] and m['gone'] == ZERO
            if self.op == 'yield':
                self.check(eng, st, D4, ok and ev.kind == 'ready' and ev.arg == self.c, 'switches to %s%s' % (eng.where(ev.ctx), '' if ev.kind == 'ready' else ' without requeueing the yielding fiber'))
            else:
                self.check(eng, st, D5, ok and (ev.kind == 'plain' if self.lk is None else ev.kind == 'lock' and ev.arg == self.lk),
                           'switches to %s (%s)' % (eng.where(ev.ctx), ev.kind))
            if self.timed:
                self.check(eng, st, E1, m['put'] == ONE, 'the fiber suspends without being queued under its deadline')
                c = eng.load(st, ('p', self.c[1], L.waker + L.w['c']), 'swc', True, 8, silent=True)
                e = eng.load(st, ('p', self.c[1], L.waker + L.w['e']), 'swe', False, 8, silent=True)
                if m['wc'] != U:
                    ok = st.known_eq(c, m['wc']) is True and st.known_eq(e, m['we']) is True
                else:
                    ok = 'epoch' in m and m['epoch'][0] == self.c and st.known_eq(c, self.c) is True and st.known_eq(e, m['epoch'][1]) is True
                self.check(eng, st, E2, ok, 'the sleeping fiber\'s waker is {%s, %s}' % (eng.where(c), eng.where(e)))
            m['gone'] = ONE
        elif ev.k == 'release' and self.lk is not None and ev.lock == self.dev:
            self.check(eng, st, D5, False, 'the lock is released before the stack is left')
        elif ev.k == 'now':
            m['now'] = ev.val if m['gone'] == ONE else U

    def exit(self, eng, st, kind, val):
        m = st.mon
        self.check(eng, st, D4 if self.op == 'yield' else D5, kind == 'ret' and m['gone'] == ONE, 'returns without having switched')
        if self.timed and kind == 'ret':
            r = ret_bool(st, val)
            for want in (True, False):
                if r is not None and r != want:
                    continue
                s = st
                if r is None:
                    s = st.copy()
                    if not eng.assume(s, val, want):
                        continue
                if not want:
                    late = m['now'] != U and (s.truth(mkcmp('slt', m['now'], m['tp'], 64)) is False)
                    self.check(eng, s, E5, late, 'reports a time-out although the deadline may not have passed')
                self.ctx.ok(E5, self.fn.short)


class Dispatch(Sched):
    def start(self, eng, st):
        st.mon.update(pend=(), rem=ZERO, term=ZERO, now=U, fresh=ZERO, picked=U, sd=U, swcc=ZERO, idle=ZERO, swv=U)
        # both are set before the dispatcher first runs, and stay (P23)
        for o in (self.lay.main, self.lay.disp):
            v = eng.load(st, ('p', 'this', o), 'm%d' % o, True, 8, silent=True)
            eng.assume(st, mkcmp('eq', v, ZERO, 64), False)

    def pend(self, st, v, role):
        st.mon['pend'] = st.mon['pend'] + ((v, role),)

    def settle(self, eng, st, rule, v, role):
        p = st.mon['pend']
        for x in p:
            if st.known_eq(x[0], v) is True and x[1] == role:
                st.mon['pend'] = tuple(y for y in p if y is not x)
                return True
        return False

    def on_event(self, eng, st, ev):
        m, L, k = st.mon, self.lay, ev.k
        a = self.acall(ev)
        if k == 'took':
            for role, rule in (('remote', D6), ('terminated', D8), ('sleep', D7)):
                if self.from_(ev.org, role):
                    if role == 'sleep':
                        tp = self.deadline(eng, st, ev.val)
                        self.check(eng, st, E3, m['now'] != U and any(before(st, m['now'], t) is False for t in tp),
                                   'a fiber is taken out of the sleep queue before its deadline')
                    if role == 'remote' and self.isq(ev.c, 'remote'):
                        self.check(eng, st, D6, self.locked(st), 'the remote queue is read without its lock')
                    if ev.how == 'clear':
                        self.check(eng, st, rule, False, 'queued fibers are dropped')
                    else:
                        if len(m['pend']) > 3:
                            self.check(eng, st, rule, False, 'fibers are taken out of a queue and nothing is done with them')
                            m['pend'] = m['pend'][1:]
                        self.pend(st, ev.val, role)
            if self.from_(ev.org, 'worker'):
                self.check(eng, st, D11, False, 'a worker is taken off the worker list')
        elif k == 'swapped':
            if self.isq(ev.c, 'remote') or self.isq(ev.other, 'remote'):
                self.check(eng, st, D6, self.locked(st), 'the remote queue is exchanged without its lock')
        elif k == 'peek' and self.isq(ev.c, 'remote'):
            self.check(eng, st, D6, self.locked(st), 'the remote queue is read without its lock')
        elif k == 'destroyed':
            p = ev.c
            e = self.q(st, p)
            if any(self.from_(e[3], r) for r in ('remote', 'terminated', 'sleep')):
                self.check(eng, st, D6, ev.state == 'E', 'fetched fibers are dropped with their list')
        elif k == 'put':
            if ev.c[1] == 'this':
                self.check(eng, st, D9, False, 'the dispatcher puts %s into %s' % (eng.where(ev.val), eng.where(ev.c)))
        elif k == 'hook' and ev.op == 'unlink':
            o, z = L.hooks['sleep']
            if isinstance(ev.h[2], int) and o <= ev.h[2] < o + z:
                v = ('p', ev.h[1], 0)
                if not any(self.settled(st, v, x) for x in ('remote', 'sleep')):
                    self.take(eng, st, ('p', 'this', self.roles['sleep']), v, 'unlink')
                    self.setq(st, ('p', 'this', self.roles['sleep']), 'U')
                else:
                    q = self.q(st, ('p', 'this', self.roles['sleep']))
                    self.setq(st, q[0], 'U')
        elif a == 'awakened':
            mine = st.known_eq(ev.args[0], self.my_algo(eng, st)) is True
            ok = self.settle(eng, st, D6, ev.args[1], 'remote')
            self.check(eng, st, D6, ok and mine, 'awakened(%s): not a fiber just fetched' % eng.where(ev.args[1]))
            m['fresh'] = ONE
        elif k == 'woken':
            self.wake(eng, st, ev)
        elif k == 'unref':
            self.check(eng, st, D8, self.settle(eng, st, D8, ev.val, 'terminated'), 'releases %s, which was not taken off the terminated list' % eng.where(ev.val))
        elif a == 'pick_next':
            self.round(eng, st)
            m['picked'] = ev.res
            m['fresh'] = ZERO
            m.update(rem=ZERO, term=ZERO, now=U)
        elif k == 'resume':
            d = eng.load(st, ('p', 'this', L.disp), 'dsp', True, 8, silent=True)
            self.check(eng, st, D9, m['picked'] != U and ev.ctx == m['picked'] and st.truth(mkcmp('eq', m['picked'], ZERO, 64)) is False, 'runs %s' % eng.where(ev.ctx))
            self.check(eng, st, D9, ev.kind == 'ready' and st.known_eq(ev.arg, d) is True, 'the dispatcher does not stay ready: it never runs again')
            m['picked'] = U
            m['sd'] = U
            self.flush(eng, st)
        elif k == 'precall' and ev.virt and ev.name == ALG + '::suspend_until':
            self.check(eng, st, D10, m['picked'] != U and st.truth(mkcmp('eq', m['picked'], ZERO, 64)) is True and m['fresh'] == ZERO,
                       'the thread goes idle although a fiber may be ready')
            self.flush(eng, st)
            tp = eng.load(st, ev.args[1], 'sut', False, 8, silent=True)
            s, f = self.q(st, ('p', 'this', self.roles['sleep']))[1:3]
            if s == 'E':
                self.check(eng, st, E4, tp == MAXTP, 'idles until %s although nobody sleeps' % eng.where(tp))
            else:
                dl = self.deadline(eng, st, f) if f != U else ()
                self.check(eng, st, E4, s == 'N' and any(st.known_eq(tp, d) is True or before(st, d, tp) is False for d in dl),
                           'idles until %s although a fiber sleeps until %s' % (eng.where(tp), eng.where(dl[-1]) if dl else '?'))
            m['sd'] = U
        elif k == 'now':
            m['now'] = ev.val
        elif k == 'read' and ev.base == 'this' and ev.off == L.down:
            m['sd'] = ev.val
        elif k == 'swcc':
            mc = eng.load(st, ('p', 'this', L.main), 'mc', True, 8, silent=True)
            self.check(eng, st, D11, m['swcc'] == ZERO and st.known_eq(ev.args[-1], mc) is True, 'switches to %s' % eng.where(ev.args[-1]))
            m['swcc'] = ONE
            self.ending(eng, st)

    def settled(self, st, v, role):
        return any(st.known_eq(x, v) is True and r == role for x, r in st.mon['pend'])

    def locked(self, st):
        return any(overlaps(l, 'this', *self.lay.splk) for l in st.locks)

    def wake(self, eng, st, ev):
        L = self.lay
        src = ev.src
        v = None
        for x, r in st.mon['pend']:
            if r == 'sleep':
                c = eng.load(st, ('p', x[1], L.waker + L.w['c']), 'pwc', True, 8, silent=True)
                e = eng.load(st, ('p', x[1], L.waker + L.w['e']), 'pwe', False, 8, silent=True)
                if st.known_eq(ev.ctx, c) is True and st.known_eq(ev.epoch, e) is True:
                    v = x
        self.check(eng, st, E3, v is not None, 'wakes %s, which is no expired sleeper taken out of the sleep queue' % eng.where(ev.src))
        if v is not None:
            self.settle(eng, st, E3, v, 'sleep')
        st.mon['fresh'] = ONE

    def flush(self, eng, st):
        for v, role in st.mon['pend']:
            rule = {'remote': D6, 'terminated': D8, 'sleep': D7}[role]
            self.check(eng, st, rule, False, '%s was taken out of the %s queue and is dropped' % (eng.where(v), role))
        st.mon['pend'] = ()
        for rule in (D6, D7, D8):
            self.ctx.ok(rule, self.fn.short)

    def round(self, eng, st):
        """Before the next fiber is picked."""
        m, R = st.mon, self.roles
        self.flush(eng, st)
        e = self.q(st, ('p', 'this', R['remote']))
        self.check(eng, st, D6, not self.left(st, 'remote'), 'remotely readied fibers are not fetched')
        self.check(eng, st, D8, not self.left(st, 'terminated'), 'terminated fibers are not released')
        self.sleepers(eng, st)
        # what other threads add from here on is announced by their notification
        for r in ('remote', 'terminated'):
            p = ('p', 'this', R[r])
            if r == 'remote':
                self.setq(st, p, 'U', org=(p,))

    def left(self, st, role):
        """May a queue still hold what it held at the beginning of the round?"""
        p = ('p', 'this', self.roles[role])
        for e in st.mon.get('q', ()):
            if p in e[3] and e[1] != 'E':
                return True
        return not any(p in e[3] for e in st.mon.get('q', ()))

    def sleepers(self, eng, st):
        m = st.mon
        s, f = self.q(st, ('p', 'this', self.roles['sleep']))[1:3]
        dl = self.deadline(eng, st, f) if f != U else ()
        self.check(eng, st, D7, s == 'E' or s == 'N' and m['now'] != U and any(before(st, m['now'], d) is True or before(st, d, m['now']) is False for d in dl),
                   'a fiber whose deadline has passed may stay in the sleep queue')

    def ending(self, eng, st):
        m = st.mon
        self.flush(eng, st)
        self.check(eng, st, D11, m['sd'] != U and st.truth(m['sd']) is True, 'the dispatcher ends although the scheduler is not shutting down')
        self.check(eng, st, D11, self.q(st, ('p', 'this', self.roles['worker']))[1] == 'E', 'the dispatcher ends although workers may be left')
        self.check(eng, st, D8, not self.left(st, 'terminated'), 'terminated fibers are not released before the end')

    def exit(self, eng, st, kind, val):
        self.check(eng, st, D11, kind == 'ret' and st.mon['swcc'] == ONE, 'the dispatcher ends with %s' % ('a return that does not lead to the main fiber' if kind == 'ret' else kind))


class Algo(Sched):
    """set_algo."""
    def start(self, eng, st):
        st.mon.update(pend=U, more=U, old=self.my_algo(eng, st), new=U)
        for v in eng.argvals:
            if v[0] == 'p' and v[1] != 'this':
                st.mon['new'] = eng.load(st, v, 'newa', True, 8, silent=True)

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def on_event(self, eng, st, ev):
        m, a = st.mon, self.acall(ev)
        if ev.k == 'write' and ev.base == 'this' and ev.off == self.lay.algo:
            self.check(eng, st, V2, any(overlaps(l, 'this', *self.lay.splk) for l in st.locks),
                       'the algorithm is replaced without the lock under which other threads notify it: one may be inside the old one')
        if a == 'has_ready_fibers':
            if st.known_eq(ev.args[0], m['old']) is True:
                m['more'] = ev.res
        elif a == 'pick_next':
            self.check(eng, st, D12, m['pend'] == U and st.known_eq(ev.args[0], m['old']) is True, 'picks from %s' % eng.where(ev.args[0]))
            m['pend'] = ev.res
            m['more'] = U
        elif a == 'awakened':
            self.check(eng, st, D12, m['pend'] != U and ev.args[1] == m['pend'] and st.known_eq(ev.args[0], m['new']) is True,
                       'hands %s to %s' % (eng.where(ev.args[1]), eng.where(ev.args[0])))
            m['pend'] = U

    def exit(self, eng, st, kind, val):
        m = st.mon
        drained = m['more'] != U and st.truth(m['more']) is False
        self.check(eng, st, D12, kind == 'ret' and m['pend'] == U and drained, 'ready fibers may be left with the old algorithm')
        v = self.my_algo(eng, st)
        self.check(eng, st, D12, st.known_eq(v, m['new']) is True, 'the algorithm in use is not the new one')


class Attach(Sched):
    def start(self, eng, st):
        self.op = self.fn.short.split('::')[-1]
        self.c = self.ctx_arg(eng) if 'dispatcher' not in self.op else None
        st.mon.update(put=ZERO, aw=U, off=ZERO, c=self.c if self.c else U)
        if self.c is None:
            for v in eng.argvals:
                if v[0] == 'p' and v[1] != 'this':
                    st.mon['c'] = eng.load(st, v, 'disp0', True, 8, silent=True)
            eng.assume(st, mkcmp('eq', st.mon['c'], ZERO, 64), False)

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def on_event(self, eng, st, ev):
        m, L = st.mon, self.lay
        if ev.k == 'put':
            self.check(eng, st, D13, self.op == 'attach_worker_context' and self.isq(ev.c, 'worker') and ev.val == self.c and m['put'] == ZERO, 'puts %s into %s' % (eng.where(ev.val), eng.where(ev.c)))
            m['put'] = ONE
        elif ev.k == 'hook' and ev.op == 'unlink':
            o, z = L.hooks['worker']
            self.check(eng, st, D13, self.op == 'detach_worker_context' and overlaps(ev.h, self.c[1], o, z), 'unlinks %s' % eng.where(ev.h))
            m['off'] = ONE
        elif ev.k == 'took':
            self.check(eng, st, D13, self.op == 'detach_worker_context' and self.isq(ev.c, 'worker') and ev.val == self.c, 'takes %s' % eng.where(ev.val))
            m['off'] = ONE
        elif self.acall(ev) == 'awakened':
            self.check(eng, st, D13, self.c is None and m['aw'] == U and st.known_eq(ev.args[1], m['c']) is True, 'awakened(%s)' % eng.where(ev.args[1]))
            m['aw'] = ONE

    def exit(self, eng, st, kind, val):
        m, L = st.mon, self.lay
        c = m['c']
        s = eng.load(st, ('p', c[1], L.sched), 'sch', True, 8, silent=True)
        if self.op == 'detach_worker_context':
            self.check(eng, st, D13, m['off'] == ONE and st.known_eq(s, ZERO) is True, 'a detached fiber stays registered')
            return
        self.check(eng, st, D13, kind == 'ret' and s == ('p', 'this', 0), 'the fiber\'s scheduler is %s' % eng.where(s))
        if self.op == 'attach_worker_context':
            self.check(eng, st, D13, m['put'] == ONE, 'the fiber is not in the worker list')
        elif self.op == 'attach_main_context':
            self.check(eng, st, D13, st.known_eq(eng.load(st, ('p', 'this', L.main), 'mn', True, 8, silent=True), c) is True, 'the main fiber is not recorded')
        else:
            self.check(eng, st, D13, m['aw'] == ONE, 'the dispatcher is not made ready: it never runs')
            self.check(eng, st, D13, st.known_eq(eng.load(st, ('p', 'this', L.disp), 'dn', True, 8, silent=True), c) is True, 'the dispatcher is not kept')


class Forward(Mon):
    """context's own operations hand over to its scheduler."""
    inline = tuple(NS + 'context::' + x for x in ('suspend', 'yield', 'wait_until', 'attach', 'detach', 'schedule'))
    inline_prefix = (NS + 'context::get_scheduler',)

    def __init__(self, P, lay, to):
        self.P, self.lay, self.to = P, lay, to

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def start(self, eng, st):
        st.mon.update(n=ZERO, rv=U)
        st.mon['mine'] = eng.load(st, ('p', 'this', self.lay.sched), 'mys', True, 8, silent=True)
        self.op = self.fn.short.split('::')[-1]
        self.other = next((v for v in eng.argvals if v[0] == 'p' and v[1] not in ('this', 'a:ret') and eng.symty.get(v[1]) is not None and
                           self.P.tname(eng.symty[v[1]]) == NS + 'context'), None)
        if self.other is not None:
            st.mon['theirs'] = eng.load(st, ('p', self.other[1], self.lay.sched), 'tys', True, 8, silent=True)

    def model(self, eng, st, fr, i, fn, args):
        if fn.short.startswith(S):
            op = fn.short[len(S):]
            m = st.mon
            rule = D14 if self.op == 'schedule' else D15
            want = self.to
            exp = [ACTIVE if v == ('p', 'this', 0) and self.op == 'yield' else v for v in eng.argvals if v[1] != 'a:ret']
            if self.op == 'schedule':
                local = st.known_eq(m['mine'], m['theirs'])
                ok = args[1] == self.other and m['n'] == ZERO and st.known_eq(args[0], m['theirs']) is True and \
                    (op == 'schedule' and local is True or op == 'schedule_from_remote')
                msg = '%s is called on %s for %s' % (op, eng.where(args[0]), eng.where(args[1]))
            else:
                ctx = {'attach': self.other, 'yield': ACTIVE, 'detach': ('p', 'this', 0), 'wait_until': ('p', 'this', 0)}.get(self.op)
                rest = [v for v in eng.argvals[1:] if v != self.other or self.op != 'attach']
                got = args[1:]
                if ctx is not None:
                    got = [a for a in args[1:] if a != ctx]
                    ok = len(got) == len(args) - 2 or ctx == ACTIVE and ('p', 'this', 0) in args[1:]
                    got = [a for a in got if a != ('p', 'this', 0)]
                else:
                    ok = True
                ok = ok and op == want and m['n'] == ZERO and st.known_eq(args[0], m['mine']) is True and list(got) == rest
                msg = '%s calls %s(%s)' % (self.op, op, ', '.join(eng.where(a) for a in args))
            self.check(eng, st, rule, ok, msg)
            m['n'] = ONE
            v = eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None
            m['rv'] = v if v is not None else U
            st.say('%s: %s' % (eng.loc(st), fn.short))
            return [(st, v)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def exit(self, eng, st, kind, val):
        rule = D14 if self.op == 'schedule' else D15
        self.check(eng, st, rule, kind == 'ret' and st.mon['n'] == ONE, 'the scheduler is not called')
        if self.op == 'wait_until':
            self.check(eng, st, rule, val is not None and st.known_eq(val, st.mon['rv']) is True, 'another result is reported')


def explore(ctx, which):
    P = ctx.load(UNITS)
    lay = Lay(P)
    roles = learn(ctx, P, lay)

    def go(cls, names, np=None, need=1):
        for n in names:
            for f in ctx.functions(P, 'scheduler::' + n, need=need):
                r = cls(P, lay, roles)
                r.rules = which
                ctx.explore(P, f, r)
    if which == 'V':
        go(Ready, ['schedule_from_remote'])
        go(Algo, ['set_algo'])
        return P, lay, roles
    go(Switch, ['wait_until'])
    if 'D' in which:
        go(Switch, ['yield', 'suspend'])
        go(Ready, ['schedule', 'schedule_from_remote'])
        go(Algo, ['set_algo'])
        go(Attach, ['attach_main_context', 'attach_dispatcher_context', 'attach_worker_context', 'detach_worker_context'])
        for n, to in (('suspend', 'suspend'), ('yield', 'yield'), ('wait_until', 'wait_until'), ('attach', 'attach_worker_context'), ('detach', 'detach_worker_context'), ('schedule', None)):
            for f in ctx.functions(P, 'context::' + n):
                ctx.explore(P, f, Forward(P, lay, to))
    go(Dispatch, ['dispatch'])
    ctx.sample('queues of the scheduler: %s' % {k: lay.queues.get(v, (v,))[0] for k, v in roles.items()})
    return P, lay, roles
