"""The life of a fiber, followed from its launch (tu/spawn.cpp: one wrapper per form of launching)
through Boost.Context's own entry and exit code: the launcher's side up to its return, and the
fiber's side from its first instruction through the callable and termination to the release of its
stack by whoever reclaims it.  User objects (callable, argument, stack allocator) are opaque; where
their values came from is tracked through every copy and move."""
import re
import models
from rules.common import *
import rules.geometry as geometry

UNITS = ['tu/spawn.cpp', 'src/fiber.cpp', 'src/context.cpp', 'src/scheduler.cpp']
STK = ('p', 'h:stack', 0)
G = 'L12 the control block and the stack below it lie inside the allocated stack'
CTOR = re.compile(r'^(?:use::)?(?:Fn|Fn0|Val|Stk)::(?:Fn|Fn0|Val|Stk)$')
DTOR = re.compile(r'^(?:use::)?(?:Fn|Fn0|Val|Stk)::~')
CALL = re.compile(r'^use::Fn0?::operator\(\)$')


class Lay:
    def __init__(self, P):
        self.t = record(P, NS + 'context')
        self.size = P.types[self.t]['sz']
        ms = top_members(P, self.t)

        def one(pred, what):
            r = [m for m in ms if pred(m[2].replace('const ', ''))]
            if len(r) != 1:
                raise Broken('anchor vanished: context has %d members "%s"' % (len(r), what))
            return r[0][0], P.types[r[0][3]].get('sz') or 8
        self.flag = one(lambda n: n == 'bool', 'bool')[0]
        self.lock = one(lambda n: n.startswith(NS + 'detail::spinlock'), 'spinlock')
        self.wq = one(lambda n: n == NS + 'wait_queue', 'wait_queue')
        self.sched = one(lambda n: n == NS + 'scheduler*', 'scheduler*')[0]
        self.fss = one(lambda n: 'fss_data_t' in n or n.startswith('std::map'), 'fiber-specific data')
        self.c = one(lambda n: n == 'boost::context::fiber', 'suspended stack')[0]
        self.policy = one(lambda n: n == NS + 'launch', 'launch policy')[0]
        self.worker = one(lambda n: n.endswith('worker_hook') or 'worker_tag' in n, 'worker hook')
        self.term = one(lambda n: n.endswith('terminated_hook') or 'terminated_tag' in n, 'terminated hook')


class Life(Mon):
    inline_prefix = ('boost::context::',)
    inline = (NS + 'context::suspend_with_cc', NS + 'context::schedule')
    watch = {NS + 'scheduler::schedule': 'sched', NS + 'scheduler::schedule_from_remote': 'sched',
             NS + 'scheduler::attach_worker_context': 'attach', NS + 'context::resume': 'resume'}
    prefixes = 'LT'
    max_states = 40000

    def __init__(self, P, lay, consts, prefixes):
        self.P, self.lay, self.consts, self.prefixes = P, lay, consts, prefixes
        self.g = active_context(P)

    def check(self, eng, st, rule, cond, msg, site=None, where=None):
        if rule[0] not in self.prefixes:
            return cond
        return Mon.check(self, eng, st, rule, cond, msg, site, where)

    def start(self, eng, st):
        self.op = self.fn.short.split('::')[-1]
        self.private = ('a:ret',)
        prov = ()
        self.user = {}
        for v in eng.argvals:
            if v[0] == 'p' and v[1] != 'a:ret':
                t = eng.symty.get(v[1])
                n = self.P.tname(t).replace('const ', '') if t is not None else ''
                if n in ('use::Fn', 'use::Fn0', 'Val', 'use::Stk'):
                    prov += ((v, ('c', n)),)
                    self.user[n] = v
        self.kval = eng.argvals[-1] if self.op == 'policy_stack' else None
        self.pol = next((v for v in eng.argvals if v[0] == 's' and 'launch' in (self.P.tname(eng.symty[v[1]]) if eng.symty.get(v[1]) is not None else '')), None)
        st.names.add('nn:active')
        eng.roots.add('nn:active')
        eng.symty['nn:active'] = self.lay.t
        eng.symdesc['nn:active'] = 'active()'
        eng.symdesc['h:stack'] = 'the new stack'
        st.mon.update(prov=prov, side='launcher', ctx=U, alloc=ZERO, dealloc=ZERO, attach=ZERO, sched=ZERO, resume=ZERO, ran=ZERO, threw=ZERO,
                      flag=ZERO, pol=self.consts['post'] if self.pol is None else self.pol, kval=self.kval if self.kval is not None else U, flagcs=ZERO, notified=ZERO, unlinked=ZERO, linked=ZERO, left=ZERO, next=U, up=ZERO)
        self.default_stack = not any(n == 'use::Stk' for n in self.user)

    # ---------------------------------------------------------------- provenance
    def origin(self, st, p):
        for q, o in st.mon['prov']:
            if q == p:
                return o
        return None

    def setprov(self, st, p, o):
        st.mon['prov'] = tuple((q, x) for q, x in st.mon['prov'] if q != p) + (((p, o),) if o is not None else ())

    def ctxp(self, st):
        return st.mon['ctx']

    def rely(self, eng, st, base, off, val):
        return 'keep'

    # ---------------------------------------------------------------- models
    def model(self, eng, st, fr, i, fn, args):
        m, s = st.mon, fn.short
        if s == NS + 'context::active':
            return [(st, m['ctx'] if m['side'] == 'fiber' else ACTIVE)]
        if m['side'] == 'launcher':
            geometry.control_block(self, eng, st, G, fn, args)
            geometry.below(self, eng, st, G, fn, args, m['ctx'] if m['ctx'] != U else None)
        if CTOR.match(s) and fn.np == 1:
            o = self.origin(st, args[1])
            s2 = None
            if not fn.nu and not m['side'] == 'fiber':
                s2 = st.copy()
                s2.say('%s: %s throws' % (eng.loc(s2), fn.short))
            self.setprov(st, args[0], o)
            if '&&' in fn.dem:
                self.setprov(st, args[1], ('c', 'moved'))
            st.say('%s: %s %s' % (eng.loc(st), 'moves' if '&&' in fn.dem else 'copies', fn.short.split('::')[-1]))
            return ([(s2, ('throw', '_ZTISt9exception'))] if s2 is not None else []) + [(st, None)]
        if DTOR.match(s):
            self.setprov(st, args[0], None)
            return [(st, None)]
        if s.split('::')[-1] == 'allocate' and ('Stk' in s or '_stack' in s):
            s2 = st.copy()
            s2.say('%s: allocate throws' % eng.loc(s2))
            v = self.allocate(eng, st, fr, i, fn, args)
            return [(s2, ('throw', '_ZTISt9bad_alloc')), (st, v)]
        if s.split('::')[-1] == 'deallocate' and ('Stk' in s or '_stack' in s):
            p = args[1]
            sz = eng.load(st, p, 'dsz', False, 8, silent=True)
            sp = eng.load(st, ('p', p[1], addoff(p[2], 8)), 'dsp', True, 8, silent=True)
            self.check(eng, st, 'L7 the stack goes back to its allocator, once', m['dealloc'] == ZERO and m['alloc'] == ONE and
                       st.known_eq(sz, ('s', 'stksz')) is True and st.known_eq(sp, STK) is True and
                       (self.default_stack or self.origin(st, args[0]) == ('c', 'use::Stk')),
                       'deallocate(%s bytes at %s) %s' % (eng.where(sz), eng.where(sp), 'again' if m['dealloc'] != ZERO else ''))
            m['dealloc'] = ONE
            return [(st, None)]
        if s == 'make_fcontext':
            m['entry'] = args[2]
            return [(st, ('p', 'nn:made', 0))]
        if s == 'jump_fcontext':
            return self.jump(eng, st, fr, i, args)
        if s == 'ontop_fcontext' and m['side'] == 'fiber':
            return self.ontop(eng, st, fr, i, args)
        if CALL.match(s):
            return self.callable(eng, st, fr, i, fn, args)
        return Mon.model(self, eng, st, fr, i, fn, args)

    def allocate(self, eng, st, fr, i, fn, args):
        d = args[0]
        m = st.mon
        who = args[1] if fn.sret else args[0]
        self.check(eng, st, 'L1 one stack is obtained from the given allocator', m['alloc'] == ZERO and
                   (self.default_stack or self.origin(st, who) == ('c', 'use::Stk')), 'allocate is called %s' % ('again' if m['alloc'] != ZERO else 'on another allocator'))
        m['alloc'] = ONE
        st.say('%s: allocates the stack' % eng.loc(st))
        return geometry.allocated(eng, st, fr, i, fn, args)

    def jump(self, eng, st, fr, i, args):
        m = st.mon
        if m['side'] == 'launcher' and args[0] == ('p', 'nn:made', 0):
            e = m.get('entry')
            fn = self.P.fns.get(e[1]) if e is not None and e[0] == 'f' else None
            if fn is None or not fn.defined:
                raise Broken('anchor vanished: entry function of a fiber\'s stack')
            b = st.copy()
            b.mon['side'] = 'fiber'
            b.say('%s: --- on the new fiber\'s stack' % eng.loc(b))
            st.say('%s: the new stack is prepared' % eng.loc(st))
            return [(b, ('inline', fn, [('p', 'nn:creator', 0), args[1]], None)), (st, ('agg', ('p', 'nn:fstack', 0), ZERO))]
        if m['side'] == 'fiber' and args[0] == ('p', 'nn:creator', 0):
            if m['ctx'] == U:
                self.check(eng, st, G, False, 'the control block is not built on the stack')
                return [(st, ('stop',))]
            # suspended until somebody resumes the fiber for the first time
            c = m['ctx']
            for k in [k for k in st.mem if k[0] == c[1] and isinstance(k[1], int) and k[1] < self.lay.size]:
                del st.mem[k]
            z = st.mem.pop((c[1], 'zero'), None)
            st.mem[(self.g, 0)] = c
            st.mem[(c[1], self.lay.c)] = ZERO
            m['up'] = ONE
            # resumption closures return an empty fiber (P06/S11)
            return [(st, ('agg', ZERO, ZERO))]
        if m['side'] == 'fiber':
            self.check(eng, st, 'T5 a terminated fiber leaves by one switch to the next ready fiber', False, 'the fiber jumps to %s' % eng.where(args[0]))
            return [(st, ('stop',))]
        return None

    def ontop(self, eng, st, fr, i, args):
        m = st.mon
        if m['left'] == ZERO:
            self.leave(eng, st, args[0])
            m['left'] = ('c', 2)

            def done(eng, s, v):
                s.mon['left'] = ONE
                eng.havoc(s, 'switch')
                s.say('%s: --- resumed by whoever reclaims the fiber' % eng.loc(s))
                return eng.call_done_list(s, i, ('agg', ('p', 'nn:reclaimer', 0), ZERO))
            f = args[2]
            me = ('p', 'nn:selfctx', 0)
            if f[0] == 'f' and self.P.fns[f[1]].defined:
                return [(st, ('inline', self.P.fns[f[1]], [me, args[1]], done))]
            raise Broken('anchor vanished: closure of a stack switch')
        # the stack is being released: the closure runs on the reclaimer's stack
        self.check(eng, st, 'T6 a reclaimed fiber returns to whoever reclaims it', args[0] == ('p', 'nn:reclaimer', 0),
                   'the reclaimed fiber continues with %s' % eng.where(args[0]))

        def fin(eng, s, v):
            self.finished(eng, s)
            return []
        f = args[2]
        if f[0] == 'f' and self.P.fns[f[1]].defined:
            return [(st, ('inline', self.P.fns[f[1]], [('p', 'nn:selfctx', 0), args[1]], fin))]
        raise Broken('anchor vanished: exit function of a stack')

    def leave(self, eng, st, target):
        m, c = st.mon, st.mon['ctx']
        nx = m['next']
        self.check(eng, st, 'T5 a terminated fiber leaves by one switch to the next ready fiber',
                   nx != U and target == m.get('target') and m.get('targetof') == nx, 'the terminating fiber switches to %s' % eng.where(target))
        self.check(eng, st, 'T1 a terminating fiber sets its terminated flag under its lock', m['flag'] == ONE and m['flagcs'] == ONE,
                   'the terminated flag is %s' % ('not set' if m['flag'] != ONE else 'set without the lock that joiners test it under'))
        self.check(eng, st, 'T2 a terminating fiber wakes every joiner', m['notified'] == ONE,
                   'fibers waiting in join are not all notified after the flag can no longer be missed')
        self.check(eng, st, 'T3 a terminating fiber leaves the worker list and enters the terminated list, once', m['linked'] == ONE and m['unlinked'] == ONE,
                   'linked into the terminated queue %s, unlinked from the workers %s times' % (m['linked'][1], m['unlinked'][1]))
        self.check(eng, st, 'T4 nothing is locked when a terminated fiber leaves', not st.locks, 'still holds %s' % [eng.where(l) for l in st.locks])
        self.check(eng, st, 'L5 the callable runs exactly once, with the given arguments', m['ran'] == ONE and m['threw'] == ZERO,
                   'the fiber ends %s' % ('without having run its callable' if m['ran'] == ZERO else 'although its callable threw or ran again'))

    def callable(self, eng, st, fr, i, fn, args):
        m = st.mon
        n = 'use::Fn0' if 'Fn0' in fn.short else 'use::Fn'
        o = self.origin(st, args[0])
        ok = o == ('c', n) and m['side'] == 'fiber' and m['ran'] == ZERO
        why = 'it runs %s' % ('on the launcher\'s stack' if m['side'] != 'fiber' else 'again' if m['ran'] != ZERO else 'as another object')
        if n == 'use::Fn' and len(args) > 2:
            if self.origin(st, args[1]) != ('c', 'Val') or st.known_eq(args[2], m['kval']) is not True:
                ok, why = False, 'its arguments are not the given ones'
        self.check(eng, st, 'L5 the callable runs exactly once, with the given arguments', ok, why)
        m['ran'] = ONE if m['ran'] == ZERO else ('c', 2)
        # everything else may happen meanwhile, migration to another thread included
        c = m['ctx']
        for k in [k for k in st.mem if k[0] == c[1] and isinstance(k[1], int) and k[1] < self.lay.size and k[1] != self.lay.c]:
            del st.mem[k]
        s2 = st.copy()
        s2.say('%s: the callable throws' % eng.loc(s2))
        s2.mon['threw'] = ONE
        st.say('%s: the callable runs' % eng.loc(st))
        v = eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None
        return [(s2, ('throw', '_ZTISt9exception')), (st, v)]

    # ---------------------------------------------------------------- events
    def on_event(self, eng, st, ev):
        m, L, k = st.mon, self.lay, ev.k
        c = m['ctx']
        if m['side'] == 'launcher':
            self.launcher(eng, st, ev)
            return
        if c == U:
            return
        if m['left'] == ONE and ev.base == c[1] and isinstance(ev.off, int) and k in ('read', 'write', 'rmw', 'cas'):
            self.check(eng, st, 'T7 a terminated fiber never touches itself again', False, '%s of %s after the fiber has left' % (k, eng.where(('p', ev.base, ev.off))))
        if k == 'write' and ev.base == c[1] and ev.off == L.flag:
            held = any(overlaps(l, c[1], *L.lock) for l in st.locks)
            m['flag'] = ONE if ev.val == ONE else ZERO
            m['flagcs'] = ONE if held else ZERO
            self.dead_values(eng, st)
        elif k in ('notify', 'wq_none') and ev.wq[1] == c[1] and ev.wq[2] == L.wq[0]:
            held = any(overlaps(l, c[1], *L.lock) for l in st.locks)
            self.check(eng, st, 'T2 a terminating fiber wakes every joiner', held, 'the joiners\' queue is accessed without its lock')
            if ev.which != 'notify_one':
                m['notified'] = ONE
                m['ncs'] = ONE if m['flag'] == ONE else ('c', 2)      # 2: valid only if the flag follows in the same critical section
            self.dead_values(eng, st)
        elif k == 'release' and overlaps(ev.lock, c[1], *L.lock):
            if m.get('ncs') == ('c', 2):
                if m['flag'] != ONE:
                    m['notified'] = ZERO
                m['ncs'] = ONE
        elif k == 'hook' and ev.op == 'unlink' and ev.h[1] == c[1] and L.worker[0] <= ev.h[2] < L.worker[0] + L.worker[1]:
            m['unlinked'] = ('c', m['unlinked'][1] + 1)
        elif k == 'cont' and ev.op in ('push_back', 'push_front', 'insert'):
            v = ev.val
            if v is not None and v[0] == 'p' and v[1] == c[1]:
                t = self.P.tname(ev.ty) if ev.ty is not None else ''
                own = eng.load(st, ('p', c[1], L.sched), 'own', True, 8, silent=True)
                self.check(eng, st, 'T3 a terminating fiber leaves the worker list and enters the terminated list, once',
                           ev.path is not None and 'terminated' in self.queue_kind(eng, ev) and st.known_eq(('p', ev.c[1], 0), own) is True,
                           'a terminating fiber is put into %s' % eng.where(ev.c))
                m['linked'] = ('c', m['linked'][1] + 1)
        elif k in ('sched', 'attach') and ev.args[1] == c:
            self.check(eng, st, 'T8 a terminating fiber is never made ready again', False, 'the terminating fiber is queued by %s' % ev.short)
        elif k == 'resume':
            self.check(eng, st, 'T8 a terminating fiber is never made ready again', not any(a == c for a in ev.args[1:]), 'the terminating fiber is requeued')
            self.leave(eng, st, U)
        elif k == 'call' and ev.virt is not None and ev.virt.startswith('pick_next'):
            own = eng.load(st, ('p', c[1], L.sched), 'own', True, 8, silent=True)
            m['next'] = ev.res
        elif k == 'call' and ev.virt is not None and ev.virt.startswith('awakened') and any(a == c for a in ev.args):
            self.check(eng, st, 'T8 a terminating fiber is never made ready again', False, 'the terminating fiber is handed to the algorithm')
        elif k == 'read' and ev.off == L.c and m['next'] != U and ev.base == m['next'][1] and m['left'] == ZERO:
            m['target'], m['targetof'] = ev.val, m['next']

    def queue_kind(self, eng, ev):
        t, path, leaf = eng.field_of(ev.c[1], ev.c[2])
        for o, n, tn, et in top_members(self.P, t) if t is not None else ():
            if o <= ev.c[2] < o + (self.P.types[et].get('sz') or 8):
                return self.full_type(et)
        return ''

    def full_type(self, t):
        P, out, seen = self.P, '', set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen or x is None:
                continue
            seen.add(x)
            out += ' ' + P.tname(x)
            for o, n, et in P.types.get(x, {}).get('els', ()):
                if n == '':
                    todo.append(et)
        return out

    def dead_values(self, eng, st):
        live = [eng.where(p) for p, o in st.mon['prov'] if o in (('c', 'use::Fn'), ('c', 'use::Fn0'), ('c', 'Val')) and
                not any(p == u for u in self.user.values())]
        self.check(eng, st, 'T9 callable and arguments are gone before the fiber is reported terminated', not live, 'still alive: %s' % ', '.join(live))

    def launcher(self, eng, st, ev):
        m, L, k = st.mon, self.lay, ev.k
        if k == 'write' and ev.off == L.policy and ev.ty is not None and self.is_ctx(ev.ty):
            m['policy'] = ev.val
        if k == 'rmw' and ev.base.startswith('h:al') and m['ctx'] == U and ev.rmw == 'add':
            pass
        if k in ('write',) and m['ctx'] == U and ev.ty is not None and self.is_ctx(ev.ty) and ev.base.startswith('h:al:h:stack'):
            m['ctx'] = ('p', ev.base, 0)
            self.ctx.sample('control block at %s' % ev.base)
        c = m['ctx']
        if k == 'attach':
            own = eng.load(st, ('p', 'nn:active', L.sched), 'as', True, 8, silent=True)
            self.check(eng, st, 'L2 a new fiber is attached to the launcher\'s scheduler before it can run', ev.args[1] == c and c != U and m['attach'] == ZERO and
                       m['sched'] == ZERO and m['resume'] == ZERO and st.known_eq(ev.args[0], own) is True, 'attached again, too late, or to another scheduler')
            m['attach'] = ONE
            if c != U:
                st.mem[(c[1], L.sched)] = own       # what attaching does (P23)
        elif k == 'sched':
            own = eng.load(st, ('p', 'nn:active', L.sched), 'as', True, 8, silent=True)
            self.check(eng, st, 'L3 a posted fiber is queued once and its launcher goes on', ev.args[1] == c and m['sched'] == ZERO and m['attach'] == ONE and
                       m['resume'] == ZERO and ev.short.endswith('::schedule') and st.known_eq(ev.args[0], own) is True, 'queues %s' % eng.where(ev.args[1]))
            m['sched'] = ONE
        elif k == 'resume':
            self.check(eng, st, 'L4 a dispatched fiber runs at once and its launcher stays ready', ev.args[0] == c and len(ev.args) == 2 and
                       ev.args[1] == ACTIVE and m['attach'] == ONE and m['sched'] == ZERO and m['resume'] == ZERO,
                       'resumes %s, requeueing %s' % (eng.where(ev.args[0]), eng.where(ev.args[1]) if len(ev.args) > 1 else 'nobody'))
            m['resume'] = ONE

    def is_ctx(self, t):
        n = self.P.tname(t).replace('const ', '')
        return n == NS + 'context' or n.startswith(NS + 'worker_context')

    def finished(self, eng, st):
        m = st.mon
        self.check(eng, st, 'L7 the stack goes back to its allocator, once', m['dealloc'] == ONE, 'a reclaimed fiber does not return its stack')

    def exit(self, eng, st, kind, val):
        m = st.mon
        if m['side'] == 'fiber':
            if m['left'] == ONE:
                self.check(eng, st, 'L7 the stack goes back to its allocator, once', False, 'the reclaimed fiber ends with %s' % kind)
            elif kind in ('terminate', 'throw') and m['threw'] == ONE:
                self.check(eng, st, 'L6 an exception leaving the callable ends the program', kind == 'terminate' and m['flag'] == ZERO, 'an exception of the callable is swallowed')
            elif kind == 'terminate' and m['left'] == ZERO and m['ran'] == ZERO:
                pass
            else:
                self.check(eng, st, 'T5 a terminated fiber leaves by one switch to the next ready fiber', False, 'the fiber ends with %s without having left' % kind)
            return
        if kind == 'throw':
            self.check(eng, st, 'L8 a failed launch returns the stack and leaves nothing behind', m['alloc'] == m['dealloc'] and m['attach'] == m['sched'] == m['resume'] == ZERO,
                       'the launch fails and %s' % ('the stack is not returned to its allocator' if m['alloc'] != m['dealloc'] else 'the fiber was already queued'))
            return
        if kind != 'ret':
            return
        pol = m['pol']
        got = m.get('policy')
        self.check(eng, st, 'L9 the requested launch policy is the one used', got is not None and st.known_eq(got, pol) is True, 'the fiber is created with policy %s' % eng.where(got))
        post = st.known_eq(pol, self.consts['post'])
        disp = st.known_eq(pol, self.consts['dispatch'])
        # there are two policies
        if post is None and disp is False:
            post = True
        elif disp is None and post is False:
            disp = True
        if post is True:
            self.check(eng, st, 'L3 a posted fiber is queued once and its launcher goes on', m['sched'] == ONE and m['resume'] == ZERO, 'a posted fiber is not queued')
        elif disp is True:
            self.check(eng, st, 'L4 a dispatched fiber runs at once and its launcher stays ready', m['resume'] == ONE and m['sched'] == ZERO, 'a dispatched fiber is not resumed')
        elif post is not False or disp is not False:
            self.check(eng, st, 'L9 the requested launch policy is the one used', False, 'post and dispatch are not distinguished')
        h = eng.load(st, ('p', 'a:ret', 0), 'hret', True, 8, silent=True)
        self.check(eng, st, 'L10 the handle refers to the launched fiber', h == m['ctx'], 'the handle holds %s' % eng.where(h))


def explore(ctx, prefixes):
    P = ctx.load(UNITS)
    consts = {k: constant(P, n) for k, n in (('post', 'e_post'), ('dispatch', 'e_dispatch'))}
    lay = Lay(P)
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        if f.defined and f.short.startswith('use::spawn::'):
            ctx.explore(P, f, Life(P, lay, consts, prefixes))
    return P, lay
