"""lock, try_lock, unlock and construction of every spinlock variant (and of each wrapped by transactional lock elision) are explored over all paths.
The lock word, its free value and the value sleepers announce are taken from the code itself.  Rules: lock and a true try_lock end with this thread
having atomically replaced the free value by another one with acquire ordering, and nothing written afterwards; a failed try_lock leaves a taken lock
taken and takes nothing; unlock frees the word exactly once with release ordering, writes nothing behind that, and, if the replaced value may have been a
sleeper's, wakes one afterwards; a thread sleeps only on a taken lock's announced value, leaves that value behind when it acquires later and never overwrites it in a failed attempt;
elision relies only on a word read as free inside the transaction, and ends exactly the kind of ownership it has."""
from rules.common import *
ASSUME = ['std::atomic and fences map to the LLVM orderings they name', 'the futex system call compares and sleeps atomically',
          'an aborted transaction resumes at its beginning with a status other than success', 'random number generation does not throw']
ACQ, REL = ('acquire', 'acq_rel', 'seq_cst'), ('release', 'acq_rel', 'seq_cst')
XBEGIN, XEND, XABORT = '0xc7,0xf8', '0x0f,0x01,0xd5', '0xc6,0xf8'
WAIT, WAKE = 0, 1
BASE = 'nn:arg0'
VARIANTS = ('ttas', 'ttas_adaptive', 'ttas_futex', 'ttas_adaptive_futex', 'rtm_ttas', 'rtm_ttas_adaptive', 'rtm_ttas_futex', 'rtm_ttas_adaptive_futex')
L1 = 'L1 locking replaces the free value atomically, with acquire ordering'
L2 = 'L2 a failed attempt takes nothing and frees nothing'
U1 = 'U1 unlocking frees the word once, with release ordering'
F1 = 'F1 a thread sleeps only while the lock is taken'
F4 = 'F4 a failed attempt keeps the announcement of sleepers'
F2 = 'F2 who slept leaves the announcement for other sleepers'
F3 = 'F3 unlocking wakes a sleeper whenever one may exist'
T1 = 'T1 an elided lock was read as free inside the transaction'
T2 = 'T2 unlocking ends the kind of ownership it has'
I1 = 'I1 a new lock is free'


class Scan(Mon):
    """Which atomic is the lock word, and its initial value."""
    inline_prefix = (NS + 'detail::spinlock',)
    widen_phi, widen_mem = 1, 2

    def __init__(self, P):
        self.P, self.words, self.init, self.vals = P, set(), {}, {}

    def model(self, eng, st, fr, i, fn, args):
        return quiet(self, eng, st, fr, i, fn, args)

    def on_event(self, eng, st, ev):
        if ev.base in (BASE, 'arg0') and isinstance(ev.off, int):
            if ev.k in ('rmw', 'cas') or ev.k == 'read' and ev.order not in (None, 'no', 'na', 'notatomic'):
                self.words.add(ev.off)
            if ev.k in ('write', 'rmw', 'cas') and ev.val[0] == 'c':
                self.init[ev.off] = ev.val
                self.vals.setdefault(ev.off, set()).add(ev.val)


def quiet(rules, eng, st, fr, i, fn, args):
    if fn.short.startswith(('std::random_device', 'std::uniform_int', 'std::linear_cong', 'std::this_thread', 'std::minstd')) or fn.short.startswith('__cxa_thread'):
        return [(st, eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None)]
    return None


class Lock(Mon):
    inline_prefix = (NS + 'detail::spinlock',)
    max_states = 200000
    widen_phi, widen_mem = 1, 2

    def __init__(self, P, var, op, off, free, ann):
        self.P, self.var, self.op, self.off, self.free, self.ann = P, var, op, off, free, ann
        self.elided = var.startswith('rtm_')

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == 'syscall' and len(args) >= 4 and args[0] == ('c', 202):
            self.futex(eng, st, args)
            return [(st, eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None)]
        return quiet(self, eng, st, fr, i, fn, args)

    def start(self, eng, st):
        # last write to the word by this thread: replaced value, new value, ordering
        st.mon.update(own=ZERO, old=U, new=U, ordr=ZERO, pend=ZERO, slept=ZERO, freed=ZERO, relf=ZERO, acqf=ZERO, woke=ZERO, tx=U, txr=U, ended=ZERO, first=U)
        if self.op == 'unlock' and not self.elided:
            v = eng.load(st, ('p', BASE, self.off), 'w0', False, 4, silent=True)
            eng.assume(st, mkcmp('eq', v, self.free, 32), False)

    def isfree(self, st, v):
        rest = [d for d in self.dom if st.known_eq(v, d) is not False]
        return True if rest == [self.free] else False if self.free not in rest else None

    # ------------------------------------------------------------ the word
    def settle(self, eng, st):
        """Decide what the last write of the word did, now that its outcome has been looked at."""
        m = st.mon
        if m['pend'] == ZERO:
            return
        was = self.isfree(st, m['old'])
        if was is None:
            return
        m['pend'] = ZERO
        nf = st.known_eq(m['new'], self.free)
        if was:
            self.check(eng, st, L1, m['own'] == ZERO and nf is False, 'the word is set to %s' % eng.where(m['new']))
            m['own'] = ONE
            m['acqf'] = m['ordr']
            if m['slept'] != ZERO and self.ann is not None:
                self.check(eng, st, F2, any(st.known_eq(m['new'], a) is True for a in self.ann),
                           'a thread that slept acquires with %s: threads still sleeping are never woken' % eng.where(m['new']))
        else:
            self.check(eng, st, L2, nf is False, 'a lock held by somebody else is set to %s' % eng.where(m['new']))
            if self.ann and nf is False:
                self.check(eng, st, F4, all(st.known_eq(m['new'], a) is True or st.known_eq(m['old'], a) is False for a in self.ann),
                           'the value announced by sleepers may be overwritten with %s' % eng.where(m['new']))

    def wrote(self, eng, st, old, new, order, plain):
        m = st.mon
        if self.op in ('lock', 'try_lock'):
            self.settle(eng, st)
            if plain:
                self.check(eng, st, L1, False, 'the lock word is stored to without looking at it')
                return
            if m['pend'] != ZERO:
                self.check(eng, st, L1, False, 'the word is written again although the lock may already be held')
            if m['own'] == ONE:
                self.check(eng, st, L1, False, 'the word is written after the lock was acquired')
            m.update(old=old, new=new, pend=ONE, ordr=ONE if order in ACQ else ZERO)
            return
        # unlock
        self.check(eng, st, U1, m['freed'] == ZERO, 'the word is written after the lock was freed: the next owner\'s lock is damaged')
        if m['first'] == U:
            m['first'] = old
        m['pend'] = ONE
        m.update(old=old, new=new, ordr=ONE if order in REL or m['relf'] == ONE else ZERO)
        if st.known_eq(new, self.free) is True:
            self.freeing(eng, st)

    def freeing(self, eng, st):
        m = st.mon
        m['pend'] = ZERO
        m['freed'] = ONE
        self.check(eng, st, U1, m['ordr'] == ONE, 'the lock is freed without release ordering: writes of the critical section are not published')

    def unfreed(self, eng, st):
        """An unlock's arithmetic write, once the branch on it is taken."""
        m = st.mon
        if self.op != 'unlock' or m['pend'] == ZERO:
            return
        e = st.known_eq(m['new'], self.free)
        if e is True:
            self.freeing(eng, st)
        elif e is False:
            m['pend'] = ZERO

    def on_event(self, eng, st, ev):
        m, k = st.mon, ev.k
        if k == 'fence':
            if ev.order in REL:
                m['relf'] = ONE
            if ev.order in ACQ:
                m['acqf'] = ONE
                m['ordr'] = ONE if self.op != 'unlock' else m['ordr']
            return
        if k == 'asm':
            self.asm(eng, st, ev)
            return
        if ev.base == BASE and ev.off == self.off:
            self.unfreed(eng, st)
            if k == 'rmw':
                self.wrote(eng, st, ev.old, ev.val, ev.order, False)
            elif k == 'cas' and ev.ok:
                self.wrote(eng, st, ev.exp, ev.val, ev.order, False)
            elif k == 'write':
                self.wrote(eng, st, U, ev.val, ev.order, True)
            elif k == 'read' and m['tx'] != U:
                m['txr'] = ev.val

    # ------------------------------------------------------------ futex
    def futex(self, eng, st, args):
        m = st.mon
        op = args[2][1] & 127 if args[2][0] == 'c' else None
        here = args[1] == ('p', BASE, self.off)
        if op == WAIT:
            self.settle(eng, st)
            self.check(eng, st, F1, here and m['own'] == ZERO and m['pend'] == ZERO and
                       args[3][0] == 'c' and args[3] != self.free, 'sleeps on %s%s' % (eng.where(args[3]), ' although it may hold the lock' if m['own'] != ZERO or m['pend'] != ZERO else ''))
            if args[3][0] == 'c':
                self.found.add(args[3])
            m['slept'] = ONE
        elif op == WAKE:
            self.unfreed(eng, st)
            self.check(eng, st, F3, here and m['freed'] == ONE and args[3] != ZERO, 'sleepers are woken %s' % (
                'before the lock is free' if m['freed'] != ONE else 'elsewhere'))
            m['woke'] = ONE
        else:
            self.check(eng, st, F3, False, 'unknown futex operation')

    # ------------------------------------------------------------ transactions
    def asm(self, eng, st, ev):
        m = st.mon
        t = ev.text.replace(' ', '')
        if XBEGIN in t:
            self.check(eng, st, T1, not self.intx(st) and m['own'] == ZERO, 'begins a transaction inside another ownership')
            m.update(tx=ev.res, txr=U)
        elif XEND in t:
            self.check(eng, st, T2, self.op == 'unlock' and m['ended'] == ZERO and m['freed'] == ZERO, 'ends a transaction it has not')
            m['ended'] = ONE

    def intx(self, st):
        return st.mon['tx'] != U and st.known_eq(st.mon['tx'], ('c', 0xffffffff)) is True

    def asm_ends(self, eng, st, text):
        return XABORT in text.replace(' ', '') and self.intx(st)

    # ------------------------------------------------------------ results
    def exit(self, eng, st, kind, val):
        self.check(eng, st, L1 if self.op != 'unlock' else U1, kind == 'ret', 'ends with ' + kind)
        if kind != 'ret':
            return
        if self.op == 'unlock':
            return self.exit_unlock(eng, st)
        if self.op == 'lock':
            return self.got(eng, st)
        t = ret_bool(st, val)
        for want in (True, False):
            if t is not None and t != want:
                continue
            s = st
            if t is None:
                s = st.copy()
                if not eng.assume(s, val, want):
                    continue
            self.got(eng, s) if want else self.notgot(eng, s)

    def got(self, eng, st):
        m = st.mon
        self.settle(eng, st)
        if self.elided and self.intx(st):
            self.check(eng, st, T1, m['own'] == ZERO and m['pend'] == ZERO and m['txr'] != U and self.isfree(st, m['txr']) is True,
                       'runs in a transaction without having read the word as free in it')
            return
        self.check(eng, st, L1, m['own'] == ONE and m['pend'] == ZERO, 'returns without having acquired the lock')
        if m['own'] == ONE:
            self.check(eng, st, L1, m['acqf'] == ONE, 'the lock is acquired without acquire ordering: the previous owner\'s writes need not be visible')

    def notgot(self, eng, st):
        m = st.mon
        self.settle(eng, st)
        self.check(eng, st, L2, m['own'] == ZERO and m['pend'] == ZERO and not (self.elided and self.intx(st)), 'reports failure although it may have acquired the lock')

    def exit_unlock(self, eng, st):
        m = st.mon
        self.unfreed(eng, st)
        if self.elided:
            v = eng.load(st, ('p', BASE, self.off), 'wx', False, 4, silent=True)
            if m['ended'] == ONE:
                self.check(eng, st, T2, m['freed'] == ZERO and m['pend'] == ZERO and m['first'] == U, 'ends a transaction and frees the lock')
                self.check(eng, st, T2, self.sawfree(eng, st) is True, 'ends a transaction although the lock may really be held')
                return
            self.check(eng, st, T2, self.sawfree(eng, st) is False, 'frees the lock although it may run in a transaction')
        self.check(eng, st, U1, m['freed'] == ONE and m['pend'] == ZERO, 'returns with the lock still taken')
        if self.ann and m['woke'] == ZERO:
            self.check(eng, st, F3, all(m['first'] != U and st.known_eq(m['first'], a) is False for a in self.ann),
                       'a thread sleeping on the lock is not woken (replaced value %s)' % (eng.where(m['first']) if m['first'] != U else 'not looked at'))

    def sawfree(self, eng, st):
        """Did unlock see the word free on entry?"""
        return self.isfree(st, st.mon['w0']) if 'w0' in st.mon else None


class Elided(Lock):
    def model(self, eng, st, fr, i, fn, args):
        # the wrapped lock is decided on its own
        m, c, _, op = (st.mon,) + fn.short.rpartition('::')
        if c.startswith(NS + 'detail::spinlock_') and not c.endswith('_rtm') and op in ('lock', 'unlock') and args[0][1] == BASE:
            if op == 'lock':
                self.check(eng, st, T1, not self.intx(st) and m['own'] == ZERO, 'takes the real lock inside a transaction')
                m['own'] = m['acqf'] = ONE
            else:
                self.check(eng, st, U1, m['freed'] == ZERO, 'the lock is freed twice')
                m['freed'] = m['woke'] = ONE
            return [(st, None)]
        return Lock.model(self, eng, st, fr, i, fn, args)

    def on_event(self, eng, st, ev):
        if self.op == 'unlock' and ev.k == 'read' and ev.base == BASE and ev.off == self.off and 'w0' not in st.mon:
            st.mon['w0'] = ev.val
        Lock.on_event(self, eng, st, ev)

    def freeing(self, eng, st):
        Lock.freeing(self, eng, st)


def run(ctx):
    loads = [()] if ctx.tier == 'quick' else [(), ('-DBOOST_FIBERS_SPIN_SINGLE_CORE',)]
    for defs in loads:
        P = ctx.load(['tu/spin.cpp'], defs=defs)
        one(ctx, P)
    for r, n in ((L1, 16), (L2, 8), (U1, 8), (F1, 2), (F3, 2), (T1, 8), (T2, 4), (I1, 8)):
        ctx.require(r, n)


def one(ctx, P):
    anns, doms = {}, {}
    for var in VARIANTS:
        fn = {op: ctx.functions(P, 'use::spin::%s__%s' % (var, op), full=True)[0] for op in ('lock', 'try_lock', 'unlock', 'init')}
        s = Scan(P)
        ctx.explore(P, fn['try_lock'], s)
        if len(s.words) != 1:
            raise Broken('anchor vanished: lock word of %s (%s)' % (var, sorted(s.words)))
        off, = s.words
        s2 = Scan(P)
        ctx.explore(P, fn['init'], s2)
        free = s2.init.get(off)
        ctx.ok(I1, fn['init'].short)
        if free is None or free[0] != 'c':
            ctx.violation(I1, fn['init'].short, 'the lock word is not initialised to a constant')
            continue
        base = var[4:] if var.startswith('rtm_') else var
        if base == var:
            s3 = Scan(P)
            for op in ('lock', 'try_lock', 'unlock'):
                ctx.explore(P, fn[op], s3)
            doms[base] = {free} | s3.vals.get(off, set())
        dom = doms[base]
        cls = Elided if var.startswith('rtm_') else Lock
        found = set()
        for op in ('lock', 'try_lock', 'unlock'):
            ann = anns.get(base)
            if op == 'lock' and ann is None:
                ann = None
            r = cls(P, var, op, off, free, ann)
            r.found, r.dom = found, dom
            ctx.explore(P, fn[op], r)
            if op == 'lock':
                anns.setdefault(base, set()).update(found)
                if found:
                    # now that the announced values are known, the acquisitions after sleeping
                    r = cls(P, var, op, off, free, anns[base])
                    r.found, r.dom = set(), dom
                    ctx.explore(P, fn[op], r)
        if 'futex' in base and not anns[base]:
            raise Broken('anchor vanished: %s never sleeps' % var)
        ctx.sample('%s: word at +%d, free %s, announced %s' % (var, off, free[1], sorted(a[1] for a in anns[base])))
