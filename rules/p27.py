"""Every operation of fiber_specific_ptr is explored over all paths with the fiber's map abstracted to the element of this pointer (absent, or present with some
value and cleanup function): what is returned, what is stored afterwards and under which key and cleanup function, and how often which cleanup function is called
with what.  Small client programs (tu/fss.cpp) follow given values into the cleanup functions themselves.  The end of a fiber is followed from its callable to its
stack's release with the map abstracted to any number of elements: each is cleaned up exactly once, unlocked, before the fiber is marked terminated, values stored
by cleanup functions included."""
from rules.life import *
ASSUME = ['std::map behaves as specified for integral keys', 'cleanup functions do not throw (documented precondition)',
          'a fiber_specific_ptr outlives the fibers that use it (documented precondition)']
E27 = ['tu/fss.cpp', 'src/context.cpp', 'src/scheduler.cpp']
ENT = 'nn:entry'
END = ZERO     # no element: the elements themselves are not null
OWN = ('p', 'nn:own', 0)


def sx(v):
    return v - 2 ** 64 if v >= 2 ** 63 else v


class Map:
    """The map of a context, seen through the operations of std::map."""
    def map_setup(self, eng, P):
        lay = self.lay
        ts = [i for i, ty in P.types.items() if ty.get('els') and P.tname(i).endswith('context::fss_data')]
        if not ts:
            raise Broken('anchor vanished: the record of a fiber specific value')
        self.fd = ts[0]
        ms = leaf_members(P, self.fd)
        vp = [m for m in ms if m[2] in ('void*', '?*')]
        px = [m for m in ms if 'fss_cleanup_function' in m[2]]
        if len(vp) != 1 or len(px) != 1:
            raise Broken('anchor vanished: value and cleanup function of a fiber specific value')
        self.vo, self.po = 8 + vp[0][0], 8 + px[0][0]
        self.cnt = None
        self.fnt = next((i for i, ty in P.types.items() if ty.get('els') and P.tname(i) == NS + 'detail::fss_cleanup_function'), None)

        cs = [m for m in leaf_members(P, self.fnt) if 'atomic' in m[2] or m[2] == 'unsigned long']
        if len(cs) != 1:
            raise Broken('anchor vanished: reference count of a cleanup function')
        self.cnt = cs[0][0]

    def is_map(self, eng, st, v):
        """Key of the map object v points at."""
        if v[0] == 'p' and isinstance(v[2], int):
            if v == self.ctxmap(st):
                return 'ctx'
            if v[1].startswith('a:'):
                return v
        return None

    def map_model(self, eng, st, fr, i, fn, args):
        s = fn.short
        if s.startswith(('std::_Rb_tree_iterator::', 'std::_Rb_tree_const_iterator::')):
            op = s.rsplit('::', 1)[-1]
            if op in ('operator->', 'operator*'):
                it = eng.load(st, args[0], 'it', True, 8, silent=True)
                if it == END:
                    self.check(eng, st, 'Z10 only elements of the map are looked at', False, 'the end of the map is dereferenced')
                    return [(st, ('stop',))]
                if it == ('p', ENT, 0):
                    return [(st, it)]
                raise Broken('an iterator of the map of fiber specific values that is not understood: %s' % eng.where(it))
            if op == 'operator++':
                return self.advance(eng, st, fr, i, fn, args)
            if op.startswith('_Rb_tree'):
                if fn.np == 1:
                    v = args[1]
                    if v[0] == 'p' and v[1].startswith('a:'):
                        v = eng.load(st, v, 'it', True, 8, silent=True)
                    eng.store(st, args[0], v, silent=True)
                return [(st, None)]
            return None
        if not s.startswith('std::map::'):
            return None
        op = s.rsplit('::', 1)[-1]
        if op == '~map' or op == 'map':
            who = args[0]
        else:
            who = args[1] if fn.sret else args[0]
        k = self.is_map(eng, st, who)
        if k is None:
            raise Broken('the map of %s is not understood in %s' % (eng.where(who), op))
        f = getattr(self, 'map_' + {'operator[]': 'index', '~map': 'destroy', 'map': 'construct', 'cbegin': 'begin', 'cend': 'end'}.get(op, op), None)
        if f is None:
            raise Broken('std::map::%s is not modelled' % op)
        return f(eng, st, fr, i, fn, args, k)

    def map_end(self, eng, st, fr, i, fn, args, k):
        return [(st, END)]

    def touched(self, eng, st, ev):
        """Reads and writes of an element that is no longer in the map."""
        if ev.base == ENT and ev.k in ('read', 'write') and st.mon.get('gone') == ONE:
            self.check(eng, st, 'Z10 only elements of the map are looked at', False, 'an element is used after it was erased')

    def is_cleanup(self, ev):
        return ev.k == 'call' and ev.virt is not None and len(ev.args) == 2 or \
            ev.k == 'call' and ev.fn is None and ev.name is not None and 'fss_cleanup_function' in ev.name and len(ev.args) == 2


class Op(Map, Mon):
    """One operation of fiber_specific_ptr in a fiber whose map holds anything."""
    inline_prefix = (NS + 'fiber_specific_ptr', NS + 'context::', NS + 'detail::', 'boost::intrusive_ptr', 'std::make_pair', 'std::pair')

    def __init__(self, P, lay, op):
        self.P, self.lay, self.opname = P, lay, op

    def ctxmap(self, st):
        return ('p', 'nn:active', self.lay.fss[0])

    def start(self, eng, st):
        self.map_setup(eng, self.P)
        st.names |= {'nn:active', ENT, 'v0', 'nn:f0'}
        eng.roots |= {'nn:active', ENT}
        eng.symty['nn:active'] = self.lay.t
        eng.symdesc.update({'nn:active': 'active()', ENT: 'the element', 'v0': 'old value', 'nn:f0': 'its cleanup function', 'nn:mapend': 'end()'})
        if self.fnt is not None:
            eng.symty['nn:f0'] = self.fnt
        self.private = (ENT,)
        if 'this' in eng.symty:
            ms = [m for m in leaf_members(self.P, eng.symty['this']) if 'fss_cleanup_function' in m[2]]
            if len(ms) == 1:
                st.mem[('this', ms[0][0])] = OWN
                st.names.add('nn:own')
                eng.symty['nn:own'] = self.fnt
                eng.symdesc['nn:own'] = 'the pointer\'s cleanup function'
        st.mon.update(has=U, gone=ZERO, cleans=(), threw=ZERO, rc=(), off=ZERO)
        st.mon['t'] = next((v for v in eng.argvals if v[0] in 'ps' and v[1] not in ('this', 'a:ret')), U)
        st.mon['v0'], st.mon['f0'] = ('p', 'nn:v0', 0), ('p', 'nn:f0', 0)

    def rely(self, eng, st, base, off, val):
        # the values of a fiber are only touched by that fiber; the pointer object belongs to its users
        return 'keep'

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == NS + 'context::active':
            if self.opname == 'dtor':
                s2 = st.copy()
                s2.mon['off'] = ONE
                s2.say('%s: the thread\'s runtime is gone' % eng.loc(s2))
                return [(st, ACTIVE), (s2, ZERO)]
            return [(st, ACTIVE)]
        r = self.map_model(eng, st, fr, i, fn, args)
        if r is not None:
            return r
        return Mon.model(self, eng, st, fr, i, fn, args)

    def kref(self, eng, st, v):
        self.key(eng, st, eng.load(st, v, 'key', False, 8, silent=True))

    def key(self, eng, st, v):
        self.check(eng, st, 'Z1 a value is kept under its pointer', v in (('p', 'this', 0), ('s', 'this')) or st.known_eq(v, ('p', 'this', 0)) is True,
                   'the key is %s' % eng.where(v))

    def ref(self, eng, st, f, d):
        rc = dict(st.mon['rc'])
        rc[f[1]] = rc.get(f[1], 0) + d
        st.mon['rc'] = tuple(sorted(rc.items()))

    def balance(self, eng, st, f, d):
        got = dict(st.mon['rc']).get(f[1], 0)
        self.check(eng, st, 'Z17 every holder of a cleanup function is counted', got == d, '%s gains %d holders, %d references' % (eng.where(f), d, got))

    def fork(self, st):
        """[(state, present?)]"""
        h = st.mon['has']
        if h != U:
            return [(st, h == ONE)]
        s2 = st.copy()
        st.mon['has'], s2.mon['has'] = ONE, ZERO
        st.mon['old'], s2.mon['old'] = ONE, ZERO
        st.mem[(ENT, self.vo)] = ('p', 'nn:v0', 0)
        st.mem[(ENT, self.po)] = ('p', 'nn:f0', 0)
        st.names |= {'nn:v0', 'nn:f0'}
        st.say('(the fiber holds a value)')
        s2.say('(the fiber holds no value)')
        return [(st, True), (s2, False)]

    def map_find(self, eng, st, fr, i, fn, args, k):
        self.kref(eng, st, args[-1])
        return [(s, ('p', ENT, 0) if p else END) for s, p in self.fork(st)]
    map_lower_bound = None

    def map_count(self, eng, st, fr, i, fn, args, k):
        self.kref(eng, st, args[-1])
        return [(s, ONE if p else ZERO) for s, p in self.fork(st)]
    map_contains = map_count

    def drop(self, eng, st):
        """The element goes away: a reference of its cleanup function with it."""
        f = eng.load(st, ('p', ENT, self.po), 'f', True, 8, silent=True)
        self.ref(eng, st, f, -1)
        st.mon['has'] = ZERO
        st.mon['gone'] = ONE

    def map_erase(self, eng, st, fr, i, fn, args, k):
        a = args[-1]
        byit = a == ('p', ENT, 0)
        if not byit and a[0] == 'p' and a[1].startswith('a:'):
            v = eng.load(st, a, 'e', True, 8, silent=True)
            byit = v == ('p', ENT, 0)
            if v == END:
                self.check(eng, st, 'Z10 only elements of the map are looked at', False, 'the end of the map is erased')
                return [(st, ('stop',))]
        out = []
        if byit:
            self.check(eng, st, 'Z10 only elements of the map are looked at', st.mon['has'] == ONE, 'an element is erased twice')
            self.drop(eng, st)
            return [(st, END)]
        self.kref(eng, st, a)
        for s, p in self.fork(st):
            if p:
                self.drop(eng, s)
            out.append((s, ONE if p else ZERO))
        return out

    def put(self, eng, st, src, off, move):
        """The element receives the fss_data at src+off."""
        for o in (self.vo, self.po):
            st.mem[(ENT, o)] = eng.load(st, ('p', src[1], addoff(src[2], off + o - 8)), 'put%d' % o, True, 8, silent=True)
        if move:
            eng.store(st, ('p', src[1], addoff(src[2], off + self.po - 8)), ZERO, silent=True)
        else:
            self.ref(eng, st, st.mem[(ENT, self.po)], 1)
        st.mon['has'], st.mon['gone'] = ONE, ZERO

    def map_insert(self, eng, st, fr, i, fn, args, k):
        src = args[-1]
        self.key(eng, st, eng.load(st, src, 'ik', False, 8, silent=True))
        out = []
        for s, p in self.fork(st):
            s2 = s.copy()
            s2.say('%s: %s throws' % (eng.loc(s2), fn.short))
            s2.mon['threw'] = ONE
            out.append((s2, ('throw', '_ZTISt9bad_alloc')))
            if not p:
                self.put(eng, s, src, 8, '&&' in fn.dem)
            s.say('%s: %s' % (eng.loc(s), 'already there: nothing is stored' if p else 'the value is stored'))
            out.append((s, self.pairret(eng, s, fn, args, not p)))
        return out

    def pairret(self, eng, st, fn, args, fresh):
        if fn.sret:
            eng.store(st, args[0], ('p', ENT, 0), silent=True)
            eng.store(st, ('p', args[0][1], addoff(args[0][2], 8)), ONE if fresh else ZERO, silent=True)
            return None
        return ('agg', ('p', ENT, 0), ONE if fresh else ZERO)

    def map_emplace(self, eng, st, fr, i, fn, args, k):
        a = [x for x in args if not (fn.sret and x == args[0])][1:]
        if len(a) == 1:
            return self.map_insert(eng, st, fr, i, fn, args, k)
        if len(a) != 2:
            raise Broken('std::map::emplace with %d arguments is not modelled' % len(a))
        self.kref(eng, st, a[0])
        over = fn.short.endswith('insert_or_assign')
        out = []
        for s, p in self.fork(st):
            s2 = s.copy()
            s2.mon['threw'] = ONE
            s2.say('%s: %s throws' % (eng.loc(s2), fn.short))
            out.append((s2, ('throw', '_ZTISt9bad_alloc')))
            if not p or over:
                self.put(eng, s, a[1], 0, fn.dem.rstrip(')').endswith('&&'))
            out.append((s, self.pairret(eng, s, fn, args, not p)))
        return out
    map_try_emplace = map_emplace
    map_insert_or_assign = map_emplace

    def map_index(self, eng, st, fr, i, fn, args, k):
        self.kref(eng, st, args[-1])
        out = []
        for s, p in self.fork(st):
            if not p:
                s2 = s.copy()
                s2.mon['threw'] = ONE
                s2.say('%s: %s throws' % (eng.loc(s2), fn.short))
                out.append((s2, ('throw', '_ZTISt9bad_alloc')))
                s.mem[(ENT, self.vo)] = s.mem[(ENT, self.po)] = ZERO
                s.mon['has'], s.mon['gone'] = ONE, ZERO
            out.append((s, ('p', ENT, 8)))
        return out

    def map_at(self, eng, st, fr, i, fn, args, k):
        self.kref(eng, st, args[-1])
        return [(s, ('p', ENT, 8) if p else ('throw', '_ZTISt12out_of_range')) for s, p in self.fork(st)]

    def on_event(self, eng, st, ev):
        self.touched(eng, st, ev)
        if ev.k == 'rmw' and ev.base in ('nn:own', 'nn:f0') and ev.off == self.cnt:
            if ev.x is None or ev.x[0] != 'c' or ev.rmw not in ('add', 'sub'):
                raise Broken('a reference count that is not counted up or down')
            self.ref(eng, st, ('p', ev.base, 0), sx(ev.x[1]) if ev.rmw == 'add' else -sx(ev.x[1]))
        if self.is_cleanup(ev):
            if ev.threw:
                st.mon['threw'] = ONE
            st.mon['cleans'] = (st.mon['cleans'] + ((ev.args[0], ev.args[1]),))[:3]
            st.say('%s: the cleanup function %s is called with %s' % (eng.loc(st), eng.where(ev.args[0]), eng.where(ev.args[1])))

    def exit(self, eng, st, kind, val):
        m, op = st.mon, self.opname
        old = m.get('old', U)
        V0, F0 = m['v0'], m['f0']
        if m['off'] == ONE:
            self.check(eng, st, 'Z5 a pointer destroyed without a fiber touches none', not m['cleans'] and old == U, 'uses the map of no fiber')
            return
        if kind == 'terminate':
            self.check(eng, st, 'Z6 an exception of a cleanup function leaves the operation', False, 'ends the program')
            return
        if kind != 'ret':
            self.check(eng, st, 'Z6 an exception of a cleanup function leaves the operation', m['threw'] == ONE, 'throws on its own')
            return
        has = m['has']
        if has != U or op == 'dtor':
            f = st.mem.get((ENT, self.po)) if has == ONE else None
            self.balance(eng, st, ('p', 'nn:f0', 0), (1 if f == ('p', 'nn:f0', 0) else 0) - (1 if old == ONE else 0))
            self.balance(eng, st, OWN, (1 if f == OWN else 0) - (1 if op == 'dtor' else 0))
        cur = st.mem.get((ENT, self.vo)) if has == ONE else ZERO if has == ZERO else U
        curf = st.mem.get((ENT, self.po)) if has == ONE else None
        same = has == U and cur == U
        clean = m['cleans']
        if op in ('get', 'operator->', 'operator*'):
            want = V0 if old == ONE else ZERO
            self.check(eng, st, 'Z2 a pointer yields what its fiber stored last, and nothing before', old != U and st.known_eq(val, want) is True, 'returns %s' % eng.where(val))
            self.check(eng, st, 'Z3 looking at the value changes nothing', not clean and cur == want, 'the stored value changes')
            return
        if op == 'release':
            self.check(eng, st, 'Z4 release hands the value back and forgets it without cleaning up', old != U and st.known_eq(val, V0 if old == ONE else ZERO) is True and
                       not clean and (has == ZERO), 'returns %s, %s, %s' % (eng.where(val), 'cleans up' if clean else 'no cleanup', 'keeps a value' if has != ZERO else 'forgets it'))
            return
        if op == 'dtor':
            self.check(eng, st, 'Z7 a replaced value is cleaned up exactly once, and nothing else is', clean == (((F0, V0),) if old == ONE else ()) and old != U,
                       'cleanup calls: %s' % (', '.join('%s(%s)' % (eng.where(f), eng.where(v)) for f, v in clean) or 'none'))
            self.check(eng, st, 'Z8 the stored value is the one given', has == ZERO, 'a value stays stored under the address of a destroyed pointer')
            return
        # reset
        t = m['t']
        eq = st.known_eq(t, V0) if old == ONE else st.known_eq(t, ZERO)
        null = st.known_eq(t, ZERO)
        if old == ONE and eq is True:
            self.check(eng, st, 'Z7 a replaced value is cleaned up exactly once, and nothing else is', not clean, 'a value replaced by itself is cleaned up')
            self.check(eng, st, 'Z8 the stored value is the one given', has == ONE and cur == V0, 'the value is lost')
            return
        want = ((F0, V0),) if old == ONE else ()
        self.check(eng, st, 'Z7 a replaced value is cleaned up exactly once, and nothing else is', old != ONE or eq is False, 'a value replaced by itself is treated as any other')
        self.check(eng, st, 'Z7 a replaced value is cleaned up exactly once, and nothing else is', clean == want and old != U,
                   'cleanup calls: %s' % (', '.join('%s(%s)' % (eng.where(f), eng.where(v)) for f, v in clean) or 'none'))
        if has == ONE:
            self.check(eng, st, 'Z8 the stored value is the one given', st.known_eq(cur, t) is True, 'stores %s' % eng.where(cur))
            self.check(eng, st, 'Z9 a null pointer is never stored', null is False, 'may store a null pointer')
            self.check(eng, st, 'Z8 the stored value is the one given', curf is not None and self.own(eng, st, curf), 'the value is stored with another cleanup function: %s' % eng.where(curf))
        else:
            self.check(eng, st, 'Z8 the stored value is the one given', has == ZERO and null is True, 'the value given is not stored')

    def own(self, eng, st, f):
        return st.known_eq(f, OWN) is True


class Ending(Map, Life):
    """The end of a fiber holding any number of values."""
    opaque_throws = False

    def start(self, eng, st):
        Life.start(self, eng, st)
        self.map_setup(eng, self.P)
        st.names |= {ENT, 'nn:ev', 'nn:ef'}
        eng.roots.add(ENT)
        eng.symdesc.update({ENT: 'an element', 'nn:ev': 'its value', 'nn:ef': 'its cleanup function', 'nn:mapend': 'end()'})
        if self.fnt is not None:
            eng.symty['nn:ef'] = self.fnt
        self.private = self.private + (ENT,)
        # el: an element was taken from map 'elm'; due: it is still to be cleaned up
        st.mon.update(el=ZERO, due=ZERO, gone=ZERO, maps=(('ctx', U),), swept=ZERO)

    def ctxmap(self, st):
        c = st.mon['ctx']
        return ('p', c[1], self.lay.fss[0]) if c != U else None

    def ms(self, st, k):
        return dict(st.mon['maps']).get(k, U)

    def setms(self, st, k, v):
        d = dict(st.mon['maps'])
        d[k] = v
        st.mon['maps'] = tuple(sorted(d.items(), key=repr))

    def model(self, eng, st, fr, i, fn, args):
        if st.mon['side'] == 'fiber' and st.mon['left'] == ZERO and fn.short.startswith(('std::map::', 'std::_Rb_tree_')):
            r = self.map_model(eng, st, fr, i, fn, args)
            if r is not None:
                return r
        return Life.model(self, eng, st, fr, i, fn, args)

    def element(self, eng, st, k):
        st.mon.update(el=ONE, due=ONE, gone=ZERO, swept=ZERO)
        self.setms(st, k, ONE)
        st.mem[(ENT, self.vo)] = ('p', 'nn:ev', 0)
        st.mem[(ENT, self.po)] = ('p', 'nn:ef', 0)
        return ('p', ENT, 0)

    def fork(self, st, k):
        h = self.ms(st, k)
        if h != U:
            return [(st, h == ONE)]
        s2 = st.copy()
        self.setms(st, k, ONE)
        self.setms(s2, k, ZERO)
        return [(st, True), (s2, False)]

    def map_empty(self, eng, st, fr, i, fn, args, k):
        if st.mon['el'] == ONE and st.mon['due'] == ZERO:
            return [(st, ZERO)]
        return [(s, ZERO if p else ONE) for s, p in self.fork(st, k)]

    def map_size(self, eng, st, fr, i, fn, args, k):
        raise Broken('std::map::size is not modelled')

    def map_begin(self, eng, st, fr, i, fn, args, k):
        if st.mon['el'] == ONE and self.ms(st, k) == ONE:
            return [(st, ('p', ENT, 0))]
        return [(s, self.element(eng, s, k) if p else END) for s, p in self.fork(st, k)]

    def passed(self, eng, st):
        self.check(eng, st, 'Z11 every value a fiber still holds is cleaned up exactly once', st.mon['due'] != ONE, 'a value is passed over without being cleaned up')

    def advance(self, eng, st, fr, i, fn, args):
        self.passed(eng, st)
        s2 = st.copy()
        it = self.element(eng, st, 'ctx')
        eng.store(st, args[0], it, silent=True)
        eng.store(s2, args[0], END, silent=True)
        s2.mon.update(el=ZERO, due=ZERO, swept=ONE)
        return [(st, None if fn.sret else args[0]), (s2, None if fn.sret else args[0])]

    def map_erase(self, eng, st, fr, i, fn, args, k):
        self.check(eng, st, 'Z10 only elements of the map are looked at', st.mon['el'] == ONE, 'an element is erased that is not in the map')
        st.mon.update(el=ZERO, gone=ONE)
        self.setms(st, k, U)
        return [(st, END)]

    def map_clear(self, eng, st, fr, i, fn, args, k):
        self.check(eng, st, 'Z11 every value a fiber still holds is cleaned up exactly once', self.ms(st, k) == ZERO or (st.mon['swept'] == ONE and k != 'ctx'),
                   'values are dropped without being cleaned up' if st.mon['swept'] == ZERO else 'values stored by cleanup functions are dropped without being cleaned up')
        self.setms(st, k, ZERO)
        st.mon.update(el=ZERO)
        return [(st, None)]

    def map_construct(self, eng, st, fr, i, fn, args, k):
        if len(args) == 1:
            self.setms(st, k, ZERO)
        else:
            k2 = self.is_map(eng, st, args[1])
            if '&&' not in fn.dem or k2 is None:
                raise Broken('a copy of the map of fiber specific values is not modelled')
            self.setms(st, k, self.ms(st, k2))
            self.setms(st, k2, ZERO)
        return [(st, None)]

    def map_swap(self, eng, st, fr, i, fn, args, k):
        k2 = self.is_map(eng, st, args[1])
        a, b = self.ms(st, k), self.ms(st, k2)
        self.setms(st, k, b)
        self.setms(st, k2, a)
        return [(st, None)]

    def map_destroy(self, eng, st, fr, i, fn, args, k):
        self.check(eng, st, 'Z11 every value a fiber still holds is cleaned up exactly once', self.ms(st, k) == ZERO or st.mon['swept'] == ONE, 'values are dropped without being cleaned up')
        return [(st, None)]

    def on_event(self, eng, st, ev):
        m, L, k = st.mon, self.lay, ev.k
        if m['side'] == 'fiber' and m['ctx'] != U:
            self.touched(eng, st, ev)
            if self.is_cleanup(ev) and m['left'] == ZERO and (st.known_eq(ev.args[0], ('p', 'nn:ef', 0)) is True or st.known_eq(ev.args[1], ('p', 'nn:ev', 0)) is True):
                self.check(eng, st, 'Z11 every value a fiber still holds is cleaned up exactly once', m['due'] == ONE, 'a value is cleaned up twice')
                self.check(eng, st, 'Z12 a value is cleaned up with its own cleanup function', st.known_eq(ev.args[0], ('p', 'nn:ef', 0)) is True and
                           st.known_eq(ev.args[1], ('p', 'nn:ev', 0)) is True, 'calls %s(%s)' % (eng.where(ev.args[0]), eng.where(ev.args[1])))
                self.check(eng, st, 'Z13 cleanup functions run with nothing locked', not st.locks, 'user code runs with %s locked' % ', '.join(eng.where(l) for l in st.locks))
                self.check(eng, st, 'Z14 cleanup functions run before the fiber is reported terminated', m['flag'] == ZERO and m['notified'] == ZERO,
                           'joiners were released before')
                m['due'] = ZERO
                # it may have stored or dropped others
                if m['el'] == ONE:
                    self.setms(st, 'ctx', ONE)
                else:
                    self.setms(st, 'ctx', U)
            if k == 'write' and ev.base == m['ctx'][1] and ev.off == L.flag:
                self.check(eng, st, 'Z11 every value a fiber still holds is cleaned up exactly once', m['due'] == ZERO and self.ms(st, 'ctx') == ZERO,
                           'the fiber is marked terminated while it still holds values')
        Life.on_event(self, eng, st, ev)


class ClientOp(Op):
    inline_prefix = Op.inline_prefix + ('use::',)
    opaque_throws = False
    sequential = True

    def ref(self, eng, st, f, d):
        if f[0] != 'p':
            return
        c = ('p', f[1], self.cnt)
        n = mkop('add', (eng.load(st, c, 'cnt', False, 8, silent=True), ('c', d)), 64)
        eng.store(st, c, n, silent=True)
        if n == ZERO:
            st.mon['seen'] = (st.mon['seen'] + (('late', f),))[:4]

    def key(self, eng, st, v):
        k = st.mon.get('k')
        if k is None:
            st.mon['k'] = v
        else:
            self.check(eng, st, 'Z1 a value is kept under its pointer', st.known_eq(v, k) is True, 'the keys differ')

    def start(self, eng, st):
        Op.start(self, eng, st)
        st.mon.update(has=ZERO, old=ZERO, seen=())
        self.prog = self.fn.short.rsplit('::', 1)[-1]
        for n, v in enumerate(eng.argvals):
            st.mon['arg%d' % n] = v

    def is_cleanup(self, ev):
        return False

    def on_event(self, eng, st, ev):
        self.touched(eng, st, ev)
        if ev.k == 'call' and ev.fn is None and ev.virt is None and ev.name and ev.name.startswith('indirect'):
            st.mon['seen'] = (st.mon['seen'] + (('fn', ev.args[0]),))[:4]

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == 'use::T::~T':
            st.mon['seen'] = (st.mon['seen'] + (('~', args[0]),))[:4]
            st.say('%s: destroys %s' % (eng.loc(st), eng.where(args[0])))
            return [(st, None)]
        if fn.short.startswith('operator delete') and not (args[0][0] == 'p' and args[0][1].startswith('h:')):
            st.mon['seen'] = (st.mon['seen'] + (('free', args[0]),))[:4]
            return [(st, None)]
        if fn.short == 'use::sink':
            st.mon['seen'] = (st.mon['seen'] + (('got', args[0]),))[:4]
            return [(st, None)]
        return Op.model(self, eng, st, fr, i, fn, args)

    def exit(self, eng, st, kind, val):
        if kind != 'ret':
            return
        m = st.mon
        p = self.prog
        cust = p.startswith('custom')
        a = [m['arg%d' % n] for n in range(len(eng.argvals))]
        fn = a[0] if cust else None
        vals = a[1:] if cust else a
        runs = not cust or {True: False, False: True, None: None}[st.known_eq(fn, ZERO)]
        want = []

        def clean(v):
            if st.known_eq(v, ZERO) is True:
                return
            if cust:
                if runs is not False:
                    want.append(('fn' if runs else 'fn, after a test for null,', v))
            else:
                want.append(('~', v))
                want.append(('free', v))
        if p.endswith('once'):
            clean(vals[0])
        elif p.endswith('twice'):
            if st.known_eq(vals[0], vals[1]) is not True:
                clean(vals[0])
            clean(vals[1])
        elif p.endswith('release'):
            want.append(('got', vals[0]))
        elif p.endswith('get'):
            want.append(('got', vals[0]))
            clean(vals[0])
        ok = len(want) == len(m['seen']) and all(k == k2 and st.known_eq(v, v2) is True for (k, v), (k2, v2) in zip(want, m['seen']))
        self.check(eng, st, 'Z15 the cleanup function of a pointer is the one it was made with', ok,
                   'expected %s, got %s' % ([(k, eng.where(v)) for k, v in want], [(k, eng.where(v)) for k, v in m['seen']]))


class MainEnd(Map, Mon):
    """The end of a thread: what its main fiber still holds."""
    inline_prefix = (NS + 'context_initializer', 'boost::fibers::context_initializer')

    def __init__(self, P, lay):
        self.P, self.lay = P, lay

    def start(self, eng, st):
        self.map_setup(eng, self.P)
        st.mon.update(clean=ZERO)

    def model(self, eng, st, fr, i, fn, args):
        if fn.short.startswith('std::map::') and fn.short.rsplit('::', 1)[-1] in ('empty', 'begin', 'clear'):
            st.mon['clean'] = ONE
        return Mon.model(self, eng, st, fr, i, fn, args)

    def on_event(self, eng, st, ev):
        if ev.k == 'call' and ev.fn is None and ev.name and ev.name.startswith(NS + 'context::') and len(ev.args) == 1:
            self.check(eng, st, 'Z16 the values of a thread\'s main fiber are cleaned up when the thread ends', st.mon['clean'] == ONE,
                       'the main fiber is destroyed with the values it holds, without their cleanup functions being called', where='main fiber')
            st.say('%s: the main fiber is destroyed' % eng.loc(st))


def run(ctx):
    P = ctx.load(E27)
    lay = Lay(P)
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        if f.defined and f.short.startswith(NS + 'fiber_specific_ptr::') and f.short.count('::') == 3 and 'use::T' in f.dem:
            op = f.short.rsplit('::', 1)[-1]
            if op == 'fiber_specific_ptr' or 'C2E' in f.name and False:
                continue
            ctx.explore(P, f, Op(P, lay, 'dtor' if op.startswith('~') else op))
            n += 1
    if n < 6:
        raise Broken('anchor vanished: operations of fiber_specific_ptr (%d found)' % n)
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        if f.defined and f.short.startswith('use::fss::'):
            ctx.explore(P, f, ClientOp(P, lay, 'client'))
    inits = [f for f in P.fns.values() if f.defined and f.short.endswith('context_initializer::~context_initializer')]
    if not inits:
        raise Broken('anchor vanished: what runs at the end of a thread')
    ctx.explore(P, inits[0], MainEnd(P, lay))
    # the end of a worker fiber
    Q = ctx.load(UNITS)
    consts = {k: constant(Q, c) for k, c in (('post', 'e_post'), ('dispatch', 'e_dispatch'))}
    lay = Lay(Q)
    f = sorted((f for f in Q.fns.values() if f.defined and f.short.startswith('use::spawn::')), key=lambda f: f.dem)
    if not f:
        raise Broken('anchor vanished: launching wrappers')
    for x in f:
        ctx.explore(Q, x, Ending(Q, lay, consts, 'Z'))
    for r in ('Z1 a value is kept under its pointer', 'Z2 a pointer yields what its fiber stored last, and nothing before', 'Z4 release hands the value back and forgets it without cleaning up',
              'Z7 a replaced value is cleaned up exactly once, and nothing else is', 'Z8 the stored value is the one given', 'Z9 a null pointer is never stored',
              'Z11 every value a fiber still holds is cleaned up exactly once', 'Z13 cleanup functions run with nothing locked', 'Z15 the cleanup function of a pointer is the one it was made with',
              'Z16 the values of a thread\'s main fiber are cleaned up when the thread ends'):
        ctx.require(r, 1)
