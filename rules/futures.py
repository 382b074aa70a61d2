"""Promises, futures, packaged tasks and the state they share, explored through their public
operations (tu/futures.cpp: one wrapper per operation and result type) with everything inlined
down to the mutex, the wait queue and the reference counter.  Every critical section of a
state's mutex is one guarded atomic action on (ready, exception, content); every object is a
slot (pointer[, future-retrieved flag]) whose contents before and after the call are compared."""
import re
import models
from rules.common import *

UNITS = ['tu/futures.cpp', 'src/condition_variable.cpp']
EPTR = 'std::__exception_ptr::exception_ptr'


FNC = re.compile(r'^(Fn|FnV|FnR)::\1$')
FND = re.compile(r'^(Fn|FnV|FnR)::~\1$')
FNO = re.compile(r'^(Fn|FnV|FnR)::operator\(\)$')


class Layout:
    """Members of a shared state by type."""
    def __init__(self, P, t):
        ms = leaf_members(P, t)
        self.t = t

        def one(pred, what):
            r = [m for m in ms if pred(m)]
            if len(r) != 1:
                raise Broken('anchor vanished: %s has %d members "%s"' % (P.tname(t), len(r), what))
            return r[0]
        m = one(lambda m: m[2].replace('const ', '') == NS + 'mutex', 'mutex')
        self.mtx = (m[0], P.types[m[3]]['sz'])
        m = one(lambda m: 'condition_variable' in m[2], 'condition variable')
        self.cv = (m[0], P.types[m[3]]['sz'])
        self.ready = one(lambda m: m[2] == 'bool', 'bool')[0]
        self.exc = one(lambda m: m[2].endswith('exception_ptr'), 'exception_ptr')[0]
        self.count = one(lambda m: 'atomic' in m[2], 'reference counter')[0]
        r = [m for m in ms if m[0] >= self.exc + 8 and (P.types[m[3]]['k'] == 'DW_TAG_array_type' or 'aligned' in m[2]) and
             (m[1].count('.') == 0 or 'fn' not in m[1].split('.')[0])]
        self.storage = (r[0][0], P.types[r[0][3]].get('sz') or 12) if len(r) == 1 else None
        r = [m for m in ms if m[2].replace(' ', '') == 'Val*']
        self.ptr = r[0][0] if len(r) == 1 else None


def is_state(P, t):
    n = P.tname(t) if t is not None else ''
    return bare(n) in STATES


STATES = {NS + 'detail::' + x for x in ('shared_state', 'shared_state_base', 'shared_state_object', 'task_base', 'task_object')}


def bare(n):
    while '<' in n:
        m = re.sub(r'<[^<>]*>', '', n)
        if m == n:
            break
        n = m
    return n


class Slot:
    """An object holding a reference to a state: offset of the pointer, of the flag (producers)."""
    def __init__(self, P, t):
        ms = leaf_members(P, t)
        self.name = re.sub(r'<.*', '', P.tname(t)).split('::')[-1]
        ps = [m for m in ms if 'intrusive_ptr<' in m[2] or m[2].endswith('*') or 'ptr_type' in m[2]]
        if len(ps) != 1:
            raise Broken('anchor vanished: %s has %d state pointers' % (P.tname(t), len(ps)))
        self.ptr = ps[0][0]
        fl = [m for m in ms if m[2] == 'bool']
        self.producer = self.name in ('promise', 'packaged_task')
        if self.producer and len(fl) != 1:
            raise Broken('anchor vanished: %s has %d flags' % (P.tname(t), len(fl)))
        self.flag = fl[0][0] if self.producer else None


def slot_type(P, t):
    n = P.tname(t) if t is not None else ''
    return '<' in n and bare(n) in (NS + 'promise', NS + 'packaged_task', NS + 'future', NS + 'shared_future')


class FM(Mon):
    inline_prefix = (NS + 'condition_variable',)
    prefixes = 'SAFKC'
    alloc_throws = True

    def __init__(self, P, codes, consts, prefixes, layouts, slots, virts=None, role=None):
        self.virts = virts if virts is not None else {}
        self.role = role
        self.P, self.codes, self.consts, self.prefixes, self.layouts, self.slots = P, codes, consts, prefixes, layouts, slots

    def check(self, eng, st, rule, cond, msg, site=None, where=None):
        if rule[0] not in self.prefixes:
            return cond
        return Mon.check(self, eng, st, rule, cond, msg, site, where)

    # ---------------------------------------------------------------- objects
    def lay(self, t):
        if t is None or not is_state(self.P, t):
            return None
        l = self.layouts.get(t)
        if l is None:
            l = self.layouts[t] = Layout(self.P, t)
        return l

    def slot(self, t):
        l = self.slots.get(t)
        if l is None:
            l = self.slots[t] = Slot(self.P, t)
        return l

    def state_lay(self, eng, X):
        return self.lay(eng.symty.get(X)) or (self.lay(self.alloc_t) if X[:2] == 'h:' and self.alloc_t is not None else None)

    def start(self, eng, st):
        self.op = self.fn.short.split('::')[-1]
        self.cls = self.fn.dem.split('(')[0]
        self.objs = []           # (base, Slot, initially alive)
        self.alloc_t = None
        news = []
        tpl = re.search(r'use::(Producer|Consumer|Task)<(.*?)>::', self.fn.dem)
        for v in eng.argvals:
            t = eng.symty.get(v[1]) if v[0] == 'p' else None
            if v[0] == 'p' and t is not None and slot_type(self.P, t) and all(v[1] != o[0] for o in self.objs):
                self.objs.append((v[1], self.slot(t), True, t))
            elif v[0] == 'p' and v[1] == 'arg0':
                news.append(v[1])
        if tpl and news:
            kind = tpl.group(1)
            T = tpl.group(2)
            if kind == 'Producer':
                want = NS + 'promise<%s>' % T
            elif kind == 'Task':
                want = None
            else:
                want = NS + ('shared_future<%s>' if self.op.startswith('s') else 'future<%s>') % T
            if want is None:
                ts = [t for t in eng.P.types if slot_type(self.P, t) and
                      self.P.tname(t).replace(' ', '').startswith((NS + 'packaged_task<' + T.split(',')[0] + '(').replace(' ', '')) and
                      eng.P.types[t].get('els')]
            else:
                ts = [t for t in eng.P.types if self.P.tname(t).replace(' ', '') == want.replace(' ', '') and eng.P.types[t].get('els')]
            if not ts:
                raise Broken('anchor vanished: no type for %s' % self.fn.dem)
            for b in news:
                self.objs.append((b, self.slot(ts[0]), False, ts[0]))
                eng.symty[b] = ts[0]
        if len(self.objs) == 2:
            st.facts[mkcmp('eq', *sorted((('p', o[0], 0) for o in self.objs), key=repr), 64)] = False
        self.private = tuple(o[0] for o in self.objs) + ('a:ret',) + tuple(v[1] for v in eng.argvals[1:] if v[0] == 'p' and self.op == 'set_exception')
        for b, s, alive, t in self.objs:
            if alive:
                st.mon['p.' + b] = eng.load(st, ('p', b, s.ptr), 'p0' + b, True, 8, silent=True)
                if s.producer:
                    st.mon['f.' + b] = eng.load(st, ('p', b, s.flag), 'f0' + b, False, 1, silent=True)
        st.mon.update(cs=(), settled=(), refs=(), fn=ZERO, got=U, created=(), sat=(), last=(), exc=(), ref=(), launched=(), got_mem=(), freed=(),
                      vdtor=ZERO, fdtor=ZERO)
        self.me = self.cls.split('use::')[-1]
        if self.role is not None:
            self.state_entry = True
            l = self.lay(eng.symty['this'])
            st.mon['r0'] = self.cell(eng, st, 'this', l.ready)
            st.mon['e0'] = self.cell(eng, st, 'this', l.exc, True, 8)
            if self.role == 'run' and len(eng.argvals) > 1:
                self.private += (eng.argvals[-1][1],)
                st.mon['a0'] = eng.load(st, eng.argvals[-1], 'ra0', False, 4, silent=True)
        else:
            self.state_entry = False

    def noalias(self, eng, st, b1, b2):
        # two producers never share a state; a state is none of the objects
        return True

    # ---------------------------------------------------------------- sets kept in the monitor
    def put(self, st, k, key, val):
        d = [(a, b) for a, b in st.mon[k] if a != key]
        d.append((key, val))
        st.mon[k] = tuple(sorted(d, key=repr))

    def get(self, st, k, key, dflt=None):
        for a, b in st.mon[k]:
            if a == key:
                return b
        return dflt

    # ---------------------------------------------------------------- critical sections
    def mine(self, eng, lock):
        """The state whose mutex this is."""
        if lock is None or lock[0] != 'p' or not isinstance(lock[2], int):
            return None
        l = self.state_lay(eng, lock[1])
        if l and l.mtx[0] <= lock[2] < l.mtx[0] + max(l.mtx[1], 1):
            return lock[1], l
        return None

    def held(self, eng, st, X):
        return any((self.mine(eng, l) or ('',))[0] == X for l in st.locks)

    def cell(self, eng, st, X, off, ptr=False, sz=1):
        return eng.load(st, ('p', X, off), 'c%s.%d' % (X, off), ptr, sz, silent=True)

    def content(self, st, X, kind):
        d = self.get(st, 'cs', ('p', X, 0))
        if d is not None:
            self.put(st, 'cs', ('p', X, 0), (d[0], d[1] + (kind,)))

    def on_event(self, eng, st, ev):
        k = ev.k
        m = st.mon
        if k == 'acquired':
            s = self.mine(eng, ev.lock)
            if s:
                X, l = s
                self.put(st, 'cs', ('p', X, 0), (self.cell(eng, st, X, l.ready), ()))
        elif k == 'release':
            s = self.mine(eng, ev.lock)
            if s:
                self.cs_end(eng, st, *s)
        elif k == 'write':
            if self.written(eng, st, ev.base, ev.off, ev.val):
                return
        elif k == 'enqueue':
            X = ev.wq[1]
            l = self.state_lay(eng, X)
            seen = l is not None and self.get(st, 'last', ('p', X, 0)) == ZERO if not self.held(eng, st, X) else \
                st.truth(self.cell(eng, st, X, l.ready)) is False
            self.check(eng, st, 'S5 a fiber blocks only while the result is missing', seen, 'blocks without having seen, under the mutex, that there is no result yet')
        elif k in ('notify', 'wq_none'):
            if ev.wq[0] == 'p' and isinstance(ev.wq[2], int):
                l = self.state_lay(eng, ev.wq[1])
                if l and l.cv[0] <= ev.wq[2] < l.cv[0] + l.cv[1] and ev.which != 'notify_one':
                    X = ev.wq[1]
                    if (k == 'notify' or any(h[0] == 'p' and h[1] == ev.wq[1] and isinstance(h[2], int) and l.cv[0] <= h[2] < l.cv[0] + l.cv[1] for h in ev.held)) and \
                            self.get(st, 'settled', ('p', X, 0)) is not None or self.held(eng, st, X) and \
                            st.truth(self.cell(eng, st, X, l.ready)) is True:
                        self.put(st, 'sat', ('p', X, 0), ONE)
        elif k == 'rmw':
            l = self.state_lay(eng, ev.base)
            if l and ev.off == l.count and ev.rmw in ('add', 'sub'):
                X = ('p', ev.base, 0)
                n = self.get(st, 'refs', X, 0) + (1 if ev.rmw == 'add' else -1)
                self.put(st, 'refs', X, n)
                if ev.rmw == 'sub':
                    self.released(eng, st, X)
        elif k == 'precall':
            self.precall(eng, st, ev)
        elif k == 'call':
            self.call(eng, st, ev)
        elif k == 'rethrow_exception':
            m['got'] = ('agg', ('c', 9), ev.val)
        elif k == 'throw':
            m['thrown'] = ('c', self.codes.get(ev.name, -1))
            m['threw'] = ONE
            m['tobj'] = ev.obj
        elif k == 'catch':
            m.pop('thrown', None)
        elif k == 'make_exception_ptr':
            m['mk'] = ('agg', ev.val, ('c', self.codes.get(ev.type, -1)))
        elif k == 'current_exception':
            m['cur'] = ev.val
        elif k == 'alloc':
            m['created'] = m['created'] + (('p', ev.base, 0),)
        elif k == 'free':
            m['freed'] = m['freed'] + (ev.ptr,)
            m['created'] = tuple(c for c in m['created'] if c != ev.ptr)

    def written(self, eng, st, b, off, val):
        l = self.state_lay(eng, b)
        if not l or not isinstance(off, int):
            return False
        cs = self.get(st, 'cs', ('p', b, 0))
        if cs is None and not any(self.eq(st, ('p', b, 0), st.mon['p.' + o]) for o, sl, al, t in self.objs if al) and not (self.state_entry and b == 'this'):
            return True          # under construction
        if off == l.ready:
            self.check(eng, st, 'S1 the result is announced once, complete, under the mutex', cs is not None and self.held(eng, st, b) and
                       st.truth(val) is True, 'ready is %s' % ('set without the mutex' if cs is None else 'taken back'))
            if cs is not None:
                self.check(eng, st, 'S1 the result is announced once, complete, under the mutex', st.truth(cs[0]) is False, 'announced although a result was there')
                self.content(st, b, ('ready', ('c', 1)))
        elif off == l.exc or off == l.ptr or l.storage and l.storage[0] <= off < l.storage[0] + l.storage[1]:
            kind = 'exc' if off == l.exc else 'ref' if off == l.ptr else 'raw'
            self.check(eng, st, 'S2 a stored result is never replaced', cs is not None and st.truth(cs[0]) is False and
                       st.truth(self.cell(eng, st, b, l.ready)) is False, 'the %s is written %s' % (
                           'exception' if kind == 'exc' else 'value', 'without the mutex' if cs is None else 'although a result may be there or announced'))
            self.content(st, b, (kind, val))
        return True

    def call(self, eng, st, ev):
        n = ev.name
        a = ev.args
        m = st.mon
        if n == 'Val::Val' and len(a) >= 2:
            d, s = a[0], a[1]
            if d[0] == 'p':
                l = self.state_lay(eng, d[1])
                if l and l.storage and d[2] == l.storage[0]:
                    cs = self.get(st, 'cs', ('p', d[1], 0))
                    self.check(eng, st, 'S2 a stored result is never replaced', cs is not None and st.truth(cs[0]) is False and
                               st.truth(self.cell(eng, st, d[1], l.ready)) is False, 'the value is constructed %s' % (
                                   'without the mutex' if cs is None else 'although a result may be there or announced'))
                    if not ev.threw:
                        self.content(st, d[1], ('value', s))
            if s[0] == 'p' and not ev.threw:
                l = self.state_lay(eng, s[1])
                if l and l.storage and s[2] == l.storage[0]:
                    self.check(eng, st, 'F7 the result is taken while the state is still referenced', not self.gone(eng, st, s[1]),
                               'the value is read after the last reference was released')
                    m['got'] = ('agg', ('c', 7), s, d)
        if FNC.match(n) and not ev.threw and len(a) >= 2:
            m['fncopied'] = m['fnmoved'] = ('agg', a[0], a[1])
        if n.endswith('::operator()') and FNO.match(n):
            m['fn'] = ('c', m['fn'][1] + 1) if m['fn'][0] == 'c' else U
            m['fthrew'] = ONE if ev.threw else ZERO
            m['out'] = ev.res if ev.res is not None else a[0]
            if self.role == 'run':
                me = a[0] if a[0][0] == 'p' and a[0][1] == 'this' else a[1]
                self.check(eng, st, 'K1 calling a task runs its function once with the arguments', me[0] == 'p' and me[1] == 'this' and
                           self.eq(st, a[-1], m.get('a0', U)), 'the function gets another argument, or another function is called')
        if ev.threw:
            m['threw'] = ONE
        if n == 'Val::~Val' and a[0][0] == 'p':
            l = self.state_lay(eng, a[0][1])
            if l and l.storage and a[0][2] == l.storage[0]:
                m['vdtor'] = ('c', m['vdtor'][1] + 1)
                if self.role == 'free':
                    self.check(eng, st, 'C2 the last reference destroys the state once and frees its memory', not m['freed'], 'used after it was freed')
        if FND.match(n) and a[0][0] == 'p' and a[0][1] == 'this':
            m['fdtor'] = ('c', m['fdtor'][1] + 1)
            self.check(eng, st, 'C2 the last reference destroys the state once and frees its memory', not m['freed'], 'used after it was freed')
        if n.endswith('::deallocate') and n.startswith('Al') and len(a) > 1:
            m['freed'] = m['freed'] + (a[1],)
            m['got_mem'] = tuple(g for g in m['got_mem'] if g[1] != a[1])

    def precall(self, eng, st, ev):
        m, a = st.mon, ev.args
        if ev.virt and self.op in ('call', 'reset') and len(a) >= 2:
            self.virts.setdefault(self.op, set()).add(ev.virt)
        elif ev.virt and len(a) == 1 and ev.virt[0] != '~':
            self.virts.setdefault('free', set()).add(ev.virt)
        if ev.virt and self.op == 'call' and len(a) >= 2:
            m['run'] = ('agg', a[0], a[1] if len(a) > 1 else U, eng.load(st, a[1], 'ra', False, 4, silent=True) if len(a) > 1 else U,
                        ('c', 1 + (m['run'][4][1] if 'run' in m else 0)))

    def gone(self, eng, st, X):
        """All references this operation knew of were given up."""
        n = self.get(st, 'refs', ('p', X, 0), 0)
        k = sum(1 for b, s, alive, t in self.objs if alive and st.known_eq(st.mon['p.' + b], ('p', X, 0)) is True)
        return n + k <= 0 and k > 0

    def cs_end(self, eng, st, X, l):
        cs = self.get(st, 'cs', ('p', X, 0))
        if cs is None:
            return
        pre, did = cs
        post = self.cell(eng, st, X, l.ready)
        kinds = [d[0] for d in did if d[0] != 'ready']
        if st.truth(pre) is False and st.truth(post) is True:
            what = [d for d in did if d[0] in ('value', 'ref', 'exc')]
            exc = self.cell(eng, st, X, l.exc, True, 8)
            void = l.storage is None and l.ptr is None
            self.check(eng, st, 'S1 the result is announced once, complete, under the mutex', len(what) == 1 or void and not what,
                       'announced with %s' % (', '.join(w[0] for w in what) or 'no result'))
            order = [d[0] for d in did]
            self.check(eng, st, 'S1 the result is announced once, complete, under the mutex', order[-1] == 'ready', 'announced before the result is stored')
            w = what[0] if what else ('void', U)
            if w[0] != 'exc' and not (exc[0] == 'p' and exc[1].startswith('l') or exc[0] == 's' or exc == ZERO):
                self.check(eng, st, 'S1 the result is announced once, complete, under the mutex', False, 'announced as value and exception')
            self.put(st, 'settled', ('p', X, 0), ('agg', ('c', {'value': 1, 'ref': 2, 'exc': 3, 'void': 4}[w[0]]), w[1]))
        elif st.truth(post) is False and 'raw' not in kinds:
            self.check(eng, st, 'S3 an unannounced result is not left behind', not [d for d in did if d[0] in ('value', 'ref', 'exc')],
                       'the result is stored without being announced')
        elif st.truth(pre) is True:
            self.put(st, 'last', ('p', X, 0), ONE)
        if st.truth(post) is not None:
            self.put(st, 'last', ('p', X, 0), ('c', int(st.truth(post))))
        else:
            self.put(st, 'last', ('p', X, 0), U)
        st.mon['cs'] = tuple(x for x in st.mon['cs'] if x[0] != ('p', X, 0))

    # ---------------------------------------------------------------- references
    def released(self, eng, st, X):
        """A reference to X goes: a retrieved promise nobody will keep must be settled by now."""
        if self.held(eng, st, X[1]):
            self.check(eng, st, 'S6 a state is not given up while its mutex is held', False, 'the reference is dropped under the mutex')

    def final(self, eng, st, kind):
        """(base, slot, pointer, flag) of the objects alive at the end."""
        out = []
        for b, s, alive, t in self.objs:
            if self.op in ('dtor', 'sdtor'):
                continue
            if not alive and kind != 'ret':
                continue
            p = eng.load(st, ('p', b, s.ptr), 'pe' + b, True, 8, silent=True)
            f = eng.load(st, ('p', b, s.flag), 'fe' + b, False, 1, silent=True) if s.producer else None
            out.append((b, s, p, f))
        return out

    def result(self, eng, st):
        """State pointer in a returned future."""
        t = eng.symty.get('a:ret')
        v = st.mem.get(('a:ret', 0))
        return v if v is not None else eng.load(st, ('p', 'a:ret', 0), 'rp', True, 8, silent=True)

    def eq(self, st, a, b):
        return st.known_eq(a, b) is True

    def exit(self, eng, st, kind, val):
        m = st.mon
        op = self.op
        self.check(eng, st, 'S6 nothing is held at the end', not st.locks, 'leaves holding %s' % [eng.where(l) for l in st.locks])
        if kind == 'terminate' and 'thrown' not in m and st.exc is None:
            return
        thrown = m.get('thrown', U)
        code = thrown[1] if thrown[0] == 'c' and kind in ('throw', 'terminate') and val is not None and val[2] == m.get('tobj') else None
        # announcing wakes everybody
        for X, w in m['settled']:
            self.check(eng, st, 'S4 everybody waiting is resumed', self.get(st, 'sat', X) == ONE, 'the result is announced without notify_all on its waiters')
        if self.state_entry:
            return self.exit_state(eng, st, kind, val, code)
        if op.startswith('async'):
            return self.exit_async(eng, st, kind, val, code)
        fin = self.final(eng, st, kind)
        ini = [(b, s, m['p.' + b], m.get('f.' + b)) for b, s, alive, t in self.objs if alive]
        prods = [x for x in ini if x[1].producer]
        # --- abandoned promises
        for b, s, p, f in prods:
            if st.known_eq(p, ZERO) is True:
                continue
            kept = [x for x in fin if x[1].producer and self.eq(st, x[2], p)]
            sett = self.get(st, 'settled', p)
            if not kept:
                need = st.truth(f) is not False
                done = sett is not None or self.get(st, 'last', p) == ONE
                self.check(eng, st, 'A1 an abandoned promise fails its future', not need or done or st.known_eq(p, ZERO) is None and False,
                           'the state of %s is given up without a result although its future may have been retrieved' % s.name)
                if sett is not None:
                    mk = m.get('mk')
                    self.check(eng, st, 'A1 an abandoned promise fails its future', sett[1] == ('c', 3) and mk is not None and sett[2] == mk[1] and
                               mk[2] == ('c', self.consts['broken']), 'the future of an abandoned %s gets something else than broken_promise' % s.name)
            else:
                self.check(eng, st, 'A2 a promise that lives on is left alone', sett is None or op.startswith('set_'), 'a live state is satisfied by %s' % op)
                want = ONE if op == 'get_future' and kind == 'ret' else f
                self.check(eng, st, 'A3 the retrieved mark moves with its state', self.eq(st, kept[0][3], want),
                           'the mark of %s is %s' % (s.name, eng.where(kept[0][3])))
                self.check(eng, st, 'A4 one owner per promise', len(kept) == 1, 'two objects own one promise')
        for b, s, p, f in fin:
            if not s.producer:
                continue
            if st.known_eq(p, ZERO) is True:
                if any(x[0] == b and st.known_eq(x[2], ZERO) is True and self.eq(st, x[3], f) for x in prods):
                    continue
                self.check(eng, st, 'A3 the retrieved mark moves with its state', st.truth(f) is False, 'an empty %s keeps the mark' % s.name)
            elif not any(self.eq(st, p, x[2]) for x in prods):
                self.check(eng, st, 'A3 the retrieved mark moves with its state', op in ('ctor', 'ctor_alloc', 'ctor_move', 'reset') and st.truth(f) is False,
                           '%s: a state from nowhere or a fresh state already marked' % op)
        # --- what each operation does to its objects
        exp = self.expected(eng, st, kind, ini)
        if exp is not None:
            for b, s, p, f in fin:
                if b in exp:
                    w = exp[b]
                    rule = ('A5' if s.producer else 'F1') + ' moving, copying and swapping transfer the state'
                    if w == 'new':
                        self.check(eng, st, rule, st.known_eq(p, ZERO) is not True and not any(self.eq(st, p, x[2]) for x in ini),
                                   '%s leaves %s without a fresh state' % (op, s.name))
                    else:
                        self.check(eng, st, rule, self.eq(st, p, w), '%s: %s refers to %s, expected %s' % (op, eng.where(('p', b, 0)), eng.where(p), eng.where(w)))
        self.use_rules(eng, st, kind, val, code, ini, fin)
        self.balance(eng, st, kind, ini, fin)

    def expected(self, eng, st, kind, ini):
        op = self.op
        p = {b: q for b, s, q, f in ini}
        o = [x[0] for x in self.objs]
        a = o[0] if o else None
        if op in ('ctor', 'ctor_alloc', 'ctor_move', 'reset') and kind == 'ret':
            return {a: 'new'}
        if op in ('mctor', 'smctor', 'sfctor'):
            src = next(b for b, s, al, t in self.objs if al)
            dst = next(b for b, s, al, t in self.objs if not al)
            return {dst: p[src], src: ZERO}
        if op == 'scctor':
            src = next(b for b, s, al, t in self.objs if al)
            dst = next(b for b, s, al, t in self.objs if not al)
            return {dst: p[src], src: p[src]}
        names = [v[1] for v in eng.argvals if v[0] == 'p']
        if op in ('massign', 'smassign', 'sfassign', 'scassign', 'swap_m', 'swap_f'):
            if len(o) == 1:
                return {a: p[a]}      # both arguments are the same object
            x, y = o[0], o[1]
            if op.startswith('swap'):
                return {x: p[y], y: p[x]}
            return {x: p[y], y: p[y] if op == 'scassign' else ZERO}
        if op in ('dtor', 'sdtor'):
            return {}
        if op in ('get', 'share') and (kind == 'ret' or st.known_eq(p[a], ZERO) is False):
            return {a: ZERO}
        return {b: q for b, q in p.items()}

    def use_rules(self, eng, st, kind, val, code, ini, fin):
        op, m = self.op, st.mon
        C = self.consts
        if op in ('ctor', 'ctor_alloc', 'ctor_move', 'dtor', 'sdtor', 'mctor', 'smctor', 'scctor', 'sfctor', 'massign', 'smassign', 'scassign',
                  'sfassign', 'swap_m', 'swap_f', 'valid', 'svalid'):
            if op in ('valid', 'svalid'):
                p = ini[0][2]
                want = mknot(mkcmp('eq', p, ZERO, 64))
                r = val if val is not None else U
                t, e = st.truth(r), st.known_eq(p, ZERO)
                good = r == want or (t is not None and e is not None and t != e)
                self.check(eng, st, 'F2 valid tells whether there is a state', kind == 'ret' and good, 'valid() returns %s' % eng.where(r))
            elif not op.startswith('ctor'):
                self.check(eng, st, 'A6 moving and destroying do not throw' if ini and ini[0][1].producer else 'F1 moving, copying and swapping transfer the state',
                           kind == 'ret', '%s can end with %s' % (op, kind))
            return
        p = ini[0][2]
        prod = ini[0][1].producer
        empty = st.known_eq(p, ZERO)
        rule = ('A7 ' if prod else 'F3 ') + 'operations without a state raise no_state and change nothing'
        if empty is True:
            f = ini[0][3]
            self.check(eng, st, rule, kind == 'throw' and (code == C['nostate'] or op == 'get_future' and st.truth(f) is not False and
                                                            code == C['retrieved']),
                       '%s without a state ends with %s%s' % (op, kind, ' code %s' % code if kind == 'throw' else ''))
            return
        self.check(eng, st, rule, code != C['nostate'], '%s raises no_state although there may be a state' % op)
        if op == 'get_future':
            f = ini[0][3]
            if kind == 'ret':
                self.check(eng, st, 'F4 at most one future per promise', st.truth(f) is False, 'a second future is handed out')
                self.check(eng, st, 'F4 at most one future per promise', self.eq(st, self.result(eng, st), p), 'the future refers to another state')
            else:
                self.check(eng, st, 'F4 at most one future per promise', code == C['retrieved'] and st.truth(f) is True,
                           'get_future fails with code %s although no future was handed out' % code)
            return
        sett, last = self.get(st, 'settled', p), self.get(st, 'last', p)
        if op.startswith('set_'):
            if kind == 'ret':
                self.check(eng, st, 'S7 satisfying stores the given result', sett is not None, '%s returns without having stored a result' % op)
                if sett is not None:
                    a1 = eng.argvals[1] if len(eng.argvals) > 1 else U
                    want = {'set_value_c': 1, 'set_value_m': 1, 'set_value_r': 2, 'set_value_v': 4, 'set_exception': 3}[op]
                    v = sett[2]
                    ok = sett[1] == ('c', want)
                    if op == 'set_exception':
                        e = eng.load(st, a1, 'xe', True, 8, silent=True)
                        ok = ok and self.eq(st, v, e)
                    elif want in (1, 2):
                        ok = ok and self.eq(st, v, a1)
                    self.check(eng, st, 'S7 satisfying stores the given result', ok, '%s stores something else than its argument' % op)
            else:
                self.check(eng, st, 'S7 satisfying stores the given result', sett is None, '%s throws after the result was announced' % op)
                if code is not None:
                    self.check(eng, st, 'S8 a second result is refused with promise_already_satisfied', code == C['satisfied'] and last == ONE,
                               '%s raises code %s, result seen: %s' % (op, code, last))
            if last == ONE and sett is None:
                self.check(eng, st, 'S8 a second result is refused with promise_already_satisfied', kind == 'throw' and code == C['satisfied'],
                           '%s on a satisfied promise ends with %s' % (op, kind))
            return
        if op == 'call':
            r = m.get('run')
            ok = r is not None and r[4] == ('c', 1) and self.eq(st, r[1], p) and self.eq(st, r[3], eng.argvals[1])
            self.check(eng, st, 'K1 calling a task runs its function once with the arguments', ok, 'calling the task %s' % (
                'does not run it' if r is None else 'runs it %d times, or another one, or with other arguments' % r[4][1]))
            return
        if op in ('share',):
            self.check(eng, st, 'F1 moving, copying and swapping transfer the state', kind == 'ret' and self.eq(st, self.result(eng, st), p),
                       'share() does not hand the state on')
            return
        if op == 'reset':
            return
        # --- waiting
        timed = op.endswith(('_for', '_until'))
        if kind == 'ret':
            if timed:
                r = val if val is not None else U
                ready, to = ('c', C['ready']), ('c', C['timeout'])
                if self.eq(st, r, ready):
                    self.check(eng, st, 'F5 a timed wait reports ready exactly when the result is there', last == ONE, 'ready is reported without the result')
                else:
                    self.check(eng, st, 'F5 a timed wait reports ready exactly when the result is there', self.eq(st, r, to) and last == ZERO,
                               '%s is reported, result seen: %s' % (eng.where(r), last))
            else:
                self.check(eng, st, 'S9 waiting ends only with the result', last == ONE, '%s returns without having seen the result' % op)
        if op in ('get', 'sget'):
            self.taken(eng, st, kind, val, p)
        elif op in ('get_exception_ptr', 'sget_exception_ptr') and kind == 'ret':
            e = self.exc(eng, st, p)
            self.check(eng, st, 'F6 the stored result is delivered', self.eq(st, eng.load(st, ('p', 'a:ret', 0), 're', True, 8, silent=True), e),
                       'get_exception_ptr() returns something else than the stored exception')
        elif kind == 'throw':
            self.check(eng, st, 'F3 operations without a state raise no_state and change nothing', st.exc is not None and code is None, '%s throws' % op)

    def exc(self, eng, st, p):
        return self.get(st, 'exc', p, U)

    def taken(self, eng, st, kind, val, p):
        m = st.mon
        op = self.op
        l = self.state_lay(eng, p[1]) if p[0] == 'p' else None
        got = m['got']
        e = self.exc(eng, st, p)
        if kind == 'ret':
            none = st.known_eq(e, ZERO) is True
            self.check(eng, st, 'F6 the stored result is delivered', none, '%s returns normally although an exception may be stored' % op)
            if l is None or l.storage is None and l.ptr is None:
                return
            if l.ptr is not None:
                self.check(eng, st, 'F6 the stored result is delivered', val is not None and self.eq(st, val, self.get(st, 'ref', p, U)), '%s returns something else than the stored reference' % op)
            elif op == 'sget':
                self.check(eng, st, 'F6 the stored result is delivered', val == ('p', p[1], l.storage[0]), '%s returns something else than the stored value' % op)
            else:
                self.check(eng, st, 'F6 the stored result is delivered', got[0] == 'agg' and got[1] == ('c', 7) and got[2] == ('p', p[1], l.storage[0]) and
                           got[3] == ('p', 'a:ret', 0), '%s does not return the stored value' % op)
        elif got[0] == 'agg' and got[1] == ('c', 9):
            self.check(eng, st, 'F6 the stored result is delivered', self.eq(st, got[2], e) and st.known_eq(e, ZERO) is False, '%s raises something else than the stored exception' % op)
            self.check(eng, st, 'S9 waiting ends only with the result', self.get(st, 'last', p) == ONE, '%s raises without having seen the result' % op)
        else:
            self.check(eng, st, 'F6 the stored result is delivered', l is not None and l.storage is not None and val[1] is None and st.known_eq(e, ZERO) is True,
                       '%s fails although the result is a value' % op)

    def balance(self, eng, st, kind, ini, fin):
        """Every reference taken is kept by an object or given back."""
        m = st.mon
        xs = []
        for b, s, p, f in ini + fin:
            if p[0] == 'p' and p not in xs:
                xs.append(p)
        for X, n in m['refs']:
            if X not in xs:
                xs.append(X)
        res = []
        if kind == 'ret' and self.op in ('get_future', 'share'):
            res = [self.result(eng, st)]
        for X in xs:
            if st.known_eq(X, ZERO) is True:
                continue
            n = self.get(st, 'refs', X, 0)
            i = sum(1 for b, s, p, f in ini if self.eq(st, p, X))
            fl = [x for x in fin if self.eq(st, x[2], X)]
            e = len(fl) + sum(1 for r in res if self.eq(st, r, X))
            if self.op == 'reset' and not i:
                i = 1 if X not in m['created'] else 0     # the reference a virtual reset() hands over
            if not (n == 0 and i == e):
                possible_null = st.known_eq(X, ZERO) is None and X[1][:2] != 'h:'
                self.check(eng, st, 'C1 references to a state balance', n == e - i, '%s: %d objects referred to %s before, %d after, but the counter changes by %d' % (
                    self.op, i, eng.where(X), e, n))
            else:
                self.check(eng, st, 'C1 references to a state balance', True, '')

    # exceptions and references as last seen under the mutex
    def rely(self, eng, st, base, off, val):
        l = self.state_lay(eng, base)
        if l and isinstance(off, int):
            if self.held(eng, st, base):
                return 'keep'
            if off in (l.exc, l.ptr) and self.get(st, 'last', ('p', base, 0)) == ONE:
                return 'keep'
        return Rules.rely(self, eng, st, base, off, val)

    # ---------------------------------------------------------------- task objects, async
    def member_of(self, t, pred):
        r = [m for m in leaf_members(self.P, t) if pred(m)]
        return r

    def exit_state(self, eng, st, kind, val, code):
        m = st.mon
        X = ('p', 'this', 0)
        if self.role == 'run':
            n = m['fn']
            self.check(eng, st, 'K1 calling a task runs its function once with the arguments', n == ONE or n == ZERO and kind == 'terminate',
                       'the function is called %s times' % (n[1] if n[0] == 'c' else '?'))
            sett, last = self.get(st, 'settled', X), self.get(st, 'last', X)
            rule = 'K2 the outcome of the function becomes the result'
            unwind = kind == 'throw' and val[1] is not None and 'forced_unwind' in val[1]
            if kind == 'ret':
                self.check(eng, st, rule, sett is not None, 'the task ends without a result')
            elif kind == 'throw' and unwind:
                self.check(eng, st, 'K3 the unwinding of a fiber is not a result', sett is None, 'forced unwinding is stored as the result')
            elif kind == 'throw':
                self.check(eng, st, rule, sett is None and last == ONE and (code == self.consts['satisfied'] or code is None),
                           'the task throws although its result could be stored')
            if sett is not None:
                what, w = sett[1][1], sett[2]
                if what == 3:
                    self.check(eng, st, rule, m.get('cur') is not None and w == m['cur'], 'the stored exception is not the one that was raised')
                    self.check(eng, st, rule, m.get('threw') == ONE, 'an exception is stored although nothing was thrown')
                else:
                    out = m.get('out', U)
                    good = m.get('fthrew') == ZERO and (what == 4 or self.eq(st, w, out))
                    self.check(eng, st, rule, good, 'the stored value is not what the function returned')
        elif self.role == 'reset':
            rule = 'K4 reset makes a fresh task with the same function'
            if kind == 'ret':
                h = self.result(eng, st)
                t = eng.symty['this']
                l = self.lay(t)
                mv = m.get('fnmoved')
                fresh = len(m['created']) == 1 and self.eq(st, h, m['created'][0]) or len(m['got_mem']) == 1 and self.eq(st, h, m['got_mem'][0][1])
                self.check(eng, st, rule, fresh, 'the new state is not a freshly allocated one')
                self.check(eng, st, rule, mv is not None and self.eq(st, ('p', mv[2][1], 0), ('p', 'this', 0)) and self.eq(st, ('p', mv[1][1], 0), h) and
                           mv[1][2] == mv[2][2], 'the function is not handed to the new state')
                if h[0] == 'p':
                    self.check(eng, st, rule, st.truth(eng.load(st, ('p', h[1], l.ready), 'nr', False, 1, silent=True)) is False, 'the new state is ready')
                    self.check(eng, st, rule, self.get(st, 'refs', ('p', h[1], 0), 0) == 1, 'the new state is handed over with %s references' %
                               self.get(st, 'refs', ('p', h[1], 0), 0))
            elif kind == 'throw':
                self.check(eng, st, rule, not m['created'] and not m['got_mem'], 'memory of the new state leaks when its construction fails')
        elif self.role == 'free':
            rule = 'C2 the last reference destroys the state once and frees its memory'
            self.check(eng, st, rule, kind == 'ret' or kind == 'terminate', 'destroying a state can end with %s' % kind)
            if kind == 'ret':
                fr = m['freed']
                self.check(eng, st, rule, len(fr) == 1 and self.eq(st, fr[0], X), 'the memory of the state is %s' % (
                    'not freed' if not fr else 'freed %d times, or other memory' % len(fr)))
                t = eng.symty['this']
                l = self.lay(t)
                if l.storage is not None:
                    want = st.mon['r0']
                    e0 = st.mon['e0']
                    has = None if st.truth(want) is None else st.truth(want) and (None if st.known_eq(e0, ZERO) is None else st.known_eq(e0, ZERO))
                    n = m['vdtor'][1]
                    if st.truth(want) is False or st.known_eq(e0, ZERO) is False:
                        self.check(eng, st, 'C3 a stored value is destroyed with its state', n == 0, 'a value that was never stored is destroyed')
                    else:
                        self.check(eng, st, 'C3 a stored value is destroyed with its state', n == 1 and has is True, 'the stored value is destroyed %d times%s' % (
                            n, '' if has else ', without looking whether there is one'))
                fns = [x for x in leaf_members(self.P, t) if x[1].split('.')[0].startswith('fn')] if self.fnoff is None else [self.fnoff]
                if fns:
                    self.check(eng, st, 'C4 the function of a task is destroyed with its state', m['fdtor'] == ONE, 'the function object is destroyed %d times' % m['fdtor'][1])

    def launch(self, eng, st, fn, args):
        """A fiber is constructed from a task (summarised: it takes the task over)."""
        m = st.mon
        P = self.P
        task, rest = None, []
        for k, a in enumerate(args):
            if k == 0:
                continue
            var = fn.vars.get((k, 'v'))
            t = var[0] if var else None
            pt = P.pointee(t) if t is not None else None
            ty = pt if pt is not None else t
            if ty is not None and '<' in P.tname(ty) and bare(P.tname(ty)).replace('const ', '') == NS + 'packaged_task':
                task = (a, ty)
            else:
                v = a
                if a[0] == 'p' and pt is not None:
                    v = eng.load(st, a, 'la%d' % k, False, P.types.get(pt, {}).get('sz') or 8, silent=True)
                rest.append(v)
        if task is None:
            return False
        a, ty = task
        s = self.slot(ty)
        p = eng.load(st, ('p', a[1], addo(a[2], s.ptr)), 'lt', True, 8, silent=True)
        f = eng.load(st, ('p', a[1], addo(a[2], s.flag)), 'lf', False, 1, silent=True)
        m['launched'] = m['launched'] + (('agg', p, f, ('agg',) + tuple(rest)),)
        eng.store(st, ('p', a[1], addo(a[2], s.ptr)), ZERO, silent=True)
        eng.store(st, ('p', a[1], addo(a[2], s.flag)), ZERO, silent=True)
        m['fiber'] = args[0]
        return True

    def exit_async(self, eng, st, kind, val, code):
        m = st.mon
        rule = 'K5 async runs the function in a detached fiber and returns its future'
        if kind != 'ret':
            self.check(eng, st, rule, kind != 'throw' or code is None, 'async itself fails with an error of futures (code %s)' % code)
            return
        L = m['launched']
        self.check(eng, st, rule, len(L) == 1, '%d fibers are launched' % len(L))
        if len(L) != 1:
            return
        l = L[0]
        self.check(eng, st, rule, st.known_eq(l[1], ZERO) is not True and self.eq(st, self.result(eng, st), l[1]), 'the future belongs to another state than the launched task')
        self.check(eng, st, rule, st.truth(l[2]) is True, 'the launched task does not know that its future is in use')
        self.check(eng, st, rule, m.get('detached') == ONE, 'the fiber is not detached')
        mv = m.get('fncopied')
        fa = [a for k, a in enumerate(eng.argvals) if self.argtype(k) == 'Fn']
        self.check(eng, st, rule, mv is not None and len(fa) == 1 and self.eq(st, mv[2], fa[0]), 'the task does not hold the given function')
        # everything else is passed on
        rest = list(l[3][1:])
        for k, a in enumerate(eng.argvals):
            n = self.argtype(k)
            if n.endswith('launch') or n == 'int':
                self.check(eng, st, 'K6 async passes policy, stack allocator and arguments on', any(self.eq(st, a, r) for r in rest), 'parameter %d is not passed to the fiber' % k)
            elif 'fixedsize_stack' in n:
                v = eng.load(st, a, 'sa', False, 8, silent=True)
                self.check(eng, st, 'K6 async passes policy, stack allocator and arguments on', any(self.eq(st, v, r) for r in rest), 'the stack allocator is not passed to the fiber')
            elif n.startswith('Al<'):
                self.check(eng, st, 'K6 async passes policy, stack allocator and arguments on', len(m['got_mem']) == 1 and not m['created'], 'the allocator is not used for the state')

    def argtype(self, k):
        var = self.fn.vars.get((k, 'v'))
        if not var:
            return ''
        t = self.P.pointee(var[0])
        return self.P.tname(t if t is not None else var[0]).replace('const ', '')

    def resolve_virtual(self, eng, st, base, off, slot, name):
        if self.role == 'free' and base == 'this':
            return self.P.vtable(eng.symty.get('this'), slot)
        return None

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == 'Al::allocate':
            s2 = st.copy()
            s2.say('%s: allocate() throws' % eng.loc(s2))
            s, v = models.m_new(eng, st, fr, i, fn, args)[-1]
            eng.symdesc[v[1]] = 'allocate()'
            s.mon['created'] = tuple(c for c in s.mon['created'] if c != v)
            s.mon['got_mem'] = s.mon['got_mem'] + (('agg', v),)
            return [(s2, ('throw', None)), (s, v)]
        if fn.short == NS + 'fiber::fiber' and len(args) >= 2 and self.launch(eng, st, fn, args):
            s2 = st.copy()
            s2.say('%s: launching the fiber throws' % eng.loc(s2))
            st.say('%s: the fiber takes the task' % eng.loc(st))
            eng.store(st, args[0], ('p', 'nn:launched', 0), silent=True)
            return [(s2, ('throw', None)), (st, None)]
        if fn.short in (NS + 'fiber::detach', NS + 'fiber::~fiber'):
            if fn.short.endswith('detach'):
                st.mon['detached'] = ONE if args[0] == st.mon.get('fiber') else st.mon.get('detached', ZERO)
            return [(st, None)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    role = None
    fnoff = None


def addo(a, b):
    return a + b if isinstance(a, int) else a


class Reads(FM):
    """FM plus bookkeeping of the content read under the mutex (kept in the monitor)."""
    def cs_end(self, eng, st, X, l):
        FM.cs_end(self, eng, st, X, l)
        if self.get(st, 'last', ('p', X, 0)) == ONE and self.get(st, 'exc', ('p', X, 0)) is None:
            self.put(st, 'exc', ('p', X, 0), self.cell(eng, st, X, l.exc, True, 8))
            if l.ptr is not None:
                self.put(st, 'ref', ('p', X, 0), self.cell(eng, st, X, l.ptr, True, 8))


class ErrCtor(Mon):
    def __init__(self, codes):
        self.codes = codes

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == NS + 'future_error::future_error' and self.code is not None:
            pass
        return None

    code = None

    def on_event(self, eng, st, ev):
        if ev.k == 'make_error_code':
            c = ev.code
            self.codes[self.fn.short.rsplit('::', 1)[0]] = c[1] if c[0] == 'c' else -1


ERRORS = ('future_uninitialized', 'future_already_retrieved', 'broken_promise', 'promise_already_satisfied', 'promise_uninitialized', 'packaged_task_uninitialized')


def load(ctx):
    P = ctx.load(UNITS)
    codes = {}
    for e in ERRORS:
        for f in ctx.functions(P, '%s::%s' % (e, e), np=0):
            r = ErrCtor(codes)
            r.inline = (f.short,)
            ctx.explore(P, f, r)
    consts = {k: constant(P, n)[1] for k, n in (('broken', 'e_broken'), ('retrieved', 'e_retrieved'), ('satisfied', 'e_satisfied'),
                                                ('nostate', 'e_nostate'), ('ready', 'st_ready'), ('timeout', 'st_timeout'))}
    return P, codes, consts


def wrappers(P, kinds):
    out = []
    for f in P.fns.values():
        if f.defined and f.short.startswith('use::'):
            k = f.short.split('::')[1]
            if k in kinds or any(k.startswith(x) and x.endswith('_') for x in kinds):
                out.append(f)
    return sorted(out, key=lambda f: f.dem)


def explore(ctx, prefixes, kinds, ops=None):
    P, codes, consts = load(ctx)
    lay, slots = {}, {}
    n = 0
    virts = {}
    for f in wrappers(P, kinds):
        if ops and f.short.split('::')[-1] not in ops:
            continue
        ctx.explore(P, f, Reads(P, codes, consts, prefixes, lay, slots, virts))
        n += 1
        if f.short.split('::')[-1] in ('massign', 'smassign', 'scassign', 'swap_m', 'swap_f'):
            ctx.explore(P, f, Reads(P, codes, consts, prefixes, lay, slots, virts), args={1: ('p', 'nn:arg0', 0)})
    if not n:
        raise Broken('anchor vanished: no wrappers for %s' % (kinds,))
    roles = {'call': 'run', 'reset': 'reset', 'free': 'free'}
    for op, role in roles.items():
        if not (op == 'free' and 'C' in prefixes or op != 'free' and ('K' in prefixes or 'S' in prefixes)):
            continue
        k = 0
        for v in sorted(virts.get(op, ())):
            for f in sorted(P.fns.values(), key=lambda f: f.dem):
                if f.defined and f.short.endswith('::' + v) and f.short[:-len(v) - 2] in STATES and f.cls is not None:
                    ctx.explore(P, f, Reads(P, codes, consts, prefixes, lay, slots, {}, role))
                    k += 1
        if not k and (op == 'free' or 'Task' in kinds):
            raise Broken('anchor vanished: no implementation of the virtual function behind %s' % op)
    return P, codes, consts
