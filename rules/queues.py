"""Intrusive containers of fibers, abstracted to: empty / not empty with a known first element /
unknown, and whose contents they hold.  Taking an element out is an event ('took'), adding one is
('put'); iterators are the element they point at, null at the end."""
import re
from rules.common import *
from models import aptr, ulock

CONT = re.compile(r'^boost::intrusive::(?:list|slist|multiset|set|list_impl|slist_impl|multiset_impl|set_impl|bstree_impl|rbtree_impl|rbtree|bstree|bstbase\d?|bstbase_hack)::(~?\w+)$')
ITER = re.compile(r'^boost::intrusive::(?:tree|list|slist)_iterator::(operator\S+|pointed_node|\w+_iterator|unconst)$')
NOPS = ('get_value_traits', 'get_real_value_traits')


class Queues(Mon):
    """mon['q']: ((container, state, first, origin), ...); origin names the container(s) the contents come from."""
    keep_order = False

    def q(self, st, p):
        for e in st.mon.get('q', ()):
            if e[0] == p:
                return e
        return (p, 'U', U, (p,))

    def setq(self, st, p, state, first=U, org=None):
        old = self.q(st, p)
        st.mon['q'] = tuple(e for e in st.mon.get('q', ()) if e[0] != p) + ((p, state, first, old[3] if org is None else org),)

    def forget(self, st, keep=()):
        """Somebody else ran: contents of shared containers are unknown."""
        st.mon['q'] = tuple(e for e in st.mon.get('q', ()) if e[0] in keep or e[0][1].startswith('a:') and e[0][1] not in st.esc)

    def elem(self, eng, st, fr, i, fn, p):
        v = eng.fresh(st, 'nn:el', '%d.%s' % (fr.ctx, i.get('i', 0)), True, self.eltype, eng.where(p) + '[..]')
        self.new_elem(eng, st, p, v)
        return v

    def new_elem(self, eng, st, p, v):
        pass

    def take(self, eng, st, p, v, how):
        org = self.q(st, p)[3]
        st.say('%s: takes %s out of %s' % (eng.loc(st), eng.where(v), eng.where(p)))
        eng.emit(st, Ev(k='took', c=p, val=v, org=org, how=how, held=st.locks))

    def split(self, eng, st, fr, i, fn, p):
        """[(state, first element or ZERO)]: the container is empty or not."""
        _, s, f, org = self.q(st, p)
        if s == 'E':
            return [(st, ZERO)]
        if s == 'N':
            if f == U:
                f = self.elem(eng, st, fr, i, fn, p)
                self.setq(st, p, 'N', f)
            return [(st, f)]
        s2 = st.copy()
        self.setq(s2, p, 'E')
        s2.say('%s: %s is empty' % (eng.loc(s2), eng.where(p)))
        f = self.elem(eng, st, fr, i, fn, p)
        self.setq(st, p, 'N', f)
        st.say('%s: %s is not empty' % (eng.loc(st), eng.where(p)))
        return [(s2, ZERO), (st, f)]

    def model(self, eng, st, fr, i, fn, args):
        m = CONT.match(fn.short)
        if m:
            r = self.container(eng, st, fr, i, fn, args, m.group(1))
            if r is not None:
                return r
        m = ITER.match(fn.short)
        if m:
            op = m.group(1)
            if op in ('operator*', 'operator->', 'pointed_node'):
                return [(st, eng.load(st, args[0], 'it%d' % fr.ctx, True, 8, silent=True))]
            if op in ('operator=', 'unconst') or op.endswith('_iterator') and len(args) == 2:
                src = args[-1]
                if src[0] == 'p' and (len(args) == 2 or 'i' in i):
                    v = eng.load(st, src, 'itc', True, 8, silent=True)
                    if len(args) == 1:
                        return [(st, v)]
                    eng.store(st, args[0], v, i, silent=True)
                    return [(st, args[0] if 'i' in i else None)]
            if op in ('operator++', 'operator--'):
                return self.step(eng, st, fr, i, fn, args)
        if fn.short.startswith('boost::intrusive::') and fn.short.split('::')[-1] in ('iterator_to', 's_iterator_to'):
            if fn.sret:
                eng.store(st, aptr(args[0]), args[-1], i, silent=True)
                return [(st, None)]
            return [(st, args[-1])]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def step(self, eng, st, fr, i, fn, args):
        # whose element it is at is not tracked: the next one is unknown, or the end
        s2 = st.copy()
        out = []
        cur = eng.load(st, args[-1] if fn.np == 0 and 'i' in i else args[0], 'it', True, 8, silent=True)
        for s, last in ((s2, True), (st, False)):
            v = ZERO if last else self.elem(eng, s, fr, i, fn, ('p', '?', 0))
            it = args[0]
            eng.store(s, it, v, i, silent=True)
            r = (it if i['t'] == 'ptr' and fn.np == 0 else cur) if 'i' in i else None
            out.append((s, r))
        return out

    def container(self, eng, st, fr, i, fn, args, op):
        cls = fn.short.split('::')[-2]
        sret = fn.sret
        p = aptr(args[1] if sret else args[0])
        a = args[2:] if sret else args[1:]

        def ret(s, v):
            if sret:
                eng.store(s, aptr(args[0]), v, i, silent=True)
                return (s, None)
            return (s, v if 'i' in i else None)
        if op == cls:
            self.setq(st, p, 'E', org=())
            return [(st, None)]
        if op == '~' + cls:
            eng.emit(st, Ev(k='destroyed', c=p, state=self.q(st, p)[1]))
            return [(st, None)]
        if op == 'empty':
            return [(s, ONE if v == ZERO else ZERO) for s, v in self.split(eng, st, fr, i, fn, p)]
        if op == 'size':
            out = []
            for s, v in self.split(eng, st, fr, i, fn, p):
                n = ZERO
                if v != ZERO:
                    n = eng.fresh(s, 'qsize', '%d.%d' % (fr.ctx, i.get('i', 0)), False, None, 'size()')
                    eng.assume(s, mkcmp('eq', n, ZERO, 64), False)
                out.append((s, n))
            return out
        if op in ('front', 'begin', 'cbegin', 'top'):
            if op == 'front' and self.q(st, p)[1] == 'U':
                self.setq(st, p, 'N')
            eng.emit(st, Ev(k='peek', c=p, op=op, held=st.locks))
            return [ret(s, v) for s, v in self.split(eng, st, fr, i, fn, p)]
        if op == 'back':
            return [(st, self.elem(eng, st, fr, i, fn, p))]
        if op in ('end', 'cend'):
            return [ret(st, ZERO)]
        if op == 'pop_front':
            f = self.q(st, p)[2]
            if f == U:
                f = self.elem(eng, st, fr, i, fn, p)
            self.setq(st, p, 'U')
            self.take(eng, st, p, f, op)
            return [(st, None)]
        if op == 'pop_back':
            f = self.elem(eng, st, fr, i, fn, p)
            self.setq(st, p, 'U')
            self.take(eng, st, p, f, op)
            return [(st, None)]
        if op in ('push_back', 'push_front', 'insert', 'insert_equal', 'push'):
            v = a[-1]
            e = self.q(st, p)
            if op == 'push_front' or e[1] == 'E' and op != 'insert':
                self.setq(st, p, 'N', v)
            elif op == 'insert':
                self.setq(st, p, 'N')
            else:
                self.setq(st, p, 'N', e[2] if e[1] == 'N' else U)
            st.say('%s: puts %s into %s' % (eng.loc(st), eng.where(v), eng.where(p)))
            eng.emit(st, Ev(k='put', c=p, val=v, op=op, held=st.locks))
            if eng.shared(st, p[1]):
                eng.escape(st, v)
            return [ret(st, v)]
        if op in ('erase', 'remove'):
            v = a[0]
            if v[0] == 'p' and op == 'erase' and v[1][:2] == 'a:':
                v = eng.load(st, v, 'ier', True, 8, silent=True)
            was = self.q(st, p)
            self.take(eng, st, p, v, op)
            self.setq(st, p, 'U')
            if op == 'erase' and ('i' in i or sret):
                if was[2] == v:
                    return [ret(s, w) for s, w in self.split(eng, st, fr, i, fn, p)]
                s2 = st.copy()
                return [ret(s2, ZERO), ret(st, self.elem(eng, st, fr, i, fn, p))]
            return [(st, None)]
        if op == 'swap':
            b = aptr(a[0])
            ea, eb = self.q(st, p), self.q(st, b)
            self.setq(st, p, eb[1], eb[2], eb[3])
            self.setq(st, b, ea[1], ea[2], ea[3])
            eng.emit(st, Ev(k='swapped', c=p, other=b, held=st.locks))
            st.say('%s: swaps %s and %s' % (eng.loc(st), eng.where(p), eng.where(b)))
            return [(st, None)]
        if op == 'splice' or op == 'splice_after':
            b = aptr(a[1] if len(a) > 1 else a[0])
            eb = self.q(st, b)
            self.setq(st, p, 'U' if eb[1] != 'N' else 'N', org=self.q(st, p)[3] + eb[3])
            self.setq(st, b, 'E')
            eng.emit(st, Ev(k='swapped', c=b, other=p, held=st.locks))
            return [(st, None)]
        if op == 'clear':
            e = self.q(st, p)
            if e[1] != 'E':
                self.take(eng, st, p, e[2] if e[2] != U else self.elem(eng, st, fr, i, fn, p), op)
            self.setq(st, p, 'E')
            return [(st, None)]
        return None
