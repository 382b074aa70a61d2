"""Every operation on fiber ids is explored for all ways in which two ids can relate (none of a fiber, the same fiber, one fiber's control block before or after the other's):
what it returns must be decided by that relation alone, equality must mean the same fiber, and the comparisons must together be one strict total order.  The id of a
fiber is taken from nothing but the address of its control block, the hash from nothing but the id."""
from rules.common import *
import rules.common as common
ASSUME = ['addresses are totally ordered by the built-in comparison of pointers', 'std::hash of a pointer depends on the pointer only']
I1 = 'I1 ids are equal exactly if they are the same fiber\'s, or both none\'s'
I2 = 'I2 the comparisons of ids form one strict total order'
I3 = 'I3 an id is empty exactly if it is no fiber\'s'
I4 = 'I4 the hash of an id depends on the id only'
I5 = 'I5 every fiber\'s id is its own'
A, B = ('p', 'nn:ida', 0), ('p', 'nn:idb', 0)
# relation: (first, second, facts, their order)
REL = {'same': (A, A, (), 0), 'none': (ZERO, ZERO, (), 0), 'before': (A, B, ((mkcmp('ult', A, B, 64), True), (mkcmp('eq', A, B, 64), False)), -1),
       'after': (A, B, ((mkcmp('ult', B, A, 64), True), (mkcmp('eq', A, B, 64), False)), 1),
       'none and some': (ZERO, B, ((mkcmp('ult', ZERO, B, 64), True), (mkcmp('eq', B, ZERO, 64), False)), -1),
       'some and none': (A, ZERO, ((mkcmp('ult', ZERO, A, 64), True), (mkcmp('eq', A, ZERO, 64), False)), 1)}


class Ids(Mon):
    inline_prefix = ('boost::fibers::', 'boost::this_fiber', 'use::', 'std::less', 'std::greater', 'std::equal_to', 'std::not_equal_to', 'std::hash',
                     'boost::intrusive_ptr', 'std::addressof', 'std::__addressof', 'std::compare_three_way')
    sequential = True

    def __init__(self, P, rel, got):
        self.P, self.rel, self.got = P, rel, got

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == NS + 'context::active':
            return [(st, ACTIVE)]
        if fn.short in ('std::hash::operator()',) and not fn.defined or fn.short == 'std::_Hash_bytes':
            return [(st, ('o', 'hash', args[-1], 64))]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def start(self, eng, st):
        self.op = self.fn.short.rsplit('::', 1)[-1]
        for b in (A, B):
            st.names.add(b[1])
            eng.roots.add(b[1])
            eng.symdesc[b[1]] = 'fiber ' + b[1][-1]
        if self.rel is None:
            return
        a, b, facts, o = REL[self.rel]
        for e, v in facts:
            st.facts[e] = v
        ps = [v for v in eng.argvals if v[0] == 'p' and v[1] != 'a:ret']
        for p, v in zip(ps, (a, b)):
            st.mem[(p[1], p[2])] = v

    def exit(self, eng, st, kind, val):
        op = self.op
        if kind != 'ret':
            self.check(eng, st, I1 if op in ('eq', 'ne') else I2, False, 'leaves by %s' % kind)
            return
        if op in ('me', 'of'):
            v = val
            if self.fn.sret:
                v = eng.load(st, ('p', 'a:ret', 0), 'idv', True, 8, silent=True)
            want = ACTIVE if op == 'me' else next(x for x in eng.argvals if x[0] == 'p' and x[1] != 'a:ret')
            self.check(eng, st, I5, v is not None and st.known_eq(v, want) is True, 'the id is %s' % eng.where(v))
            return
        if op == 'hash':
            out = set()
            from engine import syms_of
            syms_of(val, out)
            self.got.setdefault(op, {}).setdefault(self.rel, []).append(val)
            bad = {s for s in out if s not in (A[1], 'nn:arg0', 'arg0')}
            self.check(eng, st, I4, not bad, 'the hash depends on %s' % ', '.join(sorted(bad)))
            return
        t = st.truth(val) if val[0] != 's' else st.truth(val)
        self.check(eng, st, I3 if op in ('yes', 'no', 'none') else I1 if op in ('eq', 'ne') else I2, t is not None,
                   'for %s the result is %s' % (self.rel, eng.where(val)))
        self.got.setdefault(op, {}).setdefault(self.rel, []).append(t)
        if self.rel is not None:
            o = REL[self.rel][3]
            if op == 'eq' or op == 'ne':
                self.check(eng, st, I1, t is ((o == 0) == (op == 'eq')), '%s compares as %s' % (self.rel, t))
            if op in ('le', 'ge', 'lt', 'gt', 'handles') and o == 0:
                self.check(eng, st, I2, t is (op in ('le', 'ge')), 'for %s %s is %s' % (self.rel, op, t))
            if op in ('yes', 'no'):
                self.check(eng, st, I3, t is ((REL[self.rel][0] != ZERO) == (op == 'yes')), 'an id of %s is %s' % ('a fiber' if REL[self.rel][0] != ZERO else 'none', t))
        elif op == 'none':
            self.check(eng, st, I3, t is False, 'a fresh id claims to be a fiber\'s')


class Same(Ids):
    """Comparison of the fibers themselves."""
    def start(self, eng, st):
        self.op = self.fn.short.rsplit('::', 1)[-1]
        for b in (A, B):
            st.names.add(b[1])
            eng.roots.add(b[1])
        for e, v in REL[self.rel][2]:
            st.facts[e] = v

    def exit(self, eng, st, kind, val):
        t, o = st.truth(val), REL[self.rel][3]
        self.got.setdefault(self.op, {}).setdefault(self.rel, []).append(t)
        if self.op == 'fibers_eq':
            self.check(eng, st, I1, t is (o == 0), 'two references to %s compare as %s' % ('one fiber' if o == 0 else 'different fibers', t))
        elif o == 0:
            self.check(eng, st, I2, t is False, 'a fiber comes before itself')


def run(ctx):
    P = ctx.load(['tu/ids.cpp', 'src/context.cpp', 'src/fiber.cpp'])
    got = {}
    fs = {f.short.rsplit('::', 1)[-1]: f for f in P.fns.values() if f.defined and f.short.startswith('use::ids::')}
    if len(fs) != 15:
        raise Broken('anchor vanished: operations on ids (%d)' % len(fs))
    for n in sorted(fs):
        if n.startswith('fibers_'):
            for r in ('same', 'before', 'after'):
                ctx.explore(P, fs[n], Same(P, r, got), None, dict(enumerate(REL[r][:2])))
        elif n in ('me', 'of', 'none'):
            ctx.explore(P, fs[n], Ids(P, None, got))
        else:
            for r in sorted(REL):
                ctx.explore(P, fs[n], Ids(P, r, got))
    one = lambda op, r: got.get(op, {}).get(r, [None])[0]
    # one order for all of them, total on different ids
    for x, y in (('before', 'after'), ('none and some', 'some and none')):
        for op, mirror in (('lt', False), ('handles', False), ('gt', True), ('le', False), ('ge', True)):
            l = one(op, x)
            r = one(op, y)
            ctx.ok(I2, 'use::ids::' + op)
            if l is None or r is None or l is r or l is not (one('lt', 'before') is (not mirror)):
                ctx.violation(I2, 'boost::fibers::context::id (%s)' % op, 'for ids %s it yields %s, the other way round %s, while < yields %s' % (x, l, r, one('lt', 'before')), 'include/boost/fiber/context.hpp')
    l, r = one('fibers_lt', 'before'), one('fibers_lt', 'after')
    ctx.ok(I2, 'use::ids::fibers_lt')
    if l is None or r is None or l is r:
        ctx.violation(I2, 'operator<(context const&, context const&)', 'two fibers compare as %s and %s' % (l, r), 'include/boost/fiber/context.hpp')
    for r, n in ((I1, 3), (I2, 5), (I3, 2), (I4, 1), (I5, 2)):
        ctx.require(r, n)
