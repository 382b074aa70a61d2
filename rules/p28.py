"""The functions that tie properties to fibers are explored over all paths for an opaque algorithm and properties class: waking (awakened of algorithm_with_properties), changing,
creating and looking up properties, notify, replacing and destroying them, and every way of launching a fiber with properties of its own.  Objects are followed by identity."""
from rules.common import *
from rules.life import Life, Lay, UNITS, top_members
ASSUME = ['new_properties() returns an object, as the algorithm\'s documentation requires', 'a fiber is linked into a ready queue exactly while the algorithm tracks it (P24)',
          'properties handed to a fiber constructor are not used for another fiber']
R = {1: 'H1 an algorithm sees a fiber only with its properties', 2: 'H2 properties are created once and kept', 3: 'H3 properties know their fiber and the algorithm that last readied it',
     4: 'H4 a change of a ready fiber reaches its algorithm, once', 5: 'H5 a fiber owns its properties and destroys them once', 6: 'H6 looking up properties yields those of that fiber',
     7: 'H7 a launched fiber has the given properties before it can run'}


class Off:
    def __init__(self, P, algo=True):
        c = record(P, NS + 'context')
        self.c = c
        self.props = member(P, c, lambda m: m[2] == NS + 'fiber_properties*', 'properties')[0]
        r = [m for m in top_members(P, c) if m[2].endswith('::ready_hook') or 'detail::ready_tag' in m[2]]
        if len(r) != 1:
            raise Broken('anchor vanished: ready hook')
        self.ready = r[0][0], P.types[r[0][3]].get('sz') or 8
        p = record(P, NS + 'fiber_properties')
        self.ctx = member(P, p, lambda m: m[2] == NS + 'context*', 'fiber of properties')[0]
        self.algo = member(P, p, lambda m: m[2].endswith('algo::algorithm*'), 'algorithm of properties')[0]
        if not algo:
            return
        b = record(P, NS + 'algo::algorithm_with_properties_base')
        # what an algorithm with properties implements is the only function of its base that this adds
        a = {n for vi, n, ln in P.types[record(P, NS + 'algo::algorithm')].get('vf', ())}
        v = [(vi, n) for vi, n, ln in P.types[b].get('vf', ()) if n not in a and n[:1] != '~']
        if len(v) != 1:
            raise Broken('anchor vanished: the virtual function that announces a change of properties')
        self.change, self.chname = v[0]


class Props(Mon):
    def __init__(self, P, o, op=None):
        self.P, self.o, self.as_op = P, o, op

    def rely(self, eng, st, base, off, val):
        return 'havoc' if self.op == 'self' and off == self.o.props else 'keep'

    def start(self, eng, st):
        o = self.o
        self.op = self.as_op or self.fn.short.rsplit('::', 1)[-1]
        self.A = eng.argvals
        c = {'ready': 1, 'change': 1, 'make': 1, 'of': 1}.get(self.op)
        self.ctxp = self.A[c] if c is not None else None
        if self.ctxp:
            st.facts[mkcmp('eq', self.ctxp, ZERO, 64)] = False
        if self.op in ('set', 'notify'):
            st.mon['alg'] = eng.load(st, ('p', self.A[0][1], o.algo), 'al', True, 8, silent=True)
            st.mon['own'] = eng.load(st, ('p', self.A[0][1], o.ctx), 'oc', True, 8, silent=True)
        if self.op in ('set_properties', '~context', 'ready', 'of'):
            x = self.ctxp or ('p', 'this', 0)
            st.mon['p0'] = eng.load(st, ('p', x[1], o.props), 'p0', True, 8, silent=True)
        if self.op == 'of':
            st.facts[mkcmp('eq', st.mon['p0'], ZERO, 64)] = False
        st.mon.update(calls=(), linked=U, made=(), dead=(), n=ZERO, cast=U)

    def model(self, eng, st, fr, i, fn, args):
        if fn.short.startswith(('std::map', 'boost::context::fiber::')):
            return [(st, None)]
        return None

    def base(self, eng, st, p):
        return p[1] if p[0] == 'p' else eng.opaque_base(st, p)

    def on_event(self, eng, st, ev):
        m, o, k, op = st.mon, self.o, ev.k, self.op
        if k == 'hook' and ev.op == 'is_linked' and o.ready[0] <= ev.h[2] < o.ready[0] + o.ready[1] and st.known_eq(('p', ev.h[1], 0), m['own']) is True:
            m['linked'] = ev.val
        elif k in ('precall', 'call') and ev.get('name') == '__assert_fail' and op == 'set':
            l = st.truth(m['linked']) if m['linked'] != U else None
            self.check(eng, st, R[4], l is True, 'with assertions on, changing properties of a fiber that is not ready aborts')
        elif k == 'dynamic_cast':
            m['cast'] = ev.val
        elif k == 'call' and ev.fn is None and not ev.get('threw'):
            v = ev.virt
            if v == 'new_properties':
                self.check(eng, st, R[2], len(ev.args) == 2 and ev.args[1] == self.ctxp, 'properties are created for another fiber')
                m['made'] = m['made'] + (ev.res,)
                st.facts[mkcmp('eq', ev.res, ZERO, 64)] = False
            elif v == 'awakened':
                m['calls'] = m['calls'] + ((ev.args[1], ev.args[2] if len(ev.args) > 2 else U),)
                if self.op == 'ready':
                    own = eng.load(st, ('p', self.ctxp[1], o.props), 'pn', True, 8, silent=True)
                    al = eng.load(st, ('p', self.base(eng, st, own), o.algo), 'pa', True, 8, silent=True)
                    self.check(eng, st, R[1], st.known_eq(own, ZERO) is False, 'the algorithm gets a fiber without properties')
                    self.check(eng, st, R[1], len(ev.args) == 3 and ev.args[1] == self.ctxp and st.known_eq(ev.args[2], own) is True, 'the algorithm gets properties of another fiber')
                    self.check(eng, st, R[3], st.known_eq(al, self.A[0]) is True, 'the properties refer to %s when the algorithm gets the fiber' % eng.where(al))
            elif v in ('property_change', o.chname) or len(ev.args) == 3 and eng.vslot == o.change and v is None:
                m['calls'] = m['calls'] + (ev.args,)
            elif v is None and len(ev.args) == 1:
                m['dead'] = m['dead'] + (ev.args[0],)
                s = eng.vslot
                t = eng.symty.get(ev.args[0][1]) if ev.args[0][0] == 'p' else None
                if t is not None and not (s and self.P.vfn(t, s - 1) is None):
                    m['n'] = ONE        # destroyed in place

    def exit(self, eng, st, kind, val):
        m, o, op, A = st.mon, self.o, self.op, self.A
        if kind == 'terminate' or kind == 'unreachable':
            return
        if op in ('handle', 'self', 'of'):
            own = A[0] if op == 'handle' else None
            if op == 'self':
                x = ACTIVE
            elif op == 'handle':
                x = eng.load(st, ('p', A[0][1], 0), 'hx', True, 8, silent=True)
            else:
                x = A[1]
            want = eng.load(st, ('p', self.base(eng, st, x), o.props), 'px', True, 8, silent=True)
            if kind == 'throw':         # a failed cast
                val = m['cast']
            self.check(eng, st, R[6], st.known_eq(val, want) is True, 'yields %s' % eng.where(val))
            return
        if kind != 'ret':
            self.check(eng, st, R[1], op == 'make', 'ends with %s' % kind)
            return
        if op == 'ready':
            self.check(eng, st, R[1], len(m['calls']) == 1, 'the algorithm is told %d times' % len(m['calls']))
            had = st.known_eq(m['p0'], ZERO)
            now = eng.load(st, ('p', self.ctxp[1], o.props), 'pe', True, 8, silent=True)
            self.check(eng, st, R[2], had is not None and len(m['made']) == (1 if had else 0), 'properties are created %d times%s' % (
                len(m['made']), '' if had else ' for a fiber that has some'))
            if had and m['made']:
                self.check(eng, st, R[2], st.known_eq(now, m['made'][0]) is True, 'the created properties are not kept')
            elif had is False:
                self.check(eng, st, R[2], st.known_eq(now, m['p0']) is True and not m['dead'], 'the properties of the fiber are replaced')
        elif op == 'change':
            self.check(eng, st, R[4], len(m['calls']) == 1 and m['calls'][0][1:] == (A[1], A[2]), 'the change is handed on %d times%s' % (len(m['calls']), ', with other arguments' if m['calls'] else ''))
        elif op == 'set':
            l = st.truth(m['linked']) if m['linked'] != U else None
            none = st.known_eq(m['own'], ZERO)
            self.check(eng, st, R[4], none is not None, 'the fiber is used without looking whether the properties have one')
            if none:
                l = False
                self.check(eng, st, R[4], m['linked'] == U, 'the fiber of properties without one is looked at')
            self.check(eng, st, R[4], l is not None, 'a change is announced without looking whether the fiber is ready')
            if l:
                self.check(eng, st, R[4], len(m['calls']) == 1 and st.known_eq(m['calls'][0][0], m['alg']) is True and st.known_eq(m['calls'][0][1], m['own']) is True and m['calls'][0][2] == A[0],
                           'a change of a ready fiber is announced %d times%s' % (len(m['calls']), ', with other arguments' if m['calls'] else ''))
            else:
                self.check(eng, st, R[4], not m['calls'], 'a change of a fiber that is not ready is announced')
        elif op == 'make':
            f = eng.load(st, ('p', self.base(eng, st, val), o.ctx), 'mc', True, 8, silent=True)
            self.check(eng, st, R[3], st.known_eq(f, A[1]) is True, 'new properties refer to the fiber %s' % eng.where(f))
        elif op == 'set_properties':
            now = eng.load(st, ('p', 'this', o.props), 'ps', True, 8, silent=True)
            self.check(eng, st, R[2], st.known_eq(now, A[1]) is True, 'the fiber has properties %s' % eng.where(now))
            self.dead(eng, st, 'replaced')
        elif op == '~context':
            self.dead(eng, st, 'the fiber is destroyed')

    def dead(self, eng, st, what):
        m = st.mon
        none = st.known_eq(m['p0'], ZERO)
        d = [x for x in m['dead'] if st.known_eq(x, m['p0']) is True]
        self.check(eng, st, R[5], none is True and not m['dead'] or none is not True and len(d) == 1 and len(m['dead']) == 1 and m['n'] == ZERO,
                   'properties are destroyed %d times when %s%s' % (len(m['dead']), what, ', and not freed' if m['n'] != ZERO else ''))


class Launch(Life):
    prefixes = ''

    def __init__(self, P, lay, consts, o):
        Life.__init__(self, P, lay, consts, '')
        self.o = o

    def start(self, eng, st):
        Life.start(self, eng, st)
        self.pr = next((v for v in eng.argvals if v[0] == 'p' and eng.symty.get(v[1]) is not None and self.P.tname(eng.symty[v[1]]) == NS + 'fiber_properties'), None)
        st.mon['pr'] = self.pr or ZERO
        if self.pr:
            eng.roots.add(self.pr[1])
            # properties handed in belong to no fiber yet
            st.mem[(self.pr[1], self.o.ctx)] = ZERO

    def on_event(self, eng, st, ev):
        m, o = st.mon, self.o
        if m['side'] == 'launcher' and ev.k in ('sched', 'resume', 'attach') and m['ctx'] != U:
            c = m['ctx']
            have = eng.load(st, ('p', c[1], o.props), 'hp', True, 8, silent=True)
            Mon.check(self, eng, st, R[7], st.known_eq(have, m['pr']) is True, 'the fiber has properties %s when it can run' % eng.where(have))
            if self.pr and st.known_eq(m['pr'], ZERO) is not True:
                own = eng.load(st, ('p', self.pr[1], o.ctx), 'ho', True, 8, silent=True)
                Mon.check(self, eng, st, R[3], st.known_eq(own, c) is True, 'the given properties refer to the fiber %s' % eng.where(own))
        Life.on_event(self, eng, st, ev)

    def exit(self, eng, st, kind, val):
        pass


def run(ctx):
    P = ctx.load(['tu/props.cpp', 'src/properties.cpp', 'src/algo/algorithm.cpp', 'src/context.cpp'])
    o = Off(P)
    fs = sorted((f for f in P.fns.values() if f.defined and f.short.startswith('use::props::')), key=lambda f: f.dem)
    for f in fs:
        ctx.explore(P, f, Props(P, o))
    c = [f for f in P.fns.values() if f.defined and f.short.endswith('::algorithm_with_properties::' + o.chname)]
    if len(c) != 1:
        raise Broken('anchor vanished: ' + o.chname)
    ctx.explore(P, c[0], Props(P, o, 'change'))
    d = [f for f in ctx.functions(P, 'context::set_properties')] + [f for f in ctx.functions(P, 'context::~context')][:1]
    for f in d:
        ctx.explore(P, f, Props(P, o))
    P = ctx.load(['tu/props.cpp', 'src/properties.cpp', 'src/context.cpp'], defs=('-UNDEBUG',))
    ctx.explore(P, next(f for f in P.fns.values() if f.defined and f.short == 'use::props::set'), Props(P, Off(P)))
    P = ctx.load(UNITS)
    lay, o = Lay(P), Off(P, False)
    consts = {k: constant(P, n) for k, n in (('post', 'e_post'), ('dispatch', 'e_dispatch'))}
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        if f.defined and f.short.startswith('use::spawn::'):
            ctx.explore(P, f, Launch(P, lay, consts, o))
    for r, n in ((1, 1), (2, 1), (3, 2), (4, 2), (5, 2), (6, 3), (7, 4)):
        ctx.require(R[r], n)
