"""Every operation of fiber handles is explored over all paths (including an operand that is its own
argument); the context pointer each handle holds before and after is compared.  Destroying or
assigning over a handle that holds a fiber cannot return; joining calls context::join exactly once
on that fiber, never on the active one, and only then lets go of it; errors carry the documented
codes and leave the handle alone; moves and swaps transfer the pointer."""
import re
from rules.common import *
ASSUME = ['context::join returns once the fiber has terminated (P18)', 'context::active() is never null (P23)']
UNITS = ['tu/fiber.cpp', 'src/fiber.cpp', 'src/context.cpp']


class H(Mon):
    inline_prefix = (NS + 'fiber::',)
    watch = {NS + 'context::join': 'join', NS + 'context::active/0': 'active'}

    def __init__(self, P, consts, off):
        self.P, self.consts, self.off = P, consts, off

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == NS + 'context::active':
            return [(st, ACTIVE)]
        return Mon.model(self, eng, st, fr, i, fn, args)

    def start(self, eng, st):
        self.op = self.fn.short.split('::')[-1]
        self.objs = []
        for v in eng.argvals:
            if v[0] == 'p' and v[1] not in ('a:ret',) and all(v[1] != o for o, al in self.objs):
                t = eng.symty.get(v[1])
                alive = t is not None and eng.P.tname(t).replace('const ', '') == NS + 'fiber'
                self.objs.append((v[1], alive))
        if len(self.objs) == 2:
            st.facts[mkcmp('eq', *sorted((('p', o[0], 0) for o in self.objs), key=repr), 64)] = False
        self.private = tuple(o for o, a in self.objs) + ('a:ret',)
        for o, alive in self.objs:
            if alive:
                st.mon['p.' + o] = eng.load(st, ('p', o, self.off), 'p0' + o, True, 8, silent=True)
        st.mon.update(joined=(), code=U, early=ZERO)

    def on_event(self, eng, st, ev):
        if ev.k == 'join':
            p = ev.args[0]
            self.check(eng, st, 'H3 join waits for the fiber of the handle', not st.mon['joined'], 'context::join is called again')
            self.check(eng, st, 'H4 joining oneself is refused', st.known_eq(p, ACTIVE) is False, 'may wait for the running fiber itself')
            st.mon['joined'] = (p,)
        elif ev.k == 'make_error_code':
            st.mon['code'] = ev.code
        elif ev.k == 'throw':
            st.mon['obj'] = ev.obj

    def exit(self, eng, st, kind, val):
        m, op = st.mon, self.op
        a = self.objs[0][0]
        p = m.get('p.' + a)
        fin = {}
        for o, alive in self.objs:
            if (alive or kind == 'ret') and op != 'dtor':
                fin[o] = eng.load(st, ('p', o, self.off), 'pe' + o, True, 8, silent=True)
        e = st.known_eq(p, ZERO) if p is not None else None

        def same(rule, o, want):
            self.check(eng, st, rule, st.known_eq(fin[o], want) is True, '%s: the handle holds %s, expected %s' % (op, eng.where(fin[o]), eng.where(want)))
        H1 = 'H1 a joinable handle cannot be destroyed or assigned over'
        H2 = 'H2 moves and swaps transfer the fiber'
        if op in ('dtor', 'massign'):
            if kind == 'terminate':
                self.check(eng, st, H1, e is False, '%s terminates although the handle may be empty' % op)
                return
            self.check(eng, st, H1, kind == 'ret' and e is True, '%s ends with %s although the handle may be joinable' % (op, kind))
        if op == 'massign':
            if len(self.objs) == 1:
                same(H2, a, p)
            else:
                b = self.objs[1][0]
                same(H2, a, m['p.' + b])
                same(H2, b, ZERO)
        elif op == 'ctor':
            same(H2, a, ZERO)
        elif op == 'mctor':
            n, o = [x for x, al in self.objs if not al][0], [x for x, al in self.objs if al][0]
            self.check(eng, st, H2, kind == 'ret', 'moving ends with %s' % kind)
            if kind == 'ret':
                same(H2, n, m['p.' + o])
                same(H2, o, ZERO)
        elif op.startswith('swap'):
            self.check(eng, st, H2, kind == 'ret', 'swapping ends with %s' % kind)
            if len(self.objs) == 1:
                same(H2, a, p)
            else:
                b = self.objs[1][0]
                same(H2, a, m['p.' + b])
                same(H2, b, p)
        elif op == 'joinable':
            t = st.truth(val) if val is not None else None
            r = 'H5 joinable and get_id tell which fiber the handle holds'
            self.check(eng, st, r, kind == 'ret' and (val == mknot(mkcmp('eq', p, ZERO, 64)) or t is not None and e is not None and t != e), 'joinable() returns %s' % eng.where(val))
            same(r, a, p)
        elif op == 'get_id':
            r = 'H5 joinable and get_id tell which fiber the handle holds'
            self.check(eng, st, r, kind == 'ret' and val is not None and (st.known_eq(val, p) is True), 'get_id() returns %s' % eng.where(val))
            same(r, a, p)
        elif op in ('join', 'detach'):
            r = 'H3 join waits for the fiber of the handle' if op == 'join' else 'H6 detach lets the fiber go'
            code = m['code']
            mine = kind == 'throw' and val is not None and m.get('obj') is not None and val[2] == m['obj']
            if kind == 'ret':
                self.check(eng, st, r, e is False, '%s returns normally for a handle that may be empty' % op)
                if op == 'join':
                    self.check(eng, st, r, len(m['joined']) == 1 and st.known_eq(m['joined'][0], p) is True, 'join returns without waiting for the fiber of the handle')
                else:
                    self.check(eng, st, r, not m['joined'], 'detach waits for the fiber')
                same(r, a, ZERO)
            elif mine:
                self.check(eng, st, 'H7 a refused operation leaves the handle alone', not m['joined'], '%s fails after it waited' % op)
                same('H7 a refused operation leaves the handle alone', a, p)
                if code == self.consts['deadlock']:
                    self.check(eng, st, 'H4 joining oneself is refused', st.known_eq(p, ACTIVE) is True, 'resource_deadlock_would_occur for a handle that may hold another fiber')
                else:
                    self.check(eng, st, 'H8 an empty handle raises invalid_argument', code == self.consts['invalid'] and e is True, '%s raises error %s for a handle that %s' % (
                        op, eng.where(code), 'is empty' if e is True else 'may hold a fiber'))
            if op == 'detach' and kind == 'throw' and not mine:
                return
            if st.known_eq(p, ACTIVE) is True and op == 'join':
                self.check(eng, st, 'H4 joining oneself is refused', kind != 'ret', 'joining oneself succeeds')


def run(ctx):
    P = ctx.load(UNITS)
    consts = {k: constant(P, n) for k, n in (('deadlock', 'e_deadlock'), ('invalid', 'e_invalid'))}
    t = record(P, NS + 'fiber')
    ms = [m for m in leaf_members(P, t) if 'intrusive_ptr<' in m[2] or m[2].endswith('context*')]
    if len(ms) != 1:
        raise Broken('anchor vanished: the context pointer of fiber')
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        if f.defined and f.short.startswith('use::handle::'):
            ctx.explore(P, f, H(P, consts, ms[0][0]))
            n += 1
            if f.short.split('::')[-1] in ('massign', 'swap_m', 'swap_f'):
                ctx.explore(P, f, H(P, consts, ms[0][0]), args={1: ('p', 'nn:arg0', 0)})
    for r, k in (('H1 a joinable handle cannot be destroyed or assigned over', 2), ('H2 moves and swaps transfer the fiber', 4),
                 ('H3 join waits for the fiber of the handle', 1), ('H4 joining oneself is refused', 1), ('H6 detach lets the fiber go', 1),
                 ('H8 an empty handle raises invalid_argument', 2), ('H5 joinable and get_id tell which fiber the handle holds', 2)):
        ctx.require(r, k)
