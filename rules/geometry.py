"""Where the control block of a fiber lies on the stack it was given, and what is left below it.

Rounding an address down makes a block of its own in the memory model; here its place is an interval
relative to the top of the stack."""
import re
from rules.common import *
AL = re.compile(r'^(?:h:|nn:)al:(.*):(-?\d+):([0-9a-f]+)$')
TOP = ('p', 'h:stack', 0)     # the stack belongs to nobody else yet
KNOWN = ('p', 'nn:stack', 0)  # others may refer to it, but keep what it holds
SZ = ('s', 'stksz')


def place(p):
    """(block, lowest, highest offset) of an address."""
    m = AL.match(p[1])
    if not m:
        return p[1], p[2], p[2]
    b, lo, hi = place(('p', m.group(1), int(m.group(2))))
    return b, lo - (int(m.group(3), 16) - 1) + p[2], hi + p[2]


def terms(v, k=1, acc=None):
    acc = {} if acc is None else acc
    if v[0] == 'c':
        acc[None] = acc.get(None, 0) + k * (v[1] - (1 << 64) if v[1] >> 63 else v[1])
    elif v[0] == 'p' and isinstance(v[2], int):
        acc[('p', v[1], 0)] = acc.get(('p', v[1], 0), 0) + k
        acc[None] = acc.get(None, 0) + k * v[2]
    elif v[0] == 'o' and v[1] in ('add', 'sub') and len(v) >= 4:
        terms(v[2], k, acc)
        terms(v[3], k if v[1] == 'add' else -k, acc)
    else:
        acc[v] = acc.get(v, 0) + k
    return acc


def bounds(acc):
    """(lowest, highest) value of a sum, None if something in it is unknown."""
    lo = hi = acc.get(None, 0)
    base = 0
    for v, k in acc.items():
        if v is None or k == 0:
            continue
        if v[0] != 'p':
            return None
        b, l, h = place(v)
        if b not in (TOP[1], KNOWN[1]):
            return None
        base += k
        lo, hi = lo + min(k * l, k * h), hi + max(k * l, k * h)
    return (lo, hi) if base == 0 else None


def allocated(eng, st, fr, i, fn, args, TOP=TOP):
    """The result of an allocator: a stack of its own."""
    st.names |= {TOP[1], SZ[1]}
    eng.symdesc[TOP[1]] = 'the new stack'
    eng.symdesc[SZ[1]] = 'stack size'
    if not fn.sret:
        return ('agg', SZ, TOP)
    d = args[0]
    st.mem[(d[1], addoff(d[2], 0))] = SZ
    st.mem[(d[1], addoff(d[2], 8))] = TOP


def constructs(P, fn):
    """Size of the object a constructor builds, if that is a fiber."""
    p = fn.short.split('::')
    if len(p) < 2 or p[-1] != p[-2] or fn.cls is None:
        return None
    t, todo = record(P, NS + 'context'), [fn.cls]
    while todo:
        x = todo.pop()
        if x == t or P.tname(x) == NS + 'context':
            return P.types[fn.cls].get('sz')
        todo += [e for o, n, e in P.types.get(x, {}).get('els', ()) if n == '']
    return None


def control_block(mon, eng, st, rule, fn, args):
    n = constructs(mon.P, fn)
    if n is None or args[0][0] != 'p':
        return
    b, lo, hi = place(args[0])
    if b in (TOP[1], KNOWN[1]):
        mon.check(eng, st, rule, hi + n <= 0, 'a control block of %d bytes starts up to %d bytes below the top of its stack' % (n, -hi))


def below(mon, eng, st, rule, fn, args, block):
    """What is handed to Boost.Context as the usable rest of the stack."""
    P = mon.P
    if fn.short != 'boost::context::fiber::fiber' or 'boost::context::preallocated' not in fn.dem:
        return
    a = args[1]
    pre, stk = (top_members(P, record(P, 'boost::context::' + n)) for n in ('preallocated', 'stack_context'))
    pre = sorted(pre)
    so, zo = ([m[0] for m in stk if m[2].endswith('*') == p][0] for p in (True, False))
    ld = lambda o, n, p: eng.load(st, ('p', a[1], addoff(a[2], o)), n, p, 8, silent=True)
    sp, size = ld(pre[0][0], 'pre0', True), ld(pre[1][0], 'pre1', False)
    top, tsz = ld(pre[2][0] + so, 'pre2', True), ld(pre[2][0] + zo, 'pre3', False)
    mon.check(eng, st, rule, top in (TOP, KNOWN) and st.known_eq(tsz, SZ) is True,
              'the stack handed on is %s bytes at %s' % (eng.where(tsz), eng.where(top)))
    if block is not None and block[0] == 'p':
        r = bounds(terms(block, -1, terms(sp)))
        mon.check(eng, st, rule, r is None or r[1] <= 0, 'the stack grows down from %s, above the control block' % eng.where(sp))
    r = bounds(terms(SZ, -1, terms(top, 1, terms(sp, -1, terms(size)))))
    mon.check(eng, st, rule, r is None or r[1] <= 0, 'the usable size %s exceeds what is left of the stack' % eng.where(size))
