"""Path-sensitive property simulation over LLVM IR.

The analysis is a dataflow fixpoint over the exploded supergraph: a node is a
(call string, program point, abstract state) triple, the abstract state holds
access-path symbols, constants, equality/order facts, held locks and the state of the
rule's monitor.  Equal states merge; loop-carried values are widened; there is no
solver, no concrete input and no execution.
"""
import functools, re, time
from ir import Program

MASK = {1: 1, 8: 0xff, 16: 0xffff, 32: 0xffffffff, 64: (1 << 64) - 1}
U = ('u',)
ZERO = ('c', 0)
ONE = ('c', 1)


class AnalysisError(Exception):
    pass


def is_leaf(v):
    return v[0] == 's' or (v[0] == 'p' and v[2] == 0)


def syms_of(v, out):
    """Collect symbol/base names occurring in a value (any nested tuple)."""
    if isinstance(v, tuple):
        if len(v) < 4:
            out |= _syms(v)
            return
        _syms_of(v, out)
    else:
        _syms_of(v, out)


@functools.lru_cache(maxsize=400000)
def _syms(v):
    out = set()
    _syms_of(v, out)
    return frozenset(out)


def _syms_of(v, out):
    if isinstance(v, tuple):
        if v:
            k = v[0]
            if k == 's' and len(v) == 2:
                out.add(v[1])
                return
            if k == 'p' and len(v) == 3 and isinstance(v[1], str):
                out.add(v[1])
                if isinstance(v[2], tuple):
                    syms_of(v[2], out)
                return
            if k == 'vt' and len(v) == 3:
                out.add(v[1])
                return
        for x in v:
            if isinstance(x, tuple):
                syms_of(x, out)
    elif isinstance(v, frozenset):
        for x in v:
            syms_of(x, out)


def subst(v, name, to):
    """Replace symbol/base `name` by value `to` inside v."""
    if isinstance(v, tuple):
        if not v:
            return v
        k = v[0]
        if k == 's' and len(v) == 2:
            return to if v[1] == name else v
        if k == 'c':
            return v
        if k == 'p' and len(v) == 3 and isinstance(v[1], str):
            off = subst(v[2], name, to) if isinstance(v[2], tuple) else v[2]
            if v[1] == name:
                if to[0] == 'p':
                    return ('p', to[1], addoff(to[2], off))
                if to == ZERO and off == 0:
                    return ZERO
                return ('p', '@null', off) if to == ZERO else U
            return v if off is v[2] else ('p', v[1], off)
        if k == 'vt' and len(v) == 3:
            if v[1] == name:
                return ('vt', to[1], v[2]) if to[0] == 'p' else U
            return v
        ch = False
        r = []
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                y = subst(x, name, to)
                ch = ch or (y is not x)
                r.append(y)
            else:
                r.append(x)
        if not ch:
            return v
        if k == 'o':
            return simp(r)
        return tuple(r)
    if isinstance(v, frozenset):
        return frozenset(subst(x, name, to) for x in v)
    return v


def simp(r):
    """Re-simplify an operator node after substitution."""
    op = r[1]
    if op in ('eq', 'ult', 'slt'):
        return mkcmp(op, r[2], r[3], r[4] if len(r) > 4 else 64)
    if op == 'not':
        return mknot(r[2])
    return mkop(op, r[2:-1], r[-1])


def addoff(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if a == 0:
        return b
    if b == 0:
        return a
    ca, ta = (a[1], a[2]) if isinstance(a, tuple) else (a, ())
    cb, tb = (b[1], b[2]) if isinstance(b, tuple) else (b, ())
    return ('ix', ca + cb, tuple(ta) + tuple(tb))


BOOLOPS = ('eq', 'ult', 'slt', 'not', 'bool')


def is_bool(v):
    if v[0] == 'o':
        return v[1] in BOOLOPS or (v[1] in ('and', 'or', 'xor') and all(is_bool(x) for x in v[2:4]))
    return v in (ZERO, ONE) or (v[0] == 's' and v[1].startswith('b:'))


def mknot(e):
    if e[0] == 'c':
        return ('c', 0 if e[1] else 1)
    if e[0] == 'o' and e[1] == 'not':
        return e[2]
    return ('o', 'not', e)


def sgn(n, w):
    return n - (1 << w) if n >> (w - 1) else n


def base_nonnull(b):
    return b == 'this' or b[:2] in ('a:', 'h:', '@_') or b.startswith('@') or b.startswith('nn:')


def base_fresh(b):
    return b[:2] in ('a:', 'h:')


def mkcmp(op, a, b, w):
    if a[0] == 'u' or b[0] == 'u':
        return ('o', op, a, b, w) if op != 'eq' else ('o', 'eq', a, b, w)
    if a[0] == 'c' and b[0] == 'c':
        if op == 'eq':
            return ('c', int(a[1] == b[1]))
        if op == 'ult':
            return ('c', int(a[1] < b[1]))
        if op == 'slt':
            return ('c', int(sgn(a[1], w) < sgn(b[1], w)))
    if a == b:
        return ('c', 1 if op == 'eq' else 0)
    if op == 'eq':
        if a[0] == 'c':
            a, b = b, a
        if b[0] == 'c':
            if is_bool(a):
                if b[1] == 0:
                    return mknot(a)
                if b[1] == 1:
                    return a
                return ZERO
            if a[0] == 'p' and b[1] == 0:
                if base_nonnull(a[1]) or a[2] != 0:
                    return ZERO
            if a[0] == 'f' and b[1] == 0:
                return ZERO
            if a[0] == 'vt':
                return ZERO
            if a[0] == 'o' and a[1] == 'add' and a[3][0] == 'c':
                m = (1 << a[4]) - 1
                return mkcmp('eq', a[2], ('c', (b[1] - a[3][1]) & m), a[4])
        if a[0] == 'p' and b[0] == 'p':
            if a[1] == b[1]:
                if isinstance(a[2], int) and isinstance(b[2], int):
                    return ('c', int(a[2] == b[2]))
            elif (base_fresh(a[1]) or a[1].startswith('@')) and (base_fresh(b[1]) or b[1].startswith('@')):
                return ZERO
        if a[0] == 'f' and b[0] == 'f':
            return ZERO
        if a[0] in 'os' and b[0] in 'os':
            # x + c1 == y + c2
            xa, ca = (a[2], a[3][1]) if a[0] == 'o' and a[1] == 'add' and a[3][0] == 'c' else (a, 0)
            xb, cb = (b[2], b[3][1]) if b[0] == 'o' and b[1] == 'add' and b[3][0] == 'c' else (b, 0)
            if xa == xb:
                return ('c', int((ca - cb) & ((1 << w) - 1) == 0))
        if b[0] != 'c' and repr(b) < repr(a):
            a, b = b, a
        return ('o', 'eq', a, b, w)
    if op == 'ult':
        if b == ZERO:
            return ZERO
        if b == ONE:
            return mkcmp('eq', a, ZERO, w)
        if a == ZERO:
            return mknot(mkcmp('eq', b, ZERO, w))
    return ('o', op, a, b, w)


def depth(v):
    if isinstance(v, tuple):
        m = 0
        for x in v:
            if isinstance(x, tuple):
                d = depth(x)
                if d > m:
                    m = d
        return m + 1
    return 0


def mkop(op, args, w):
    """args: sequence of values; w: bit width."""
    args = tuple(args)
    m = (1 << w) - 1
    if all(a[0] == 'c' for a in args) and len(args) == 2:
        x, y = args[0][1], args[1][1]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y if y < 64 else 0,
                 'lshr': lambda: x >> y, 'ashr': lambda: sgn(x, w) >> y, 'udiv': lambda: x // y,
                 'urem': lambda: x % y, 'sdiv': lambda: int(sgn(x, w) / sgn(y, w)),
                 'srem': lambda: sgn(x, w) - int(sgn(x, w) / sgn(y, w)) * sgn(y, w)}[op]()
            return ('c', r & m)
        except (KeyError, ZeroDivisionError):
            return U
    if len(args) == 2:
        a, b = args
        if op == 'sub' and b[0] == 'c':
            op, b = 'add', ('c', (-b[1]) & m)
        if op == 'add':
            if a[0] == 'c':
                a, b = b, a
            if b == ZERO:
                return a
            if b[0] == 'c':
                if a[0] == 'p':
                    return ('p', a[1], addoff(a[2], sgn(b[1], w)))
                if a[0] == 'o' and a[1] == 'add' and a[3][0] == 'c':
                    return mkop('add', (a[2], ('c', (a[3][1] + b[1]) & m)), w)
            args = (a, b)
        elif op == 'sub':
            if a == b:
                return ZERO
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                return ('c', (a[2] - b[2]) & m)
            args = (a, b)
        elif op in ('and', 'or', 'xor', 'mul'):
            if a[0] == 'c':
                a, b = b, a
            args = (a, b)
            if op == 'xor' and b == ONE and (is_bool(a) or w == 1):
                return mknot(a)
            if op == 'xor' and a == b:
                return ZERO
            if op == 'and':
                if b == ZERO or a[0] == 'f' and b == ONE:
                    return ZERO
                if b[0] == 'c' and b[1] == m:
                    return a
                if a == b:
                    return a
                if b == ONE and is_bool(a):
                    return a
                if a[0] == 'p' and b[0] == 'c' and isinstance(a[2], int) and sgn(b[1], w) < 0:
                    # rounding an address down: a block of its own inside the same storage
                    return ('p', '%sal:%s:%d:%x' % ('h:' if a[1][:2] == 'h:' else 'nn:', a[1], a[2], -sgn(b[1], w)), 0)
            if op == 'or':
                if b == ZERO:
                    return a
                if a == b:
                    return a
            if op == 'mul' and b == ONE:
                return a
        elif op in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv'):
            if b == ZERO and op not in ('udiv', 'sdiv'):
                return a
            if b == ONE and op in ('udiv', 'sdiv'):
                return a
    v = ('o', op) + args + (w,)
    if depth(v) > 14:
        return ('o', 'deep', w)
    return v


class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'env', 'ctx', 'inst', 'tag')

    def __init__(self, fn, bb, ip, env, ctx, inst, tag=None):
        self.fn, self.bb, self.ip, self.env, self.ctx, self.inst, self.tag = fn, bb, ip, env, ctx, inst, tag

    def copy(self):
        return Frame(self.fn, self.bb, self.ip, dict(self.env), self.ctx, self.inst, self.tag)


class State:
    __slots__ = ('frames', 'mem', 'facts', 'locks', 'esc', 'mon', 'caught', 'exc', 'names', 'trace', 'node')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.locks = self.locks
        s.esc = self.esc
        s.mon = dict(self.mon)
        s.caught = self.caught
        s.exc = self.exc
        s.names = set(self.names)
        s.trace = self.trace
        s.node = self.node
        return s

    # -- facts
    def truth(self, e):
        if e[0] == 'c':
            return bool(e[1])
        if e[0] == 'p':
            e = mknot(mkcmp('eq', e, ZERO, 64))
            if e[0] == 'c':
                return bool(e[1])
        if e[0] == 'o':
            op = e[1]
            if op == 'not':
                t = self.truth(e[2])
                return None if t is None else not t
            if op in ('and', 'or') and is_bool(e):
                a, b = self.truth(e[2]), self.truth(e[3])
                if op == 'and':
                    if a is False or b is False:
                        return False
                    return True if a and b else None
                if a or b:
                    return True
                return False if a is False and b is False else None
            if e in self.facts:
                return self.facts[e]
            if op == 'eq':
                a, b, w = e[2], e[3], e[4]
                if a[0] == 'p' and b[0] == 'p' and a[1] != b[1]:
                    # a local or fresh object whose address never left is nobody else's
                    for x, y in ((a, b), (b, a)):
                        if base_fresh(x[1]) and x[1] not in self.esc and x[1] in self.names and not base_fresh(y[1]):
                            return False
                for o in ('ult', 'slt'):
                    if self.facts.get(('o', o, a, b, w)) or self.facts.get(('o', o, b, a, w)):
                        return False
                return None
            if op in ('ult', 'slt'):
                a, b, w = e[2], e[3], e[4]
                if self.facts.get(('o', op, b, a, w)):
                    return False
                eq = mkcmp('eq', a, b, w)
                if self.facts.get(eq):
                    return False
                if self.facts.get(('o', op, b, a, w)) is False and self.facts.get(eq) is False:
                    return True
            return None
        if e in self.facts:
            return self.facts[e]
        if e[0] == 's':
            eq = mkcmp('eq', e, ZERO, 64)
            if eq in self.facts:
                return not self.facts[eq]
            for w in (8, 32, 1):
                eq = mkcmp('eq', e, ZERO, w)
                if eq in self.facts:
                    return not self.facts[eq]
        return None

    def known_eq(self, a, b):
        if a is None or b is None:
            return None
        e = mkcmp('eq', a, b, 64)
        t = self.truth(e)
        if t is None and (a[0] == 'p' and a[2] == 0 and b[0] == 'c' or b[0] == 'p' and b[2] == 0 and a[0] == 'c'):
            # the same symbol seen as an integer
            t = self.known_eq(('s', a[1]) if a[0] == 'p' else a, ('s', b[1]) if b[0] == 'p' else b)
            if t is not None:
                return t
        if t is None and e[0] == 'o' and e[1] == 'eq':
            for w in (32, 8, 16):
                k = ('o', 'eq', e[2], e[3], w)
                if k in self.facts:
                    return self.facts[k]
        return t

    def say(self, txt):
        self.trace = (self.trace, txt)

    def path(self, limit=60):
        out = []
        t = self.trace
        while t:
            out.append(t[1])
            t = t[0]
        out.reverse()
        if len(out) > limit:
            out = out[:10] + ['... %d steps ...' % (len(out) - limit)] + out[-(limit - 10):]
        return out


class Ev(dict):
    __getattr__ = dict.get


class Rules:
    widen_phi = 3       # different constants of a loop variable before it is widened
    widen_mem = 10
    sequential = False  # compare-exchange is decided by the value known to be there
    """Base monitor: override on_event / exit."""
    opaque = ()         # short names never entered
    inline = ()         # short names entered even if a default model exists
    inline_prefix = ()
    alloc_throws = False
    opaque_throws = True
    private = ()        # bases treated as thread-confined
    max_states = 60000

    def start(self, eng, st):
        pass

    def asm_ends(self, eng, st, text):
        """True when the path does not continue behind this instruction."""
        return False

    def on_event(self, eng, st, ev):
        pass

    def exit(self, eng, st, kind, val):
        pass

    def rely(self, eng, st, base, off, val):
        """What a concurrent step may do to a shared cell: None = anything, 'keep', or a
        function applied to the fresh symbol.  Default: the fields of an object one of whose
        locks is held stay as they are."""
        for l in st.locks:
            if l[0] == 'p' and l[1] == base:
                return 'keep'
        return None

    def resolve_virtual(self, eng, st, base, off, slot, name):
        return None

    def noalias(self, eng, st, b1, b2):
        return False

    def model(self, eng, st, fr, inst, fn, args):
        """Rule-specific model: None to fall through, or a list of (state, value) /
        (state, ('throw', tinfo))."""
        return None


OPAQUE_PREFIX = (
    'std::__cxx11::', 'std::basic_', 'std::map::', 'std::_Rb_tree', 'std::vector::', 'std::deque::', 'std::set::',
    'std::random_device', 'std::uniform_int_distribution', 'std::linear_congruential_engine', 'std::_V2::',
    'std::system_error::', 'std::runtime_error', 'std::logic_error', 'std::error_code', 'std::error_condition',
    'std::this_thread', 'std::thread', 'std::condition_variable', 'std::exception::',
    'std::shared_ptr', 'std::__detail', 'std::_Deque_base', 'std::_Vector_base', 'std::call_once', 'std::once_flag',
    'boost::intrusive::list', 'boost::intrusive::slist', 'boost::intrusive::bstree', 'boost::intrusive::rbtree',
    'boost::intrusive::multiset', 'boost::intrusive::set', 'boost::intrusive::bs_set', 'boost::intrusive::bs_multiset',
    'boost::intrusive::generic_hook', 'boost::intrusive::tree_iterator', 'boost::context::',
    'std::make_error_code', 'std::basic_ostream', 'boost::intrusive::detail', 'boost::intrusive::circular',
    'boost::fibers::fiber_error::', 'boost::fibers::lock_error::', 'boost::fibers::future_error::',
)

# objects of these types are confined to one fiber by their documented contract
PRIVATE_TYPES = ('std::unique_lock', 'std::chrono::', 'std::lock_guard')

INTR = re.compile(r'^llvm\.')
AGG = re.compile(r'^\{ ((?:i64|ptr)(?:, (?:i64|ptr))*) \}$')


class Engine:
    def __init__(self, prog):
        self.P = prog
        self.symty = {}
        self.symdesc = {}
        self.ctxs = {}
        self.stats = dict(states=0, steps=0, paths=0, entries=0, calls=0)
        self.fns_seen = set()
        self.models = {}
        self._priv = {}
        from models import install
        install(self)

    # ---------------------------------------------------------------- naming
    def ctxid(self, parent, fn, iid):
        k = (parent, fn, iid)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    def fresh(self, st, kind, site, ptr, ty=None, desc=None):
        """A symbol named after its creation site; an older instance of the same name is
        renamed (recency abstraction)."""
        name = '%s%s' % (kind, site)
        if name in st.names:
            self.rename_old(st, name)
        st.names.add(name)
        if ty is not None:
            self.symty[name] = ty
        if desc:
            self.symdesc[name] = desc
        return ('p', name, 0) if ptr else ('s', name)

    def rename_old(self, st, name):
        old = name + '~'
        if old in st.names:
            # merge into a summary: forget facts on both
            dead = [k for k in st.facts if _mentions(k, old) or _mentions(k, name)]
            for k in dead:
                del st.facts[k]
            for k in [k for k in st.mem if k[0] == old]:
                del st.mem[k]
        st.names.add(old)
        if name in self.symty:
            self.symty[old] = self.symty[name]
        if name in self.symdesc:
            self.symdesc.setdefault(old, self.symdesc[name])
        self.apply_subst(st, name, None, ren=old)
        st.names.discard(name)

    def apply_subst(self, st, name, to, ren=None):
        if ren is not None:
            def f(v):
                return _rename(v, name, ren)
        else:
            def f(v):
                return subst(v, name, to)
        for fr in st.frames:
            for k, v in fr.env.items():
                nv = f(v)
                if nv is not v:
                    fr.env[k] = nv
        nm = {}
        for (b, o), v in st.mem.items():
            o2 = f(o) if isinstance(o, tuple) else o
            if b == name:
                if ren is not None:
                    nm[(ren, o2)] = f(v)
                elif to[0] == 'p':
                    nm.setdefault((to[1], addoff(to[2], o2)), f(v))
                continue
            if (b, o2) in nm and b != name:
                pass
            nm[(b, o2)] = f(v)
        st.mem = nm
        nf = {}
        ok = True
        for k, v in st.facts.items():
            k2 = f(k)
            if k2[0] == 'c':
                if bool(k2[1]) != v:
                    ok = False
                continue
            if k2[0] == 'o' and k2[1] == 'not':
                k2, v = k2[2], not v
            if k2 in nf and nf[k2] != v:
                ok = False
            nf[k2] = v
        st.facts = nf
        for k, v in st.mon.items():
            if isinstance(v, (tuple, frozenset)):
                nv = f(v)
                if nv is not v:
                    st.mon[k] = nv
        st.locks = f(st.locks) if st.locks else st.locks
        if name in st.esc:
            st.esc = frozenset((ren if ren else x) if x == name else x for x in st.esc)
        if st.exc is not None:
            st.exc = f(st.exc)
        st.caught = f(st.caught) if st.caught else st.caught
        return ok

    def rank(self, v):
        """Preference order for the representative of an equality class."""
        n = v[1]
        if v[0] == 'c':
            return 0
        if n == 'this' or n[:2] in ('a:', 'h:') or n.startswith('@'):
            return 1
        if n.startswith('arg') or n.startswith('active'):
            return 2
        if n.endswith('~'):
            return 3
        return 4

    def assume(self, st, e, val):
        """Add a fact; False if it contradicts what is known."""
        t = st.truth(e)
        if t is not None:
            return t == val
        if e[0] == 'p':
            e, val = mkcmp('eq', e, ZERO, 64), not val
        if e[0] == 's':
            if e[1].startswith('b:'):
                # a boolean symbol is replaced by its value
                return self.apply_subst(st, e[1], ONE if val else ZERO)
            e, val = mkcmp('eq', e, ZERO, 64), not val
        if e[0] == 'o' and e[1] == 'not':
            return self.assume(st, e[2], not val)
        if e[0] == 'o' and e[1] in ('and', 'or') and is_bool(e):
            if (e[1] == 'and') == val:
                return self.assume(st, e[2], val) and self.assume(st, e[3], val)
        if e[0] == 'o' and e[1] == 'eq' and val:
            a, b = e[2], e[3]
            la, lb = is_leaf(a), b[0] == 'c' or is_leaf(b)
            if la and lb:
                if self.rank(a) < self.rank(b):
                    a, b = b, a
                if a[0] != 'c' and self.rank(a) > 1:
                    return self.apply_subst(st, a[1], b)
            elif is_leaf(b) and a[0] in ('p',) and self.rank(b) > 1:
                return self.apply_subst(st, b[1], a)
            elif la and b[0] == 'p' and self.rank(a) > 1:
                return self.apply_subst(st, a[1], b)
        st.facts[e] = val
        return True

    # ---------------------------------------------------------------- memory
    def field_of(self, base, off):
        t = self.symty.get(base)
        if t is None or not isinstance(off, int):
            return None, None, None
        path, leaf, rest = self.P.field(t, off)
        return t, path, leaf

    def where(self, v):
        """Readable rendering of a value."""
        if v is None:
            return '?'
        if v[0] == 'c':
            return str(sgn(v[1], 64)) if v[1] > (1 << 63) else str(v[1])
        if v[0] == 's':
            return self.symdesc.get(v[1], v[1])
        if v[0] == 'p':
            b = self.symdesc.get(v[1], v[1])
            if v[2] == 0:
                return b
            if isinstance(v[2], int):
                _, p, _ = self.field_of(v[1], v[2])
                return '%s.%s' % (b, p) if p else '%s+%d' % (b, v[2])
            return '%s[%s]' % (b, ','.join(self.where(x[0]) for x in v[2][2]))
        if v[0] == 'f':
            f = self.P.fns.get(v[1])
            return f.short if f else v[1]
        if v[0] == 'o':
            if v[1] == 'not':
                return '!(%s)' % self.where(v[2])
            ops = {'eq': '==', 'ult': '<u', 'slt': '<', 'add': '+', 'urem': '%', 'and': '&', 'sub': '-'}
            if len(v) == 5:
                return '(%s %s %s)' % (self.where(v[2]), ops.get(v[1], v[1]), self.where(v[3]))
            return '%s(%s)' % (v[1], ','.join(self.where(x) for x in v[2:] if isinstance(x, tuple)))
        return str(v[0])

    def shared(self, st, base):
        if base in self.rules.private:
            return False
        if base[:2] in ('a:', 'h:'):
            return base in st.esc
        if base.startswith('@'):
            g = self.P.globals.get(base[1:])
            if g and (g.get('const') or g.get('tls')):
                return False
        t = self.symty.get(base)
        if t is not None:
            c = self._priv.get(t)
            if c is None:
                c = self._priv[t] = self.P.tshort(t).startswith(PRIVATE_TYPES)
            if c:
                return False
        return True

    def havoc(self, st, why):
        drop = []
        for (b, o), v in st.mem.items():
            if not self.shared(st, b):
                continue
            r = self.rules.rely(self, st, b, o, v)
            if r == 'keep':
                continue
            drop.append((b, o, v, r))
        for b, o, v, r in drop:
            del st.mem[(b, o)]
        for b, o, v, r in drop:
            if callable(r):
                r(st, b, o, v)

    def escape(self, st, v, seen=None):
        names = set()
        syms_of(v, names)
        new = {n for n in names if n[:2] in ('a:', 'h:') and n not in st.esc}
        while new:
            st.esc = st.esc | new
            more = set()
            for (b, o), x in st.mem.items():
                if b in new:
                    syms_of(x, more)
            new = {n for n in more if n[:2] in ('a:', 'h:') and n not in st.esc}

    def load(self, st, ptr, site, ptrty, sz, inst=None, silent=False, order='na', valty=None):
        """Value at ptr; creates a symbol on first read."""
        if ptr[0] == 'vt':
            return ('vf', ptr[1], ptr[2] // 8)
        if ptr[0] == 's':
            ptr = ('p', ptr[1], 0)
        if ptr[0] == 'o' and ptr[1] == 'and':
            ptr = ('p', self.opaque_base(st, ptr), 0)
        if ptr == ZERO or ptr[0] == 'p' and ptr[1] == 'null!':
            st.names.add('null!')
            return ('p', 'null!', 0)        # whatever lies behind a null pointer
        if ptr[0] != 'p':
            v = self.fresh(st, 'x', site, ptrty)
            return v
        b, o = ptr[1], ptr[2]
        key = (b, o)
        atomic = order != 'na'
        v = st.mem.get(key)
        fresh = False
        if v is not None and atomic and self.shared(st, b) and not self.rules_keep_atomic(st, b, o):
            v = None
        if v is None:
            z = self.zero_at(st, b, o)
            if z is not None and not atomic:
                v = z
        if v is None and b.startswith('@'):
            v = self.global_load(b[1:], o)
        if v is None:
            t, path, leaf = self.field_of(b, o)
            if path is not None and '_vptr' in path:
                v = ('vt', b, 0)
            else:
                fresh = True
                desc = None
                bd = self.symdesc.get(b, b)
                desc = '%s.%s' % (bd, path) if path else ('%s+%s' % (bd, o) if o else '*' + bd)
                boolv = leaf is not None and self.P.types.get(leaf, {}).get('n') == 'bool'
                if leaf is None and sz == 1 and False:
                    boolv = True
                pt = None
                if ptrty and leaf is not None:
                    pt = self.P.pointee(leaf)
                elif leaf is not None:
                    pt = leaf
                v = self.fresh(st, 'b:' if boolv else 'l', site, ptrty, pt, desc)
                if v[0] == 'p' and key[0] == v[1]:
                    pass
            st.mem[key] = v
        if not silent:
            t, path, leaf = self.field_of(b, o)
            self.emit(st, Ev(k='read', base=b, off=o, ty=t, path=path, val=v, fresh=fresh, order=order,
                             inst=inst))
        return v

    def rules_keep_atomic(self, st, b, o):
        return False

    def opaque_base(self, st, v):
        n = 'x:' + repr(v)[:200]
        st.names.add(n)
        return n

    def zero_at(self, st, b, o):
        z = st.mem.get((b, 'zero'))
        if z is not None and isinstance(o, int):
            for lo, n in z[1]:
                if lo <= o < lo + n:
                    return ZERO
        return None

    def global_load(self, g, o):
        go = self.P.globals.get(g)
        if not go or 'init' not in go:
            return None
        from ir import tup
        init = tup(go['init'])
        if init[0] == 'c':
            return ('c', init[1]) if o == 0 and go.get('const') else None
        if init[0] == 'agg':
            # vtable: array of pointers, possibly wrapped in a struct of arrays
            flat = []
            for x in init[1:]:
                if x[0] == 'agg':
                    flat += list(x[1:])
                else:
                    flat.append(x)
            if isinstance(o, int) and o % 8 == 0 and o // 8 < len(flat):
                x = flat[o // 8]
                if x[0] == 'f':
                    return x
                if x[0] == 'g':
                    return ('p', '@' + x[1], x[2])
                if x[0] == 'c':
                    return ('c', x[1])
        return None

    def store(self, st, ptr, val, inst=None, order='na', silent=False):
        if ptr[0] == 's':
            ptr = ('p', ptr[1], 0)
        if ptr[0] == 'o' and ptr[1] == 'and':
            ptr = ('p', self.opaque_base(st, ptr), 0)
        if ptr[0] != 'p':
            self.emit(st, Ev(k='wildwrite', ptr=ptr, val=val, inst=inst))
            return
        b, o = ptr[1], ptr[2]
        t, path, leaf = self.field_of(b, o)
        old = st.mem.get((b, o))
        if b[:2] not in ('a:', 'h:') or b in st.esc:
            self.escape(st, val)
            # other symbolic bases of the same record may alias
            if b[:2] not in ('a:', 'h:'):
                for k in [k for k in st.mem if k[1] == o and k[0] != b and k[0][:2] not in ('a:', 'h:')
                          and not k[0].startswith('@') and not b.startswith('@')]:
                    tb = self.symty.get(k[0])
                    if tb is not None and t is not None and tb != t:
                        continue
                    if st.known_eq(('p', k[0], 0), ('p', b, 0)) is False:
                        continue
                    if st.mem[k] != val and not self.rules.noalias(self, st, b, k[0]):
                        del st.mem[k]
        if not isinstance(o, int):
            for k in [k for k in st.mem if k[0] == b and isinstance(k[1], tuple) and k[1][0] == 'ix' and k[1] != o]:
                del st.mem[k]
        # containers modelled at this address are overwritten by raw stores? no: never
        st.mem[(b, o)] = val
        if not silent:
            self.emit(st, Ev(k='write', base=b, off=o, ty=t, path=path, val=val, old=old, order=order, inst=inst))

    def copy_range(self, st, dst, src, n):
        if dst[0] != 'p' or src[0] != 'p' or not isinstance(dst[2], int) or not isinstance(src[2], int):
            if dst[0] == 'p' and isinstance(dst[2], int):
                self.forget_range(st, dst, n)
            return
        cells = [(o, v) for (b, o), v in st.mem.items() if b == src[1] and isinstance(o, int)
                 and src[2] <= o < src[2] + n]
        self.forget_range(st, dst, n)
        for o, v in cells:
            self.store(st, ('p', dst[1], dst[2] + o - src[2]), v, silent=True)
        z = st.mem.get((src[1], 'zero'))
        if z:
            for lo, m in z[1]:
                a, e = max(lo, src[2]), min(lo + m, src[2] + n)
                if a < e:
                    self.zero_range(st, ('p', dst[1], dst[2] + a - src[2]), e - a)

    def forget_range(self, st, dst, n):
        b = dst[1]
        for k in [k for k in st.mem if k[0] == b and isinstance(k[1], int) and dst[2] <= k[1] < dst[2] + n]:
            del st.mem[k]
        z = st.mem.get((b, 'zero'))
        if z:
            segs = []
            for lo, m in z[1]:
                hi = lo + m
                a, e = dst[2], dst[2] + n
                if e <= lo or a >= hi:
                    segs.append((lo, m))
                    continue
                if lo < a:
                    segs.append((lo, a - lo))
                if e < hi:
                    segs.append((e, hi - e))
            if segs:
                st.mem[(b, 'zero')] = ('z', tuple(segs))
            else:
                del st.mem[(b, 'zero')]

    def zero_range(self, st, dst, n):
        self.forget_range(st, dst, n)
        z = st.mem.get((dst[1], 'zero'))
        segs = (z[1] if z else ()) + ((dst[2], n),)
        st.mem[(dst[1], 'zero')] = ('z', tuple(sorted(segs)))

    # ---------------------------------------------------------------- events
    def emit(self, st, ev):
        fr = st.frames[-1] if st.frames else None
        ev['fr'] = fr
        self.rules.on_event(self, st, ev)

    def loc(self, st):
        """Innermost source position inside the analysed tree."""
        best = None
        for fr in reversed(st.frames):
            i = fr.fn.blocks[fr.bb][min(fr.ip, len(fr.fn.blocks[fr.bb]) - 1)]
            if i.get('l') and 'F' in i:
                p = '%s:%d' % (i['F'], i['l'])
                if best is None:
                    best = p
                if '/boost/fiber' in i['F'] or '/src/' in i['F'] and not i['F'].startswith('/usr'):
                    return p
        return best or '?'

    # ---------------------------------------------------------------- driver
    def run(self, fn, rules, setup=None, args=None):
        """Explore entry function fn to a fixpoint under rules."""
        if isinstance(fn, str):
            fn = self.P.fns[fn]
        self.rules = rules
        st = State()
        st.mem, st.facts, st.locks, st.esc, st.mon = {}, {}, (), frozenset(), {}
        st.caught, st.exc, st.names, st.trace, st.node = (), None, set(), None, None
        env = {}
        dt = fn.dt or []
        # map IR arguments to declared parameter types
        decl = dt[1:] if dt else []
        k0 = 1 if fn.sret else 0
        method = fn.cls is not None and fn.vars.get((k0, 'v'), (None, '', 0))[1] == 'this'
        argvals = []
        for k, (ty, sret) in enumerate(fn.args):
            t = self.P.strs[ty]
            if sret:
                v = ('p', 'a:ret', 0)
                self.symdesc['a:ret'] = 'result'
            elif k == k0 and method:
                v = ('p', 'this', 0)
                self.symty['this'] = self.P.pointee(fn.vars[(k, 'v')][0])
                self.symdesc['this'] = 'this'
            else:
                var = fn.vars.get((k, 'v'))
                nm = 'arg%d' % (k - k0)
                isp = t == 'ptr'
                boolv = var is not None and self.P.types.get(var[0], {}).get('n') == 'bool'
                if boolv:
                    nm = 'b:' + nm
                pt = self.P.pointee(var[0]) if var and isp else (var[0] if var else None)
                if isp and var is not None and 'reference' in self.P.types.get(var[0], {}).get('k', ''):
                    nm = 'nn:' + nm
                if isp and var is not None and pt is None and self.P.types.get(var[0], {}).get('k') in (
                        'DW_TAG_class_type', 'DW_TAG_structure_type'):
                    # passed by invisible reference
                    nm = 'nn:' + nm
                    pt = var[0]
                v = ('p', nm, 0) if isp else ('s', nm)
                self.symty[nm] = pt
                self.symdesc[nm] = var[1] if var and var[1] else nm
                st.names.add(nm)
            if args and (k - k0) in args:
                v = args[k - k0]
            env[k] = v
            argvals.append(v)
        st.frames = [Frame(fn, fn.entry, 0, env, self.ctxid(0, fn.name, 0), None)]
        self.entry_fn = fn
        self.argvals = argvals
        self.roots = {v[1] for v in argvals if v[0] in 'ps'} | {'this', 'a:ret', 'nn:active'}
        self.widen = {}
        self.slots = {}
        self.visited = set()
        self.stats['entries'] += 1
        self.nstates = 0
        self.fns_seen.add(fn.name)
        self.viol_seen = False
        t0 = time.time()
        rules.start(self, st)
        if setup:
            setup(self, st)
        work = [st]
        while work:
            s = work.pop()
            work.extend(self.step(s))
            if self.viol_seen and (self.nstates > 1500 or time.time() - t0 > 20):
                break       # a violation is on record; the rest of the space adds nothing
            if time.time() - t0 > 240:
                raise AnalysisError('time limit exceeded in %s' % fn.dem)
            if self.nstates > rules.max_states:
                raise AnalysisError('state limit exceeded in %s' % fn.dem)
        return self

    def gc(self, st):
        P = self.P
        n = len(st.frames)
        for k, fr in enumerate(st.frames):
            if k == n - 1:
                live = P.live_at(fr.fn, fr.bb, fr.ip)
            else:
                live = P.live_at(fr.fn, fr.bb, fr.ip + 1)
                # invoke results/phis handled by block liveness
            if len(fr.env) > len(live):
                fr.env = {i: v for i, v in fr.env.items() if i in live}
            elif any(i not in live for i in fr.env):
                fr.env = {i: v for i, v in fr.env.items() if i in live}
        live = set(self.roots)
        for fr in st.frames:
            for v in fr.env.values():
                syms_of(v, live)
        for v in st.mon.values():
            syms_of(v, live)
        syms_of(st.locks, live)
        if st.exc:
            syms_of(st.exc, live)
        syms_of(st.caught, live)
        bybase = {}
        for (b, o), v in st.mem.items():
            bybase.setdefault(b, []).append((o, v))
            if b.startswith('@'):
                live.add(b)
        todo = list(live)
        while todo:
            b = todo.pop()
            for o, v in bybase.get(b, ()):
                if v[0] == 'c' and not isinstance(o, tuple):
                    continue
                s = set()
                syms_of(v, s)
                if isinstance(o, tuple):
                    syms_of(o, s)
                for x in s:
                    if x not in live:
                        live.add(x)
                        todo.append(x)
        if any(b not in live for b in bybase):
            st.mem = {k: v for k, v in st.mem.items() if k[0] in live}
        nf = {}
        for k, v in st.facts.items():
            if _syms(k) <= live:
                nf[k] = v
        st.facts = nf
        st.names &= live
        st.esc = frozenset(x for x in st.esc if x in live)

    def key(self, st):
        return (tuple((f.fn.name, f.bb, f.ip, f.ctx, frozenset(f.env.items())) for f in st.frames),
                frozenset(st.mem.items()), frozenset(st.facts.items()), st.locks, st.esc,
                frozenset(st.mon.items()), st.caught, st.exc)

    def enter_block(self, st, bb):
        """Move the top frame to block bb (evaluating phis). False if already visited."""
        fr = st.frames[-1]
        prev = fr.bb
        insts = fr.fn.blocks[bb]
        vals = []
        k = 0
        for k, i in enumerate(insts):
            if i['o'] != 'phi':
                break
            vals.append((i, self.val(fr, i['in'][prev])))
        header = bb in fr.fn.headers
        for i, v in vals:
            if header:
                v = self.widen_val(st, fr, bb, i['i'], v, i['t'] == 'ptr', self.rules.widen_phi)
            fr.env[i['i']] = v
        fr.bb, fr.ip = bb, (len(vals))
        if header:
            for key in sorted((k for k in st.mem if k[1] != 'zero' and isinstance(st.mem[k], tuple)
                               and (st.mem[k][0] in ('c', 'o') or st.mem[k][0] == 'p' and st.mem[k][2] != 0)), key=repr):
                v = st.mem.get(key)
                if v is None:
                    continue        # dropped with the name an earlier cell was widened to
                nv = self.widen_val(st, fr, bb, key, v, False, self.rules.widen_mem)
                if nv is not v:
                    st.mem[key] = nv
        preds = fr.fn.preds.get(bb, ())
        if len(preds) > 1 or header:
            return self.merge(st)
        return True

    def merge(self, st):
        self.gc(st)
        key = self.key(st)
        if key in self.visited:
            return False
        self.visited.add(key)
        self.nstates += 1
        self.stats['states'] += 1
        return True

    def widen_val(self, st, fr, bb, slot, v, ptr, lim):
        if v[0] not in ('c', 'o') and not (v[0] == 'p' and v[2] != 0):
            return v
        seen = self.widen.setdefault((fr.ctx, bb, slot), set())
        if v not in seen:
            if v[0] == 'p':
                # a counted walk over one object, or an iterator
                lim = 40 if isinstance(slot, int) else 4
            if len(seen) >= lim:
                if v[0] == 'p' and all(x[0] == 'p' and x[1] == v[1] for x in seen):
                    o = self.fresh(st, 'w', '%d.%d.%s' % (fr.ctx, bb, self.slotno(slot)), False)
                    return ('p', v[1], ('ix', 0, ((o, 1),)))
                return self.fresh(st, 'w', '%d.%d.%s' % (fr.ctx, bb, self.slotno(slot)), ptr or v[0] == 'p')
            seen.add(v)
        return v

    def slotno(self, slot):
        return slot if isinstance(slot, int) else 'm%d' % self.slots.setdefault(slot, len(self.slots))

    def val(self, fr, o):
        k = o[0]
        if k == 'v':
            try:
                return fr.env[o[1]]
            except KeyError:
                return U
        if k == 'c':
            return o
        if k == 'g':
            return ('p', '@' + o[1], o[2])
        if k == 'f':
            return o
        if k == 'agg':
            return ('agg',) + tuple(self.val(fr, x) for x in o[1:])
        if k == 'z':
            return ('z',)
        if k == 'm':
            return ('m',)
        return U

    def step(self, st):
        """Run st until it forks, merges or ends; returns successor states."""
        while True:
            fr = st.frames[-1]
            inst = fr.fn.blocks[fr.bb][fr.ip]
            self.stats['steps'] += 1
            op = inst['o']
            h = getattr(self, 'op_' + op, None)
            if h is None:
                if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
                    a, b = (self.val(fr, x) for x in inst['as'])
                    fr.env[inst['i']] = mkop(op, (a, b), inst.get('w', 64))
                    fr.ip += 1
                    continue
                if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
                    v = self.val(fr, inst['as'][0])
                    if v[0] == 'c':
                        w = inst.get('w', 64)
                        if op == 'trunc':
                            m = re.match(r'i(\d+)$', inst['t'])
                            v = ('c', v[1] & ((1 << int(m.group(1))) - 1))
                        elif op == 'sext':
                            m = re.match(r'i(\d+)$', inst['t'])
                            v = ('c', sgn(v[1], w) & ((1 << int(m.group(1))) - 1))
                    elif op == 'sext' and is_bool(v):
                        v = ('o', 'sextb', v, 1)
                    elif op == 'trunc' and inst['t'] == 'i1' and not is_bool(v) and v[0] in 'so':
                        v = mknot(mkcmp('eq', v, ZERO, 8)) if v[0] == 's' else ('o', 'bool', v, 1)
                    fr.env[inst['i']] = v
                    fr.ip += 1
                    continue
                # floating point and others: uninterpreted
                args = tuple(self.val(fr, x) for x in inst.get('as', ()))
                if 'i' in inst:
                    fr.env[inst['i']] = ('o', op) + args + (64,) if depth(args) < 12 else ('o', 'deep', 64)
                fr.ip += 1
                continue
            r = h(st, fr, inst)
            if r is None:
                continue
            return r

    # ---- simple instructions
    def op_alloca(self, st, fr, i):
        b = 'a:%d.%d' % (fr.ctx, i['i'])
        if b in st.names:
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
            st.esc = st.esc - {b}
        st.names.add(b)
        var = fr.fn.vars.get((i['i'], 'a'))
        if var:
            self.symty[b] = var[0]
            self.symdesc[b] = var[1]
        else:
            m = re.match(r'%"?(class|struct)\.(.*?)"?$', i['at'])
            if m:
                t = self.type_by_ir(m.group(2))
                if t is not None:
                    self.symty[b] = t
        fr.env[i['i']] = ('p', b, 0)
        fr.ip += 1

    def type_by_ir(self, n):
        c = getattr(self, '_irt', None)
        if c is None:
            c = self._irt = {}
            for t, ty in self.P.types.items():
                if 'q' in ty and ty.get('els') and ty['k'] in ('DW_TAG_class_type', 'DW_TAG_structure_type'):
                    c.setdefault(re.sub(r'<.*', '', ty['q'] + ty['n']), t)
        return c.get(re.sub(r'\.\d+$', '', n))

    def op_load(self, st, fr, i):
        p = self.val(fr, i['p'])
        m = AGG.match(i['t'])
        if m and p[0] == 'p':
            ts = [x.strip() for x in m.group(1).split(',')]
            fr.env[i['i']] = ('agg',) + tuple(self.load(st, ('p', p[1], addoff(p[2], 8 * k)), '%d.%d.%d' % (fr.ctx, i['i'], k), x == 'ptr', 8, i)
                                              for k, x in enumerate(ts))
            fr.ip += 1
            return
        v = self.load(st, p, '%d.%d' % (fr.ctx, i['i']), i['t'] == 'ptr', i['sz'], i, order=i['ord'])
        if i['t'].startswith('{') or i['t'].startswith('%') or i['t'].startswith('['):
            v = U if v[0] == 's' else v
        fr.env[i['i']] = v
        fr.ip += 1

    def op_store(self, st, fr, i):
        v = self.val(fr, i['x'])
        p = self.val(fr, i['p'])
        if v == ('z',) or (v[0] == 'agg'):
            if p[0] == 'p' and isinstance(p[2], int):
                if v == ('z',):
                    self.zero_range(st, p, i['sz'])
                else:
                    self.forget_range(st, p, i['sz'])
                    n = len(v) - 1
                    if n and i['sz'] % n == 0:
                        for k in range(n):
                            self.store(st, ('p', p[1], p[2] + k * (i['sz'] // n)), v[1 + k], i, silent=True)
            fr.ip += 1
            return
        self.store(st, p, v, i, i['ord'])
        fr.ip += 1

    def op_getelementptr(self, st, fr, i):
        p = self.val(fr, i['p'])
        if p[0] == 's':
            p = ('p', p[1], 0)
        off = i.get('c', 0)
        terms = []
        for v, s in i.get('vi', ()):
            x = self.val(fr, v)
            if x[0] == 'c':
                off += sgn(x[1], 64) * s
            else:
                terms.append((x, s))
        o = ('ix', off, tuple(terms)) if terms else off
        if p[0] == 'p':
            r = ('p', p[1], addoff(p[2], o))
        elif p[0] == 'vt':
            r = ('vt', p[1], p[2] + off)
        elif p == ZERO and not terms:
            r = ('c', off & MASK[64])
        elif p[0] == 'o' and p[1] == 'and' and not terms:
            r = ('p', self.opaque_base(st, p), off)
        else:
            r = U
        if r[0] == 'p' and 'st' in i and r[1] not in self.symty and i['p'][0] == 'v' and isinstance(p, tuple) \
                and p[0] == 'p' and p[2] == 0:
            m = re.match(r'(class|struct)\.(.*)$', i['st'])
            if m:
                t = self.type_by_ir(m.group(2))
                if t is not None:
                    self.symty[r[1]] = t
        fr.env[i['i']] = r
        fr.ip += 1

    def op_icmp(self, st, fr, i):
        a, b, w = self.val(fr, i['a']), self.val(fr, i['b']), i['w']
        fr.env[i['i']] = self.cmp(i['pr'], a, b, w)
        fr.ip += 1

    @staticmethod
    def cmp(pr, a, b, w):
        if pr == 'eq':
            return mkcmp('eq', a, b, w)
        if pr == 'ne':
            return mknot(mkcmp('eq', a, b, w))
        s = 'slt' if pr[0] == 's' else 'ult'
        if pr[1:] == 'lt':
            return mkcmp(s, a, b, w)
        if pr[1:] == 'gt':
            return mkcmp(s, b, a, w)
        if pr[1:] == 'ge':
            return mknot(mkcmp(s, a, b, w))
        return mknot(mkcmp(s, b, a, w))

    def op_fcmp(self, st, fr, i):
        fr.env[i['i']] = ('o', 'bool', ('o', 'fcmp' + i['pr'], self.val(fr, i['a']), self.val(fr, i['b']), 64), 1)
        fr.ip += 1

    def op_select(self, st, fr, i):
        c, a, b = (self.val(fr, x) for x in i['as'])
        t = st.truth(c)
        if t is None:
            out = []
            for tv, v in ((True, a), (False, b)):
                s = st.copy()
                if self.assume(s, c, tv):
                    f = s.frames[-1]
                    f.env[i['i']] = self.val(f, i['as'][1 if tv else 2])
                    f.ip += 1
                    out.append(s)
            return out
        fr.env[i['i']] = a if t else b
        fr.ip += 1

    def op_extractvalue(self, st, fr, i):
        a = self.val(fr, i['a'])
        for k in i['ix']:
            if a[0] == 'agg' and k + 1 < len(a):
                a = a[1 + k]
            elif a == ('z',):
                a = ZERO
            elif a[0] == 's' or (a[0] == 'o' and a[1] == 'ex'):
                a = ('o', 'ex', a, ('c', k), 64)
            else:
                a = U
        fr.env[i['i']] = a
        fr.ip += 1

    def op_insertvalue(self, st, fr, i):
        a, x = self.val(fr, i['a']), self.val(fr, i['x'])
        ix = i['ix']

        def ins(a, ix):
            k = ix[0]
            l = list(a[1:]) if a[0] == 'agg' else []
            while len(l) <= k:
                l.append(U)
            l[k] = x if len(ix) == 1 else ins(l[k], ix[1:])
            return ('agg',) + tuple(l)
        fr.env[i['i']] = ins(a, ix)
        fr.ip += 1

    def op_fence(self, st, fr, i):
        if not i.get('single'):
            self.emit(st, Ev(k='fence', order=i['ord'], inst=i))
        fr.ip += 1

    def op_atomicrmw(self, st, fr, i):
        p, x = self.val(fr, i['p']), self.val(fr, i['x'])
        if p[0] != 'p':
            p = ('p', self.opaque_base(st, p), 0)
        w = i['sz'] * 8
        b, o = p[1], p[2]
        old = st.mem.get((b, o))
        if old is None or self.shared(st, b) and not self.rules.sequential:
            st.mem.pop((b, o), None)
            old = self.load(st, p, '%d.%d' % (fr.ctx, i['i']), i['t'] == 'ptr', i['sz'], i, silent=True, order='rmw')
        rm = i['rmw']
        new = x if rm == 'xchg' else mkop(rm, (old, x), w) if rm in ('add', 'sub', 'and', 'or', 'xor') else U
        self.store(st, p, new, i, silent=True)
        t, path, leaf = self.field_of(b, o)
        fr.env[i['i']] = old
        self.emit(st, Ev(k='rmw', rmw=rm, base=b, off=o, ty=t, path=path, old=old, x=x, val=new, order=i['ord'], inst=i))
        fr.ip += 1

    def op_cmpxchg(self, st, fr, i):
        p, x, y = self.val(fr, i['p']), self.val(fr, i['x']), self.val(fr, i['y'])
        if p[0] != 'p':
            p = ('p', self.opaque_base(st, p), 0)
        b, o = p[1], p[2]
        t, path, leaf = self.field_of(b, o)
        out = []
        if self.rules.sequential and not i.get('weak') and (b, o) in st.mem:
            # one thread only: the outcome is determined by the current value
            old = st.mem[b, o]
            eq = st.known_eq(old, x)
            if eq is not None:
                if eq:
                    self.store(st, p, y, i, silent=True)
                fr.env[i['i']] = ('agg', old, ONE if eq else ZERO)
                fr.ip += 1
                return [st]
        s = st.copy()
        f = s.frames[-1]
        self.store(s, p, y, i, silent=True)
        f.env[i['i']] = ('agg', x, ONE)
        s.say('%s: compare_exchange on %s succeeds (%s)' % (self.loc(s), self.where(p), i['ord']))
        self.emit(s, Ev(k='cas', ok=True, base=b, off=o, ty=t, path=path, exp=x, val=y, order=i['ord'],
                        forder=i['ford'], inst=i))
        f.ip += 1
        out.append(s)
        s = st.copy()
        f = s.frames[-1]
        s.mem.pop((b, o), None)
        old = self.load(s, p, '%d.%d' % (f.ctx, i['i']), x[0] == 'p' or leaf is not None and
                        self.P.pointee(leaf) is not None, i['sz'], i, silent=True, order='rmw')
        feasible = True
        if not i.get('weak'):
            feasible = self.assume(s, mkcmp('eq', old, self.val(f, i['x']), i['sz'] * 8), False)
        if feasible:
            f.env[i['i']] = ('agg', old, ZERO)
            s.say('%s: compare_exchange on %s fails' % (self.loc(s), self.where(p)))
            self.emit(s, Ev(k='cas', ok=False, base=b, off=o, ty=t, path=path, exp=x, val=y, old=old, order=i['ford'],
                            sorder=i['ord'], inst=i))
            f.ip += 1
            out.append(s)
        return out

    # ---- control
    def op_br(self, st, fr, i):
        if 'E' not in i:
            return None if self.enter_block(st, i['T']) else []
        c = self.val(fr, i['c'])
        t = st.truth(c)
        if t is not None:
            return None if self.enter_block(st, i['T'] if t else i['E']) else []
        out = []
        for tv in (True, False):
            s = st.copy()
            cc = c
            desc = self.where(cc)
            if not self.assume(s, cc, tv):
                continue
            s.say('%s: %s is %s' % (self.loc(s), desc, 'true' if tv else 'false'))
            self.emit(s, Ev(k='assume', e=cc, val=tv, inst=i))
            if self.enter_block(s, i['T'] if tv else i['E']):
                out.append(s)
        return out

    def op_switch(self, st, fr, i):
        c = self.val(fr, i['c'])
        m = (1 << i['w']) - 1
        if c[0] == 'c':
            for k, b in i['cs']:
                if (k & m) == (c[1] & m):
                    return None if self.enter_block(st, b) else []
            return None if self.enter_block(st, i['E']) else []
        out = []
        neg = []
        for k, b in i['cs']:
            s = st.copy()
            e = mkcmp('eq', c, ('c', k & m), i['w'])
            if self.assume(s, e, True):
                s.say('%s: %s == %d' % (self.loc(s), self.where(c), k))
                self.emit(s, Ev(k='assume', e=e, val=True, inst=i))
                if self.enter_block(s, b):
                    out.append(s)
            neg.append(e)
        s = st.copy()
        if all(self.assume(s, e, False) for e in neg):
            for e in neg:
                self.emit(s, Ev(k='assume', e=e, val=False, inst=i))
            if self.enter_block(s, i['E']):
                out.append(s)
        return out

    def op_unreachable(self, st, fr, i):
        self.stats['paths'] += 1
        self.rules.exit(self, st, 'unreachable', None)
        return []

    def op_ret(self, st, fr, i):
        v = self.val(fr, i['as'][0]) if i.get('as') else None
        if len(st.frames) == 1:
            self.stats['paths'] += 1
            st.say('%s: return %s' % (self.loc(st), self.where(v) if v else ''))
            self.rules.exit(self, st, 'ret', v)
            return []
        st.frames.pop()
        self.kill_allocas(st, fr.ctx)
        caller = st.frames[-1]
        if fr.tag:
            r = fr.tag(self, st, v)
            if r is not None:
                return r
        return self.call_done(st, fr.inst, v)

    def kill_allocas(self, st, ctx):
        pre = 'a:%d.' % ctx
        ks = [k for k in st.mem if k[0].startswith(pre)]
        for k in ks:
            del st.mem[k]

    def call_done_list(self, st, inst, v):
        r = self.call_done(st, inst, v)
        return [st] if r is None else r

    def call_done(self, st, inst, v):
        """Value v is the result of the call at the top frame's current instruction."""
        fr = st.frames[-1]
        if 'i' in inst:
            fr.env[inst['i']] = v if v is not None else U
        if inst['o'] == 'invoke':
            return None if self.enter_block(st, inst['T']) else []
        fr.ip += 1
        return None

    # ---- exceptions
    def throw(self, st, exc):
        """Unwind from the top frame's current call with exception exc."""
        while True:
            fr = st.frames[-1]
            inst = fr.fn.blocks[fr.bb][fr.ip]
            if inst['o'] == 'invoke':
                st.exc = exc
                if not self.enter_block(st, inst['E']):
                    return []
                return None
            if fr.fn.nu:
                st.say('%s: exception leaves a noexcept function' % self.loc(st))
                self.stats['paths'] += 1
                self.rules.exit(self, st, 'terminate', exc)
                return []
            if len(st.frames) == 1:
                self.stats['paths'] += 1
                st.exc = exc
                st.say('%s: exception %s leaves the function' % (self.loc(st), self.excname(exc)))
                self.rules.exit(self, st, 'throw', exc)
                return []
            st.frames.pop()
            self.kill_allocas(st, fr.ctx)

    def excname(self, exc):
        if exc and exc[1]:
            g = self.P.globals.get(exc[1])
            return g['dem'].replace('typeinfo for ', '') if g else exc[1]
        return 'of unknown type'

    def tiid(self, ti):
        c = getattr(self, '_ti', None)
        if c is None:
            c = self._ti = {}
        return c.setdefault(ti, len(c) + 1)

    def op_landingpad(self, st, fr, i):
        exc = st.exc
        ti, excluded = exc[1], exc[3]
        out = []
        obj = exc[2]
        cur = st
        for kind, cl in i['cs']:
            if kind != 'catch':
                continue
            if cl[0] == 'c':     # catch (...)
                f = cur.frames[-1]
                f.env[i['i']] = ('agg', cur.exc[2], ('c', 0x7fffffff))
                f.ip += 1
                out.append(cur)
                return out if len(out) > 1 else (None if out[0] is st else out)
            g = cl[1]
            if ti is not None:
                if self.P.tinfo_isa(ti, g):
                    f = cur.frames[-1]
                    f.env[i['i']] = ('agg', cur.exc[2], ('c', self.tiid(g)))
                    f.ip += 1
                    return None if cur is st and not out else out + [cur]
                continue
            if any(self.P.tinfo_isa(g, x) for x in excluded):
                continue
            s = cur.copy()
            f = s.frames[-1]
            s.exc = ('exc', g, obj, excluded)
            f.env[i['i']] = ('agg', s.exc[2], ('c', self.tiid(g)))
            f.ip += 1
            s.say('%s: exception is a %s' % (self.loc(s), self.excname(s.exc)))
            out.append(s)
            excluded = excluded + (g,)
            cur.exc = ('exc', None, obj, excluded)
        if i['cl']:
            f = cur.frames[-1]
            f.env[i['i']] = ('agg', cur.exc[2], ZERO)
            f.ip += 1
            return None if cur is st and not out else out + [cur]
        # not caught here: unwind further
        fr2 = cur.frames[-1]
        r = self.unwind_further(cur)
        if r is None:
            out.append(cur)
        else:
            out += r
        return out

    def unwind_further(self, st):
        """The top frame cannot handle st.exc: leave it."""
        exc = st.exc
        fr = st.frames[-1]
        if fr.fn.nu or len(st.frames) == 1:
            self.stats['paths'] += 1
            kind = 'terminate' if fr.fn.nu else 'throw'
            st.say('%s: exception %s leaves the function' % (self.loc(st), self.excname(exc)))
            self.rules.exit(self, st, kind, exc)
            return []
        st.frames.pop()
        self.kill_allocas(st, fr.ctx)
        return self.throw(st, exc)

    def op_resume(self, st, fr, i):
        if st.exc is None:
            st.exc = ('exc', None, U, ())
        return self.unwind_further(st)

    # ---- calls
    def op_call(self, st, fr, i):
        return self.do_call(st, fr, i)

    op_invoke = op_call

    def do_call(self, st, fr, i):
        f = self.val(fr, i['f']) if i['f'][0] != 'f' else i['f']
        args = [self.val(fr, a) for a in i['as']]
        if 'asm' in i:
            v = self.fresh(st, 'asm', '%d.%d' % (fr.ctx, i.get('i', 0)), False) if 'i' in i else None
            self.emit(st, Ev(k='asm', text=i['asm'], res=v, inst=i))
            if self.rules.asm_ends(self, st, i['asm']):
                return []
            return self.call_done(st, i, v)
        if f[0] == 'vf':
            t = self.symty.get(f[1])
            name = self.P.vfn(t, f[2]) if t is not None else None
            cls = self.P.tshort(t) if t is not None else '?'
            tgt = self.rules.resolve_virtual(self, st, f[1], 0, f[2], name)
            if tgt is not None:
                f = ('f', tgt)
            else:
                return self.finish(st, i, self.virtual(st, fr, i, cls, name, args, f))
        if f[0] == 'p' and f[1] == 'null!':
            self.emit(st, Ev(k='nullcall', args=tuple(args), inst=i))
            return []               # undefined: the path ends here
        if f[0] != 'f':
            return self.finish(st, i, self.opaque(st, fr, i, None, args, 'indirect:' + self.where(f), fv=f))
        fn = self.P.fns.get(f[1])
        if fn is None:
            raise AnalysisError('unknown function ' + f[1])
        return self.call_fn(st, fr, i, fn, args)

    def call_fn(self, st, fr, i, fn, args):
        short = fn.short
        self.stats['calls'] += 1
        r = self.rules.model(self, st, fr, i, fn, args)
        if r is not None:
            return self.finish(st, i, r)
        key = '%s/%d' % (short, fn.np)
        if short not in self.rules.inline and key not in self.rules.inline and not (
                self.rules.inline_prefix and short.startswith(self.rules.inline_prefix) and fn.defined and self.depth(st, fn) <= 2):
            m = self.models.get(key) or self.models.get(short)
            if m is None and INTR.match(fn.name):
                m = self.intrinsic
            if m is not None:
                r = m(self, st, fr, i, fn, args)
                if r is not None:
                    return self.finish(st, i, r)
            op = short in self.rules.opaque or key in self.rules.opaque or \
                (short.startswith(OPAQUE_PREFIX) and not short.startswith('std::__exception_ptr::exception_ptr::swap'))
            if op or not fn.defined or self.depth(st, fn) > 2:
                return self.finish(st, i, self.opaque(st, fr, i, fn, args, short))
        if not fn.defined:
            return self.finish(st, i, self.opaque(st, fr, i, fn, args, short))
        return self.push(st, fr, i, fn, args)

    def depth(self, st, fn):
        return sum(1 for f in st.frames if f.fn is fn)

    def push(self, st, fr, i, fn, args, tag=None):
        env = {}
        for k in range(len(fn.args)):
            env[k] = args[k] if k < len(args) else U
        iid = fr.fn.blocks[fr.bb].index(i) if False else id_of(i)
        ctx = self.ctxid(fr.ctx, fn.name, (fr.bb, fr.ip))
        # pointer arguments of unknown type take the parameter's declared type
        for k, v in env.items():
            if v[0] == 'p' and v[2] == 0 and self.symty.get(v[1]) is None:
                var = fn.vars.get((k, 'v'))
                if var:
                    pt = self.P.pointee(var[0])
                    if pt is not None and self.P.types.get(pt, {}).get('els'):
                        self.symty[v[1]] = pt
        self.fns_seen.add(fn.name)
        st.frames.append(Frame(fn, fn.entry, 0, env, ctx, i, tag))
        if len(st.frames) > 60:
            raise AnalysisError('inline depth exceeded at ' + fn.dem)
        return None

    def finish(self, st, inst, outs):
        """outs: list of (state, value|('throw', ti, obj)) produced by a model."""
        res = []
        for s, v in outs:
            if v is not None and v[0] == 'stop':
                continue
            if v is not None and v[0] == 'throw':
                r = self.throw(s, ('exc', v[1], v[2] if len(v) > 2 else U, ()))
            elif v is not None and v[0] == 'inline':
                r = self.push(s, s.frames[-1], inst, v[1], v[2], v[3] if len(v) > 3 else None)
            else:
                r = self.call_done(s, inst, v)
            if r is None:
                res.append(s)
            else:
                res += r
        if len(res) == 1 and res[0] is st:
            return None
        return res

    def virtual(self, st, fr, i, cls, name, args, f):
        st.say('%s: virtual call %s::%s' % (self.loc(st), cls, name))
        self.vslot = f[2]
        return self.opaque(st, fr, i, None, args, '%s::%s' % (cls, name), virt=name)

    def result_sym(self, st, fr, i, fn, name):
        if 'i' not in i:
            return None
        ptr = i['t'] == 'ptr'
        ty = None
        boolv = i['t'] == 'i1'
        nn = False
        if fn is not None and fn.dt:
            rt = fn.dt[0]
            if ptr:
                ty = self.P.pointee(rt)
                nn = 'reference' in self.P.types.get(rt, {}).get('k', '')
            else:
                ty = rt
                boolv = boolv or self.P.types.get(rt, {}).get('n') == 'bool'
        base = name.split('::')[-1]
        return self.fresh(st, ('b:' if boolv else ('nn:' if nn else '')) + 'r_' + base + '@', '%d.%d' % (fr.ctx, i['i']), ptr, ty, base + '()')

    def opaque(self, st, fr, i, fn, args, name, virt=None, fv=None, throws=None, havoc_args=True):
        """A call whose body is not analysed."""
        out = []
        self.emit(st, Ev(k='precall', name=name, fn=fn, args=tuple(args), inst=i, virt=virt))
        may = throws
        if may is None:
            may = self.rules.opaque_throws and not i.get('nt') and not (fn is not None and fn.nu) and virt is None
            if may and fn is not None and not self.may_throw(fn):
                may = False
        if fn is not None and fn.nr:
            # does not return: __throw_xxx or terminate
            self.emit(st, Ev(k='call', name=name, fn=fn, args=tuple(args), res=None, inst=i, virt=virt))
            if 'throw' in name:
                return [(st, ('throw', None))]
            self.stats['paths'] += 1
            self.rules.exit(self, st, 'terminate', None)
            return [(st, ('stop',))]
        if may:
            s = st.copy()
            s.say('%s: %s throws' % (self.loc(s), name))
            self.emit(s, Ev(k='call', name=name, fn=fn, args=tuple(args), res=None, inst=i, virt=virt, threw=True))
            if havoc_args:
                self.clobber(s, fn, args)
            out.append((s, ('throw', None)))
        for a in args:
            self.escape_arg(st, fn, a)
        if havoc_args:
            self.clobber(st, fn, args)
        v = self.result_sym(st, st.frames[-1], i, fn, name)
        self.emit(st, Ev(k='call', name=name, fn=fn, args=tuple(args), res=v, inst=i, virt=virt))
        out.append((st, v))
        return out

    def may_throw(self, fn):
        if fn.short.startswith(('std::map::', 'std::set::')) and 'std::less<unsigned long>' in fn.dem and \
                fn.short.rsplit('::', 1)[-1] in ('find', 'erase', 'lower_bound', 'upper_bound', 'count', 'contains', 'swap'):
            return False        # these only compare keys
        return not (fn.short.startswith('boost::fibers::detail::spinlock') or fn.short in NOTHROW)

    def escape_arg(self, st, fn, a):
        pass

    def clobber(self, st, fn, args):
        """Cells reachable through non-const pointer arguments of an opaque call change."""
        cst = fn is not None and fn.dem.endswith(' const')
        k0 = 0
        for k, a in enumerate(args):
            if a[0] == 'p' and not a[1].startswith('@'):
                if k == 0 and cst:
                    continue
                if fn is not None and self.param_const(fn, k):
                    continue
                if a[2] == 0 and a[1] == 'this':
                    continue
                b, o = a[1], a[2]
                t = self.symty.get(b)
                sz = None
                if fn is not None:
                    var = fn.vars.get((k, 'v'))
                    if var:
                        pt = self.P.pointee(var[0])
                        sz = self.P.types.get(pt, {}).get('sz') if pt is not None else None
                if sz is None and isinstance(o, int) and o > 0 and t is not None:
                    sz = self.P.member_size(t, o)
                if isinstance(o, int) and sz:
                    for key in [c for c in st.mem if c[0] == b and isinstance(c[1], int) and o <= c[1] < o + sz]:
                        del st.mem[key]
                elif base_fresh(b):
                    for key in [c for c in st.mem if c[0] == b]:
                        del st.mem[key]

    def param_const(self, fn, k):
        # parameters declared "T const&" never change the object
        m = re.search(r'\((.*)\)( const)?$', fn.dem)
        if not m:
            return False
        ps, d, cur = [], 0, ''
        for c in m.group(1):
            if c in '(<{[':
                d += 1
            elif c in ')>}]':
                d -= 1
            if c == ',' and d == 0:
                ps.append(cur)
                cur = ''
            else:
                cur += c
        ps.append(cur)
        extra = len(fn.args) - len([p for p in ps if p.strip()])
        j = k - extra
        return 0 <= j < len(ps) and ps[j].strip().endswith('const&')

    def intrinsic(self, eng, st, fr, i, fn, args):
        n = fn.name
        if n.startswith('llvm.lifetime.end'):
            p = args[1]
            if p[0] == 'p' and p[1][:2] == 'a:':
                self.emit(st, Ev(k='lifetime_end', base=p[1], inst=i))
                for k in [k for k in st.mem if k[0] == p[1]]:
                    del st.mem[k]
                st.esc = st.esc - {p[1]}
            return [(st, None)]
        if n.startswith('llvm.lifetime.start'):
            p = args[1]
            if p[0] == 'p':
                for k in [k for k in st.mem if k[0] == p[1]]:
                    del st.mem[k]
            return [(st, None)]
        if n.startswith('llvm.expect'):
            return [(st, args[0])]
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            if args[2][0] == 'c':
                self.copy_range(st, args[0], args[1], args[2][1])
            return [(st, None)]
        if n.startswith('llvm.memset'):
            if args[0][0] == 'p' and isinstance(args[0][2], int) and args[2][0] == 'c':
                if args[1] == ZERO:
                    self.zero_range(st, args[0], args[2][1])
                else:
                    self.forget_range(st, args[0], args[2][1])
            return [(st, None)]
        if n.startswith('llvm.eh.typeid.for'):
            a = args[0]
            return [(st, ('c', self.tiid(a[1][1:])) if a[0] == 'p' else ('c', 0x7ffffffe))]
        if '.with.overflow' in n:
            op = re.search(r'llvm\.[us](\w+)\.with', n).group(1)
            v = mkop(op, args, 64)
            return [(st, ('agg', v, ZERO))]
        if n.startswith('llvm.assume') or n.startswith('llvm.prefetch') or n.startswith('llvm.experimental') \
                or n.startswith('llvm.stack') or n.startswith('llvm.invariant'):
            return [(st, None if 'i' not in i else U)]
        if n.startswith('llvm.umin') or n.startswith('llvm.umax') or n.startswith('llvm.smin') or n.startswith('llvm.smax'):
            return [(st, mkop(n.split('.')[1], args, 64))]
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            return [(st, ('stop',))]
        if n.startswith('llvm.threadlocal.address'):
            return [(st, args[0])]
        v = None
        if 'i' in i:
            v = ('o', n.split('.')[1]) + tuple(args) + (64,)
        return [(st, v)]


NOTHROW = set()


def id_of(i):
    return i.get('i', 0)


def _mentions(v, name):
    s = set()
    syms_of(v, s)
    return name in s


def _rename(v, name, ren):
    if isinstance(v, tuple):
        if not v:
            return v
        k = v[0]
        if k == 's' and len(v) == 2:
            return ('s', ren) if v[1] == name else v
        if k == 'p' and len(v) == 3 and isinstance(v[1], str):
            o = _rename(v[2], name, ren) if isinstance(v[2], tuple) else v[2]
            if v[1] == name or o is not v[2]:
                return ('p', ren if v[1] == name else v[1], o)
            return v
        if k == 'vt' and len(v) == 3:
            return ('vt', ren, v[2]) if v[1] == name else v
        ch = False
        r = []
        for x in v:
            y = _rename(x, name, ren) if isinstance(x, (tuple, frozenset)) else x
            ch = ch or y is not x
            r.append(y)
        return tuple(r) if ch else v
    if isinstance(v, frozenset):
        return frozenset(_rename(x, name, ren) for x in v)
    return v
