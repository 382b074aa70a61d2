"""Shared monitor machinery: guarded-atomic-action extraction over critical sections."""
from engine import Rules, Ev, U, ZERO, ONE, mkcmp, mkop, mknot, addoff, syms_of, AnalysisError, is_bool
from ctx import Broken, SRC, NS

ACTIVE = ('p', 'nn:active', 0)
EDEADLK, EPERM, EINVAL = 35, 1, 22


def leaf_members(P, t, pre='', base=0, depth=0):
    """(offset, dotted name, type name, type id) of the direct and inherited data members of record t."""
    out = []
    for off, nm, et in P.types.get(t, {}).get('els', ()):
        if nm == '':
            out += leaf_members(P, et, pre, base + off, depth + 1)
        else:
            out.append((base + off, pre + nm, P.tname(et), et))
    return out


def top_members(P, t):
    """(offset, name, type name, type id) of the direct members, base classes flattened."""
    out = []
    for off, nm, et in P.types.get(t, {}).get('els', ()):
        if nm == '':
            out += [(off + o, n, tn, x) for o, n, tn, x in top_members(P, et)]
        else:
            out.append((off, nm, P.tname(et), et))
    return out


def record(P, qname, ctx=None):
    ts = [i for i, ty in P.types.items() if 'q' in ty and ty.get('els') and P.tname(i) == qname] or P.find_type(qname)
    if not ts:
        raise Broken('anchor vanished: no record type ' + qname)
    return ts[0]


def member(P, t, pred, what):
    """The unique member satisfying pred; Broken when absent or ambiguous."""
    ms = [m for m in leaf_members(P, t) if pred(m)]
    if len(ms) != 1:
        raise Broken('anchor vanished: %s has %d members matching "%s"' % (P.tname(t), len(ms), what))
    return ms[0]


def by_type(P, t, tn, what=None, name=None):
    """The member of type tn (exact, or prefix when it ends with *)."""
    def pred(m):
        x = m[2].replace('const ', '')
        return (x.startswith(tn[:-1]) if tn.endswith('%') else x == tn)
    ms = [m for m in leaf_members(P, t) if pred(m)]
    if name is not None and len(ms) != 1:
        ms = [m for m in ms if m[1] == name] or [m for m in leaf_members(P, t) if m[1] == name]
    if len(ms) != 1:
        raise Broken('anchor vanished: %s has %d members of type %s' % (P.tname(t), len(ms), tn))
    return ms[0]


SPINT = NS + 'detail::spinlock%'


def overlaps(lockptr, base, off, size):
    return lockptr[0] == 'p' and lockptr[1] == base and isinstance(lockptr[2], int) and off <= lockptr[2] < off + size


class Mon(Rules):
    """Monitor with reporting helpers."""
    watch = {}      # callee short name -> event kind: summarised by that event

    def model(self, eng, st, fr, i, fn, args):
        k = self.watch.get(fn.short) or self.watch.get('%s/%d' % (fn.short, fn.np))
        if k is None:
            return None
        v = eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None
        eng.emit(st, Ev(k=k, args=tuple(args), short=fn.short, held=st.locks, inst=i, res=v, fnp=fn.np))
        st.say('%s: %s(%s)' % (eng.loc(st), fn.short.split('::')[-1], ', '.join(eng.where(a) for a in args[:3])))
        return [(st, v)]

    def report(self, eng, st, rule, msg, where=None):
        w = where or self.fn.short
        self.ctx.violation(rule, w, msg, eng.loc(st), st.path())
        eng.viol_seen = True

    def ok(self, eng, st, rule, site=None):
        self.ctx.ok(rule, site or self.fn.short)

    def check(self, eng, st, rule, cond, msg, site=None, where=None):
        self.ctx.ok(rule, site or self.fn.short)
        if not cond:
            self.report(eng, st, rule, msg, where)
        return cond


class CS(Mon):
    """Extracts the guarded atomic actions of one object: at each acquisition of its lock
    the state fields are snapshotted, at each release the transition is handed to
    cs_end()."""
    base = 'this'
    lockoff = None          # (offset, size) of the guarding lock inside the object
    fields = {}             # name -> (offset, is_pointer, size)

    def is_lock(self, eng, st, lock):
        return lock[0] == 'p' and lock[1] == self.base and isinstance(lock[2], int) and \
            self.lockoff[0] <= lock[2] < self.lockoff[0] + max(self.lockoff[1], 1)

    def held(self, eng, st):
        return any(self.is_lock(eng, st, l) for l in st.locks)

    def cell(self, eng, st, name):
        o, ptr, sz = self.fields[name]
        return eng.load(st, ('p', self.base, o), ('cs.' if 'ncs' in st.mon else 'cs0.') + name, ptr, sz, silent=True)

    def pre(self, st, name):
        return st.mon.get('pre.' + name)

    def fname(self, ev):
        """Name of the tracked field an event's address falls on."""
        if ev.base != self.base or not isinstance(ev.off, int):
            return None
        for n, (o, p, s) in self.fields.items():
            if o <= ev.off < o + s:
                return n
        return None

    def begin(self, eng, st):
        for n in self.fields:
            st.mon['pre.' + n] = self.cell(eng, st, n)
        st.mon['cs'] = ()
        self.cs_begin(eng, st)

    def on_event(self, eng, st, ev):
        k = ev.k
        if k == 'acquired' and self.is_lock(eng, st, ev.lock):
            self.begin(eng, st)
        elif k == 'release' and self.is_lock(eng, st, ev.lock) and 'cs' in st.mon:
            self.cs_end(eng, st, ev.why)
            for n in self.fields:
                st.mon.pop('pre.' + n, None)
            st.mon.pop('cs', None)
            # what the first section saw keeps its own names: it outlives later rounds of a loop
            st.mon['ncs'] = ONE
        elif 'cs' in st.mon and k in ('notify', 'wq_none', 'enqueue', 'cont', 'wake', 'schedule', 'wq_empty', 'cv_notify'):
            if not (k == 'cont' and ev.op in ('empty', 'front', 'begin', 'end')):
                st.mon['cs'] = st.mon['cs'] + (self.summary(eng, st, ev),)
        self.event(eng, st, ev)

    def summary(self, eng, st, ev):
        if ev.k in ('notify', 'wq_none', 'enqueue'):
            return (ev.k, ev.which or ('timed' if ev.timed else 'untimed'), ev.wq)
        if ev.k == 'cont':
            return ('cont', ev.op, ev.c)
        return (ev.k,)

    def cs_begin(self, eng, st):
        pass

    def cs_end(self, eng, st, why):
        pass

    def event(self, eng, st, ev):
        pass


def ret_bool(st, val):
    """Truth of a returned boolean under the path's facts (None: undetermined)."""
    if val is None:
        return None
    return st.truth(val)


def entries(P, models=(), extra=()):
    """The functions of the library no analysed caller covers: those nothing in the program
    calls, plus the ones summarised at their call sites.  A helper is analysed where it is used."""
    called = set()
    for f in P.fns.values():
        if not f.defined:
            continue
        for b in f.blocks.values():
            for i in b:
                for v in [i.get('f')] + list(i.get('as', ())):
                    if isinstance(v, (tuple, list)) and v and v[0] == 'f' and v[1] != f.name:
                        called.add(v[1])
    out = []
    for f in P.fns.values():
        if not f.defined or not f.blocks or not f.short.startswith(NS):
            continue
        if f.name not in called or f.short in models or '%s/%d' % (f.short, f.np) in models or f.short[len(NS):] in extra:
            out.append(f)
    return sorted(out, key=lambda f: f.dem)


def thread_locals(P, pred):
    """Names of the library's thread-local variables of a type satisfying pred."""
    return ['@' + n for n, o in sorted(P.globals.items()) if o.get('tls') and 'ty' in o and not n.startswith('_ZGV') and 'boost::fibers::' in o.get('dem', '') and pred(P.tname(o['ty']))]


def active_context(P):
    """The variable that holds the running fiber of a thread."""
    g = thread_locals(P, lambda t: t == NS + 'context*')
    if len(g) != 1:
        raise Broken('anchor vanished: active context pointer')
    return g[0]


def constant(P, name):
    """Value of an enumerator, read from a function of an instantiation unit returning it."""
    for f in P.by_short.get('use::' + name, ()):
        for b in f.blocks.values():
            for i in b:
                if i['o'] == 'ret' and 'v' in i or i['o'] == 'ret':
                    for v in i.values():
                        if isinstance(v, (tuple, list)) and len(v) and v[0] == 'c':
                            return ('c', v[1])
                        if isinstance(v, (tuple, list)) and len(v) and isinstance(v[0], (tuple, list)) and v[0][0] == 'c':
                            return ('c', v[0][1])
    raise Broken('anchor vanished: constant ' + name)


def named_args(eng):
    """(name, type name) -> value of the entry function's arguments."""
    out = []
    for v in eng.argvals:
        if v[0] in 'ps' and v[1] not in ('this', 'a:ret'):
            t = eng.symty.get(v[1])
            out.append((v, eng.P.tname(t) if t is not None else ''))
    return out


def tri(x):
    return {True: 'true', False: 'false', None: 'undetermined'}[x]


class Timed:
    """The deadline the caller gave: an absolute steady-clock time point, or a duration from now."""
    def deadline_setup(self, eng, st):
        self.tp0 = self.d0 = None
        for v, tn in named_args(eng):
            if 'time_point' in tn:
                self.tp0 = eng.load(st, v, 'tp0', False, 8, silent=True)
            elif 'duration' in tn:
                self.d0 = eng.load(st, v, 'd0', False, 8, silent=True)

    def is_timed(self):
        return self.tp0 is not None or self.d0 is not None

    def deadline_event(self, eng, st, ev):
        if ev.k == 'now':
            st.mon['now'] = ev.val

    def deadline_ok(self, eng, st, tp):
        v = eng.load(st, tp, 'tp', False, 8, silent=True)
        if self.tp0 is not None:
            return st.known_eq(v, self.tp0) is True
        return 'now' in st.mon and st.known_eq(v, mkop('add', (st.mon['now'], self.d0), 64)) is True
