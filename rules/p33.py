"""topology() and the constructor and pick_next of the NUMA-aware algorithm are explored with all their helpers inlined, for topologies and CPU lists of every content (containers hold up
to two elements of arbitrary value, ranges are followed for up to three ids; loop bodies keep no other state). std containers and iterators are summarised by their documented effect.
Values are followed symbolically from the text of the CPU list to the sets of CPUs, to the lists of local and remote CPUs, to the index into the table of schedulers."""
from rules.algos import *
ASSUME = ['std containers, iterators, std::stoul, boost::algorithm::split and trim behave as documented', 'node ids of a topology are unique and every node has a CPU',
          'lists longer than two elements behave as the first two do', 'every thread constructs the algorithm with the same topology']
Y1 = 'Y1 a CPU list yields exactly the CPUs it names'
Y2 = 'Y2 every online CPU is in one node, which carries its own id'
Y3 = 'Y3 the table of schedulers has an entry for every CPU'
Y4 = 'Y4 local CPUs are those of the own node, remote CPUs those of the others'
Y5 = 'Y5 a thread steals from the scheduler of another CPU of its topology'
Y7 = 'Y7 the CPUs of the own node are tried before those of other nodes'
Y6 = 'Y6 a thread is pinned to the given CPU'
UNITS = ['src/numa/linux/topology.cpp', 'src/numa/linux/pin_thread.cpp', 'src/numa/algo/work_stealing.cpp', 'src/context.cpp', 'tu/algo.cpp']
IT = re.compile(r'^(?:__gnu_cxx::__normal_iterator|std::_Rb_tree_(?:const_)?iterator|std::reverse_iterator|__gnu_cxx|std)::(operator(?:!=|==|\*|->|\+\+|--)|__normal_iterator|_Rb_tree_const_iterator|reverse_iterator|prev|next)$')
CN = re.compile(r'^std::(vector|set|map|multiset)::(\w+|operator\[\]|operator=|~\w+)$')
TEXT = re.compile(r'^std::__cxx11::(basic_string::\w+|stou?l+|stoi)$|^boost::algorithm::(split|trim|is_any_of|trim_copy)$|^std::getline$')


def dic(st, k):
    return dict(st.mon.get(k, ()))


def put(st, k, key, v):
    d = dic(st, k)
    d[key] = v
    st.mon[k] = tuple(sorted(d.items(), key=repr))


class Coll(Mon):
    """Containers of up to K elements, as sequences of named elements."""
    K = 2
    opaque_throws = False
    max_states = 200000
    keep = ()

    def rely(self, eng, st, base, off, val):
        return 'keep'

    def noalias(self, eng, st, b1, b2):
        return b1.startswith(('nn:el:', 'nn:nd:')) or b2.startswith(('nn:el:', 'nn:nd:'))

    def of(self, eng, st, p, sz=4):
        return eng.load(st, p, 'of:%s+%s' % (p[1], p[2]), False, sz, silent=True)

    def cname(self, st, p):
        p = aptr(p)
        n = '%s+%s' % (p[1], p[2])
        return dic(st, 'alias').get(n) or '%s#%d' % (n, dic(st, 'gen').get(n, 0))

    def bump(self, st, p):
        p = aptr(p)
        n = '%s+%s' % (p[1], p[2])
        put(st, 'gen', n, dic(st, 'gen').get(n, 0) + 1)

    def size_of(self, eng, st, n):
        d = dic(st, 'size')
        if n not in d:
            put(st, 'size', n, ('s', 'size:' + n))
            return ('s', 'size:' + n)
        return d[n]

    def elem(self, eng, st, n, k):
        b = 'nn:el:%s:%s' % (n, k)
        eng.roots.add(b)
        return ('p', b, 0)

    def it(self, n, k):
        return ('p', 'nn:it:' + n, k) if k != 'end' else ('p', 'nn:end:' + n, 0)

    def itof(self, eng, st, a):
        """Iterator a refers to (by value or by reference)."""
        if a[0] == 'p' and a[1].startswith(('nn:it:', 'nn:end:', 'nn:last:')):
            return a
        v = eng.load(st, a, 'it', True, 8, silent=True)
        return v if v[0] == 'p' and v[1].startswith(('nn:it:', 'nn:end:', 'nn:last:')) else None

    def deref(self, eng, st, v):
        kind, n = v[1][3:].split(':', 1)
        return self.elem(eng, st, n, 'last' if kind == 'last' else v[2])

    def seen(self, eng, st, n, k):
        """Element k of n is visited."""

    def ended(self, eng, st, n, k):
        """All k elements of n were visited."""

    def compare(self, eng, st, a, b, eq):
        if b[1].startswith('nn:it:') and not a[1].startswith('nn:it:'):
            a, b = b, a
        if a == b:
            return [(st, ONE if eq else ZERO)]
        n = a[1].split(':', 2)[2]
        if not a[1].startswith('nn:it:') or not b[1].startswith('nn:end:') or b[1].split(':', 2)[2] != n:
            return None
        out = []
        k = a[2]
        z = self.size_of(eng, st, n)
        s = st.copy()
        if eng.assume(s, mkcmp('eq', z, ('c', k), 64), True):
            self.ended(eng, s, n, k)
            out.append((s, ONE if eq else ZERO))
        if k < self.K and eng.assume(st, mkcmp('eq', z, ('c', k), 64), False) and not (z[0] == 'c' and z[1] == k):
            self.seen(eng, st, n, k)
            out.append((st, ZERO if eq else ONE))
        return out

    def model(self, eng, st, fr, i, fn, args):
        m = IT.match(fn.short)
        if m:
            r = self.iterator(eng, st, fr, i, fn, args, m.group(1))
            if r is not None:
                return r
        m = CN.match(fn.short)
        if m:
            r = self.container(eng, st, fr, i, fn, args, m.group(1), m.group(2))
            if r is not None:
                return r
        m = TEXT.match(fn.short)
        if m:
            r = self.text(eng, st, fr, i, fn, args, (m.group(1) or m.group(2) or 'getline').split('::')[-1])
            if r is not None:
                return r
        r = Mon.model(self, eng, st, fr, i, fn, args)
        if r is None and fn.defined and fn.short.startswith(('boost::', 'std::', '__gnu_cxx::')) and not fn.short.startswith((NS,) + tuple(self.inline_prefix)):
            return [(st, eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None)]
        return r

    def iterator(self, eng, st, fr, i, fn, args, op):
        if op in ('operator!=', 'operator=='):
            a, b = (self.itof(eng, st, x) for x in args[:2])
            return self.compare(eng, st, a, b, op == 'operator==') if a and b else None
        if op in ('__normal_iterator', '_Rb_tree_const_iterator', 'reverse_iterator'):
            v = self.itof(eng, st, args[1]) if len(args) > 1 else None
            if v is None:
                return None
            eng.store(st, args[0], v, silent=True)
            return [(st, None)]
        v = self.itof(eng, st, args[0])
        if v is None:
            return None
        if op in ('operator*', 'operator->'):
            return [(st, self.deref(eng, st, v))]
        n = v[1].split(':', 2)[2]
        if op in ('operator++', 'next'):
            w = self.it(n, v[2] + 1)
        else:
            w = ('p', 'nn:last:' + n, 0)
        if op in ('prev', 'next'):
            return [(st, w)]
        eng.store(st, args[0], w, silent=True)
        if len(args) > 1 + (1 if fn.sret else 0):
            return [(st, v)]
        return [(st, args[0])]

    def container(self, eng, st, fr, i, fn, args, kind, op):
        if op in ('begin', 'cbegin', 'end', 'cend') and not fn.sret:
            n = self.cname(st, args[0])
            return [(st, self.it(n, 0 if 'begin' in op else 'end'))]
        if op in ('rbegin', 'crbegin') and fn.sret:
            eng.store(st, args[0], ('p', 'nn:last:' + self.cname(st, args[1]), 0), silent=True)
            return [(st, None)]
        if op in ('front', 'back') or kind == 'vector' and op in ('at', 'operator[]'):
            n = self.cname(st, args[0])
            k = 0 if op == 'front' else 'last' if op == 'back' else args[1]
            if k not in (0, 'last'):
                f = linear(strip(k))
                k = k[1] if k[0] == 'c' else 'last' if f == {self.size_of(eng, st, n): 1, None: -1} else None
                if k is None:
                    return None
            return [(st, self.elem(eng, st, n, k))]
        if op in ('size', 'empty'):
            z = self.size_of(eng, st, self.cname(st, args[0]))
            return [(st, z if op == 'size' else mkcmp('eq', z, ZERO, 64))]
        return None

    def text(self, eng, st, fr, i, fn, args, op):
        return None


class Topo(Coll):
    widen_phi = widen_mem = 16
    inline_prefix = ('{anon}', NS + 'numa', 'std::max', 'std::min')

    def start(self, eng, st):
        st.mon.update(e=U, k=ZERO, n=ZERO, prev=U, cpu=U, done=ZERO, any=ZERO, dirs=ZERO, pushed=ZERO)

    # ---- text of the list
    def sid(self, st, p):
        p = aptr(p)
        n = '%s+%s' % (p[1], p[2])
        return dic(st, 'sid').get(n, n)

    def text(self, eng, st, fr, i, fn, args, op):
        if op == 'basic_string':
            if len(args) >= 2 and args[1][0] == 'p' and not args[1][1].startswith('@') and 'basic_string' in fn.dem.split('(', 1)[1]:
                put(st, 'sid', '%s+%s' % (args[0][1], args[0][2]), self.sid(st, args[1]))
            return [(st, None)]
        if op == 'is_any_of':
            g = self.P.globals.get(args[1][1][1:]) if fn.sret and args[1][0] == 'p' else None
            put(st, 'sep', args[0][1], (g or {}).get('str', '?'))
            return [(st, None)]
        if op == 'split':
            self.bump(st, args[0])
            n = self.cname(st, args[0])
            put(st, 'from', n, (self.sid(st, args[1]), dic(st, 'sep').get(args[2][1], '?')))
            if dic(st, 'sep').get(args[2][1]) == '-':
                st.mon['e'] = ('n', n)
            return [(st, args[0])]
        if op.startswith('sto'):
            s = self.sid(st, args[0])
            d = dic(st, 'num')
            if s not in d:
                put(st, 'num', s, ('s', 'num:' + s))
            return [(st, ('s', 'num:' + s))]
        if op in ('trim', 'getline'):
            return [(st, args[0] if 'i' in i else None)]
        return None

    def num(self, n, k):
        return ('s', 'num:nn:el:%s:%s+0' % (n, k))

    def bounds(self, st):
        """Are the ids of the current entry all inserted?"""
        m = st.mon
        n = m['e'][1]
        z = self.size_of(None, st, n)
        one = st.truth(mkcmp('eq', z, ONE, 64))
        lasts = [self.num(n, 'last')] + ([self.num(n, 0)] if one else [])
        return one, [self.num(n, 0)] + ([self.num(n, 'last')] if one else []), lasts

    def finished(self, eng, st):
        m = st.mon
        if m['e'] == U:
            return
        one, firsts, lasts = self.bounds(st)
        p = m['prev']
        ok = False
        if p != U:
            ok = strip(p) in lasts or self.over(st, linear(strip(p)), lasts)
        else:
            ok = one is not True and any(self.less(st, l, f) for l in lasts for f in firsts)
        self.check(eng, st, Y1, ok, 'an entry of the CPU list is left after %s' % ('nothing was' if p == U else 'only ' + eng.where(p) + ' was'))

    def rel(self, st):
        """Known relations: (kind, x, y) with conversions dropped."""
        for f, t in st.facts.items():
            if f[0] != 'o' or len(f) < 4:
                continue
            x, y = (strip(v) if v[0] == 'o' else v for v in f[2:4])
            if f[1] == 'eq' and t:
                yield 'eq', x, y
            elif f[1] in ('ult', 'slt'):
                yield ('lt', x, y) if t else ('le', y, x)

    def less(self, st, a, b):
        return any(r == 'lt' and x == a and y == b for r, x, y in self.rel(st))

    def over(self, st, p, lasts):
        nx = dict(p)
        nx[None] = nx.get(None, 0) + 1
        if not nx[None]:
            del nx[None]
        for r, x, y in self.rel(st):
            lx, ly = linear(x), linear(y)
            if r == 'eq' and (x in lasts and ly == p or y in lasts and lx == p):
                return True
            if r == 'lt' and x in lasts and ly == nx or r == 'le' and x in lasts and ly == p:
                return True
            if r == 'eq':
                for a, b in ((lx, ly), (ly, lx)):
                    c = dict(b)
                    c[None] = c.get(None, 0) - 1
                    if a == nx and {k: v for k, v in c.items() if v} in [{l: 1} for l in lasts]:
                        return True
        return False

    # ---- the topology
    def seen(self, eng, st, n, k):
        m = st.mon
        if dic(st, 'from').get(n, ('', ''))[1] == ',':
            if k:
                self.entry_done(eng, st)
            m['e'], m['prev'], m['k'], m['cur'] = U, U, ('c', k), ('n', n)
        elif n == m.get('cpus', U)[-1]:
            self.cpu_done(eng, st, k)
            m['cpu'], m['done'], m['dirs'] = ('c', k), ZERO, ZERO
        elif n == m.get('map', U)[-1]:
            self.node_done(eng, st, k)
            m['pushed'] = ZERO

    def ended(self, eng, st, n, k):
        m = st.mon
        if dic(st, 'from').get(n, ('', ''))[1] == ',':
            if k:
                self.entry_done(eng, st)
            m['parsed'] = ONE
            for x in ('num', 'from', 'sid', 'sep'):
                m.pop(x, None)
            m['e'], m['prev'] = U, U
        elif n == m.get('cpus', U)[-1]:
            self.cpu_done(eng, st, k)
            m['cpu'] = U
        elif n == m.get('map', U)[-1]:
            self.node_done(eng, st, k)
            m['listed'] = ONE

    def entry_done(self, eng, st):
        m = st.mon
        self.check(eng, st, Y1, m['e'] != U, 'an entry of the CPU list is not looked at')
        if m['e'] != U:
            f, sep = dic(st, 'from').get(m['e'][1], ('', ''))
            self.check(eng, st, Y1, f == 'nn:el:%s:%d+0' % (m['cur'][1], m['k'][1]), 'the entry parsed is %s' % f)
            self.finished(eng, st)

    def cpu_done(self, eng, st, k):
        m = st.mon
        if k and m['cpu'] != U:
            d = m['dirs']
            if m['done'] == ZERO and (d != ZERO and st.truth(d) is True or m.get('fallback') == ONE):
                self.check(eng, st, Y2, False, 'a CPU is not entered into its node')

    def node_done(self, eng, st, k):
        if k:
            self.check(eng, st, Y2, st.mon['pushed'] == ONE, 'a node is entered %s times into the topology' % eng.where(st.mon['pushed']))

    def container(self, eng, st, fr, i, fn, args, kind, op):
        m = st.mon
        if kind == 'map':
            if op == 'operator[]':
                key = self.of(eng, st, args[1])
                b = 'nn:nd:%s' % (key[1],) if key[0] in 'sc' else 'nn:nd:%s' % abs(hash(key))
                eng.roots.add(b)
                put(st, 'key', b, key)
                m['any'] = ONE
                return [(st, ('p', b, 0))]
            if op in ('empty', 'size'):
                v = ONE if m['any'] == ZERO else ZERO
                m['fallback'] = v
                return [(st, v if op == 'empty' else eng.fresh(st, 'msz', '', False) if v == ZERO else ZERO)]
            if op in ('begin', 'cbegin'):
                m['map'] = ('n', self.cname(st, args[0]))
                if m['any'] == ZERO:
                    self.check(eng, st, Y2, st.truth(mkcmp('eq', self.size_of(eng, st, m.get('cpus', ('n', ''))[1]), ZERO, 64)) is not False, 'there are CPUs, but no node')
        if kind == 'set' and op == 'insert' and len(args) >= 2:
            v = self.of(eng, st, args[1]) if args[1][0] == 'p' else args[1]
            if args[0][0] == 'p' and args[0][1].startswith('nn:nd:'):
                self.into(eng, st, args[0], v)
            else:
                r = self.parsed(eng, st, v)
                if r is False:
                    return [(st, ('stop',))]
            return [(st, eng.result_sym(st, fr, i, fn, 'insert') if 'i' in i else None)]
        if kind == 'set' and op in ('begin', 'cbegin') and m.get('parsed') == ONE:
            m['cpus'] = ('n', self.cname(st, args[0]))
            m['cpu'] = U
        if kind == 'vector' and op in ('push_back', 'emplace_back') and len(args) == 2 and m.get('map', U) != U and args[1][0] == 'p':
            x = aptr(args[1])
            src = dic(st, 'pair').get(x[1], x[1])
            if src.startswith('nn:el:' + m['map'][1]) and self.P.tname(eng.symty[x[1]]) if False else src.startswith('nn:el:' + m['map'][1]):
                m['pushed'] = ONE if m['pushed'] == ZERO else ('c', m['pushed'][1] + 1)
            return [(st, None)]
        return Coll.container(self, eng, st, fr, i, fn, args, kind, op)

    def model(self, eng, st, fr, i, fn, args):
        if fn.short == 'std::pair::pair' and len(args) == 2 and args[1][0] == 'p':
            put(st, 'pair', args[0][1], dic(st, 'pair').get(args[1][1], args[1][1]))
            return [(st, None)]
        if fn.short.startswith('{anon}::') and 'directory' in fn.short and fn.short != '{anon}::ids_from_line':
            r = eng.opaque(st, fr, i, fn, args, fn.short)
            if fn.short.endswith(('operator!=', 'operator==')):
                for s, v in r:
                    s.mon['dirs'] = v if fn.short.endswith('!=') else mkcmp('eq', v, ZERO, 1)
            return r
        return Coll.model(self, eng, st, fr, i, fn, args)

    def parsed(self, eng, st, v):
        m = st.mon
        if v[0] == 's' and v[1].startswith('w') or any(x is not None and x[0] == 's' and x[1].startswith('w') for x in linear(strip(v))):
            return False            # beyond the range that is followed
        if m['e'] == U:
            self.check(eng, st, Y1, False, '%s is taken for a CPU of the list' % eng.where(v))
            return True
        one, firsts, lasts = self.bounds(st)
        if m['prev'] == U:
            self.check(eng, st, Y1, strip(v) in firsts, 'an entry starts with %s' % eng.where(v))
        else:
            p, q = linear(strip(m['prev'])), linear(strip(v))
            p[None] = p.get(None, 0) + 1
            self.check(eng, st, Y1, {a: b for a, b in p.items() if b} == {a: b for a, b in q.items() if b}, '%s follows %s' % (eng.where(v), eng.where(m['prev'])))
        if self.bounds(st)[0] is not True:
            self.check(eng, st, Y1, any(r in ('le', 'eq') and y in lasts and linear(x) == linear(strip(v)) or r == 'eq' and x in lasts and linear(y) == linear(strip(v)) or
                                        r == 'lt' and y in lasts and m['prev'] != U and linear(x) == linear(strip(m['prev'])) for r, x, y in self.rel(st)) or
                       m['prev'] != U and any(f[0] == 'o' and f[1] == 'eq' and t is False and {linear_key(f[2]), linear_key(f[3])} & {linear_key(m['prev'])} for f, t in st.facts.items()),
                       '%s may be beyond the range' % eng.where(v))
        m['prev'] = v
        c = linear(strip(v)).get(None, 0)
        if c >= 3:
            return False
        return True

    def into(self, eng, st, p, v):
        m = st.mon
        key = dic(st, 'key').get(p[1])
        ok = m['cpu'] != U and 'cpus' in m
        cur = self.of(eng, st, self.elem(eng, st, m['cpus'][1], m['cpu'][1])) if ok else U
        self.check(eng, st, Y2, ok and st.known_eq(v, cur) is True, '%s is entered into a node' % eng.where(v))
        self.check(eng, st, Y2, m['done'] == ZERO, 'a CPU is entered into two nodes')
        nid = self.of(eng, st, ('p', p[1], 0))
        self.check(eng, st, Y2, st.known_eq(nid, key) is True, 'the node found under %s has id %s' % (eng.where(key), eng.where(nid)))
        m['done'] = ONE

    def exit(self, eng, st, kind, val):
        m = st.mon
        if kind == 'ret' and 'map' in m:
            self.check(eng, st, Y2, m.get('listed') == ONE, 'returns before every node was entered')


def linear_key(v):
    return tuple(sorted(linear(strip(v)).items(), key=repr))


class Ctor(Coll, Reg):
    inline_prefix = (NS + 'algo', NS + 'numa::algo', 'std::max', 'std::min')
    watch = dict(Reg.watch)
    watch[NS + 'numa::pin_thread'] = 'pin'

    def __init__(self, P, cls, shape):
        Reg.__init__(self, P, cls, shape)

    def start(self, eng, st):
        Reg.start(self, eng, st)
        st.mon['pinned'] = ZERO
        self.topo = next((a for a, n in named_args(eng) if 'vector' in n), None)
        if self.topo is None:
            raise Broken('anchor vanished: the topology an algorithm is constructed with')
        self.node = record(self.P, NS + 'numa::node')
        cpus = [m for m in top_members(self.P, self.node) if 'set<' in m[2]]
        ids = [m for m in top_members(self.P, self.node) if m[2] in ('unsigned int', 'uint32_t', 'std::uint32_t')]
        if len(cpus) != 1 or len(ids) != 1:
            raise Broken('anchor vanished: members of node')
        self.cpus, self.id = cpus[0][0], ids[0][0]
        t = self.cname(st, self.topo)
        # the nodes of a topology have different ids
        a, b = (self.of(eng, st, ('p', self.elem(eng, st, t, k)[1], self.id)) for k in (0, 1))
        st.facts[mkcmp('eq', a, b, 32)] = False
        st.facts[mkcmp('eq', self.size_of(eng, st, t), ZERO, 64)] = False
        self.tname = t
        for k in range(self.K):
            st.facts[mkcmp('eq', self.size_of(eng, st, self.setname(k)), ZERO, 64)] = False

    def setname(self, k):
        return 'nn:el:%s:%d+%d#0' % (self.tname, k, self.cpus)

    def content(self, st, p):
        p = aptr(p)
        return dic(st, 'has').get((p[1], p[2]), ())

    def container(self, eng, st, fr, i, fn, args, kind, op):
        if kind == 'vector' and args and args[0][0] == 'p':
            d = aptr(args[0])
            key = (d[1], d[2])
            its = [self.itof(eng, st, a) if a[0] == 'p' else None for a in args[1:]]
            its = [x for x in its if x is not None]
            if op in ('vector', 'insert', 'assign') and len(its) >= 2 and its[-2][1].startswith('nn:it:') and its[-2][2] == 0 and its[-1][1].startswith('nn:end:'):
                a, b = its[-2][1].split(':', 2)[2], its[-1][1].split(':', 2)[2]
                put(st, 'has', key, (self.content(st, d) if op == 'insert' else ()) + ((a, 'all') if a == b else ('?', 0),))
                return [(st, eng.result_sym(st, fr, i, fn, 'ins') if 'i' in i else None)]
            if op in ('push_back', 'emplace_back', 'insert') and len(args) == 2 and args[1][0] == 'p' and 'unsigned int' in fn.dem:
                v = self.of(eng, st, args[1])
                e = ('?', 0)
                for k in range(self.K):
                    for j in range(self.K):
                        el = self.elem(eng, st, self.setname(k), j)
                        if st.known_eq(v, self.of(eng, st, el)) is True:
                            e = (self.setname(k), j)
                put(st, 'has', key, self.content(st, d) + (e,))
                return [(st, None)]
            if op in ('vector', 'operator=') and len(args) == 2 and args[1][0] == 'p' and len(fn.args) == 2 and ('&&' in fn.dem or 'const&' in fn.dem):
                if (aptr(args[1])[1], aptr(args[1])[2]) in dic(st, 'has'):
                    put(st, 'has', key, self.content(st, args[1]))
                elif op == 'vector' and eng.symty.get(args[1][1]) is not None and self.cname(st, args[1]) == self.tname:
                    put(st, 'alias', '%s+%s' % key, self.tname)
                return [(st, args[0] if 'i' in i else None)]
            if op == 'vector' and len(args) == 1:
                put(st, 'has', key, ())
                return [(st, None)]
            if op.startswith('~'):
                return [(st, None)]
            if op == 'vector' and len(fn.args) == 4 and self.P.strs[fn.args[1][0]] == 'i64' or op in ('resize', 'assign') or op in ('swap', 'operator[]', 'at') and (
                    d[1].startswith('@') or aptr(args[1])[1:2] and args[1][0] == 'p' and args[1][1].startswith('@')):
                return None
        return Coll.container(self, eng, st, fr, i, fn, args, kind, op)

    def model(self, eng, st, fr, i, fn, args):
        self.tname = self.cname(st, self.topo)
        if CN.match(fn.short) or IT.match(fn.short):
            r = Coll.model(self, eng, st, fr, i, fn, args) if not (CN.match(fn.short) and self.table_op(st, fn, args)) else None
            if r is not None:
                return r
        return Reg.model(self, eng, st, fr, i, fn, args)

    def table_op(self, st, fn, args):
        op = CN.match(fn.short).group(2)
        return op == 'vector' and len(fn.args) == 4 and self.P.strs[fn.args[1][0]] == 'i64' or op in ('resize', 'swap') or \
            op in ('operator[]', 'at') and args[0][0] == 'p' and args[0][1].startswith('@')

    def nodes(self, eng, st):
        """The number of nodes of this path's topology."""
        z = self.size_of(eng, st, self.tname)
        for k in range(1, self.K + 1):
            if st.truth(mkcmp('eq', z, ('c', k), 64)) is True:
                return k
        return None

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'pin':
            self.check(eng, st, Y6, strip(ev.args[0]) in self.params, 'pins the thread to %s' % eng.where(ev.args[0]))
            m['pinned'] = strip(ev.args[0])
        if ev.k == 'write' and m['slot'] != U and ('p', ev.base, ev.off) == m['slot']:
            self.check(eng, st, Y3, m['pinned'] == strip(m['ix']), 'registers itself as the scheduler of a CPU it is not pinned to')
            if m['init'] == ONE:
                n = strip(vsize(eng, st, m['table']))
                k = self.nodes(eng, st)
                for j in range(k or 0):
                    v = self.of(eng, st, self.elem(eng, st, self.setname(j), 'last'))
                    self.check(eng, st, Y3, self.above(st, n, v) or self.all_above(eng, st, n, j), 'the table of schedulers gets %s entries, which need not exceed %s' % (eng.where(n), eng.where(v)))
                self.check(eng, st, Y3, k is not None, 'the size of the table does not depend on the topology')
            m['init'] = ZERO
        Reg.on_event(self, eng, st, ev) if not (ev.k == 'write' and m['slot'] != U and ('p', ev.base, ev.off) == m['slot'] and m.get('ticket') is not None) else None

    def all_above(self, eng, st, n, j):
        s = self.setname(j)
        z = self.size_of(eng, st, s)
        for c in range(1, self.K + 1):
            if st.truth(mkcmp('eq', z, ('c', c), 64)) is True:
                return all(self.above(st, n, self.of(eng, st, self.elem(eng, st, s, q))) for q in range(c))
        return False

    def above(self, st, n, v):
        """Is n known to exceed v?"""
        f = linear(n)
        c = f.pop(None, 0)
        if v[0] == 'c' and v[1] < c or not f:
            return v[0] == 'c' and v[1] < c
        if len(f) != 1 or list(f.values()) != [1]:
            return False
        x = strip(list(f)[0])
        le = {}
        for q, t in st.facts.items():
            if q[0] == 'o' and q[1] in ('ult', 'slt', 'eq') and len(q) >= 4:
                a, b = strip(q[2]) if q[2][0] == 'o' else q[2], strip(q[3]) if q[3][0] == 'o' else q[3]
                if q[1] == 'eq' and t:
                    le.setdefault(a, set()).add(b)
                    le.setdefault(b, set()).add(a)
                elif q[1] != 'eq':
                    (le.setdefault(a, set()).add(b) if t else le.setdefault(b, set()).add(a))
        seen, todo = set(), [v]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo += le.get(a, ())
        return x in seen and c >= 1

    def exit(self, eng, st, kind, val):
        if kind != 'ret':
            return
        Reg.exit(self, eng, st, kind, val)
        m = st.mon
        self.check(eng, st, Y6, m['pinned'] != ZERO, 'the thread is not pinned')
        own = {k: v for k, v in dic(st, 'has').items() if k[0] == 'this'}
        if self.nodes(eng, st) is None:
            return
        ids = [v for v in self.params]
        for k in range(self.nodes(eng, st)):
            nid = self.of(eng, st, ('p', self.elem(eng, st, self.tname, k)[1], self.id))
            same = next((st.truth(mkcmp('eq', a, nid, 32)) for a in ids if st.truth(mkcmp('eq', a, nid, 32)) is not None), None)
            s = self.setname(k)
            inn = set()
            for key, c in own.items():
                z = self.size_of(eng, st, s)
                part = sorted(j for n, j in c if n == s and j != 'all')
                if (s, 'all') in c and not part or part and part == list(range(len(part))) and st.truth(mkcmp('eq', z, ('c', len(part)), 64)) is True:
                    inn.add(key)
                elif any(n == s for n, j in c):
                    inn.add('part')
            if same is None:
                self.check(eng, st, Y4, k > 0 and not inn, 'CPUs are listed without looking at the id of their node')
                continue
            role = 'local' if same else 'remote'
            self.check(eng, st, Y4, len(inn) == 1 and 'part' not in inn, 'the CPUs of a %s node are in %d lists%s' % (role, len(inn), ', in part only' if 'part' in inn else ''))
            for key in inn:
                if key != 'part':
                    self.shape['roles'].setdefault(key, set()).add(role)
                    self.check(eng, st, Y4, len(self.shape['roles'][key]) == 1, 'one list holds local and remote CPUs')
        for key, c in own.items():
            self.check(eng, st, Y4, all(n == self.setname(j) for n, j in [(x[0], next((q for q in range(self.K) if self.setname(q) == x[0]), -1)) for x in c]),
                       'a list holds CPUs that are not of the topology')


class Steal(Algor):
    def vector(self, eng, st, fr, i, fn, args):
        p = aptr(args[0])
        m = st.mon
        if fn.short.endswith('operator[]'):
            if p[1] == '@' or p[1].startswith('@'):
                cell, lst = m.get('cell', U), m.get('list', U)
                v = eng.load(st, cell, 'cpu', False, 4, silent=True) if cell != U else U
                self.check(eng, st, Y5, cell != U and st.known_eq(strip(args[1]), v) is True, 'the table of schedulers is indexed with %s, which is not a CPU of the topology' % eng.where(args[1]))
                role = self.shape['roles'].get((lst[1], lst[2])) if lst != U else None
                self.check(eng, st, Y5, bool(role), 'a CPU is drawn from a list the constructor does not fill')
                if role == {'remote'}:
                    locs = [('p',) + k for k, r in self.shape['roles'].items() if 'local' in r and len(k) == 2]
                    alone = [x for x in locs if st.truth(mkcmp('ult', ONE, self.size(eng, st, x), 64)) is False or st.truth(mkcmp('ult', self.size(eng, st, x), ('c', 2), 64)) is True]
                    self.check(eng, st, Y7, m.get('tried') == ONE or alone, 'steals from another node although it has not tried the CPUs of its own')
                elif role:
                    m['tried'] = ONE
                if role and 'local' in role:
                    own = [f for f, t in st.facts.items() if f[0] == 'o' and f[1] == 'eq' and t is False and v in f[2:4] and any(x[0] in 'so' and x != v for x in f[2:4])]
                    self.check(eng, st, Y5, any(self.mine(st, x) for f in own for x in f[2:4]), 'a thread may steal from itself')
                return [(st, eng.result_sym(st, fr, i, fn, fn.short))]
            r = Algor.vector(self, eng, st, fr, i, fn, args)
            for s, v in r:
                if s.mon['draw'] == strip(args[1]) or True:
                    s.mon['cell'] = v
                    s.mon['list'] = p
                    eng.roots.add(v[1])
            return r
        return Algor.vector(self, eng, st, fr, i, fn, args)

    def mine(self, st, x):
        return any(b == 'this' and v == x for (b, o), v in st.mem.items())

    def exit(self, eng, st, kind, val):
        pass


class Pin(Mon):
    inline_prefix = (NS + 'numa',)

    def start(self, eng, st):
        st.mon.update(n=ZERO, rc=U)
        self.cpu, self.h = eng.argvals[0], (eng.argvals + [None])[1] if len(eng.argvals) > 1 else None

    def on_event(self, eng, st, ev):
        m = st.mon
        if ev.k == 'call' and ev.get('name') == 'pthread_setaffinity_np':
            self.check(eng, st, Y6, self.h is None or ev.args[0] == self.h, 'pins another thread')
            m['n'] = ONE
            m['rc'] = ev.res
        elif ev.k == 'write' and ev.base.startswith('a:') and isinstance(ev.val, tuple) and ev.val[0] == 'o' and ev.val[1] == 'or':
            x = next((y for y in ev.val[2:4] if y[0] == 'o' and y[1] == 'shl' and y[2] == ONE), None)
            if x is not None and x[3][0] == 'o' and x[3][1] == 'urem':
                self.check(eng, st, Y6, strip(x[3][2]) == self.cpu, 'asks for CPU %s' % eng.where(x[3][2]))
            elif x is not None and x[3][0] == 'o' and x[3][1] == 'and' and x[3][3] == ('c', 63):
                self.check(eng, st, Y6, strip(x[3][2]) == self.cpu, 'asks for CPU %s' % eng.where(x[3][2]))

    def exit(self, eng, st, kind, val):
        m = st.mon
        if kind == 'ret':
            self.check(eng, st, Y6, m['n'] == ONE, 'returns without pinning the thread')
            self.check(eng, st, Y6, m['n'] == ONE and st.truth(mkcmp('eq', m['rc'], ZERO, 32)) is True, 'returns although pinning failed')


def run(ctx):
    P = ctx.load(UNITS)
    t = [f for f in ctx.functions(P, 'numa::topology')]
    for f in t:
        r = Topo()
        r.P = P
        ctx.explore(P, f, r)
    for f in ctx.functions(P, 'numa::pin_thread'):
        ctx.explore(P, f, Pin())
    kinds = {k: constant(P, 'k_' + k)[1] for k in ('main', 'dispatcher', 'worker')}
    c = 'numa::algo::work_stealing'
    fs = classes(P).get(c)
    if not fs:
        raise Broken('anchor vanished: ' + c)
    shape = dict(stealable=set(), kinds={}, det={}, ops={}, roles={})
    for f in P.by_short.get(NS + c + '::work_stealing', ()):
        if f.np > 1 and f.defined:
            ctx.explore(P, f, Ctor(P, c, shape))
    for k in kinds:
        r = Algor(P, c, kinds, shape)
        r.op, r.k = 'awakened', k
        ctx.explore(P, fs['awakened'], r)
    r = Steal(P, c, kinds, shape)
    r.op, r.k = 'pick_next', None
    ctx.explore(P, fs['pick_next'], r)
    ctx.sample('lists: %s' % {str(k): sorted(v) for k, v in shape['roles'].items()})
    for r, n in ((Y1, 1), (Y2, 1), (Y3, 1), (Y4, 1), (Y5, 1), (Y6, 2), (Y7, 1)):
        ctx.require(r, n)
