"""Program model: loads irdump's JSON (functions, blocks, instructions, record layouts)."""
import json, re, functools

_OPS = ['operator<=>', 'operator<<=', 'operator>>=', 'operator->*', 'operator->', 'operator<<', 'operator>>',
        'operator<=', 'operator>=', 'operator<', 'operator>', 'operator()']


@functools.lru_cache(maxsize=None)
def short_name(dem):
    """Qualified name without template arguments, parameters or return type, and the
    number of declared parameters: ('boost::fibers::mutex::lock', 0)."""
    s = dem
    if s.startswith('_Z') or '(' not in s:
        return s.split('<')[0], -1
    for k, o in enumerate(_OPS):
        s = s.replace(o, '\x01%c' % (0x10 + k))
    s = s.replace('(anonymous namespace)', '{anon}')
    out = []
    i, n = 0, len(s)
    ang = 0
    cur = 0
    # drop <...>, keep (...) and {...} groups as units
    parts = []
    while i < n:
        c = s[i]
        if c == '<':
            d = 0
            while i < n:
                if s[i] in '<({[':
                    d += 1
                elif s[i] in '>)}]':
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
            continue
        if c in '({':
            d = 0
            j = i
            while i < n:
                if s[i] in '(<{[':
                    d += 1
                elif s[i] in ')>}]':
                    d -= 1
                    if d == 0:
                        break
                i += 1
            i += 1
            parts.append((c, s[j:i]))
            continue
        parts.append((None, c))
        i += 1
    # the parameter list is the last '(' group that is not inside a lambda name
    last = max((k for k, p in enumerate(parts) if p[0] == '('), default=None)
    params = ''
    if last is not None:
        params = parts[last][1][1:-1]
        parts = parts[:last]
    txt = ''
    for g, t in parts:
        if g == '{':
            txt += '{lambda}' if t.startswith('{lambda') else t
        elif g == '(':
            txt += '()'
        else:
            txt += t
    # strip a return type: everything up to the last top-level space, conversion operators aside
    m = re.search(r'operator [\w:\s\*&]+$', txt)
    if m:
        head = txt[:m.start()].split(' ')[-1]
        txt = head + m.group(0).strip()
    elif ' operator' in txt:
        txt = txt.split(' ')[-1]
    else:
        txt = txt.strip().split(' ')[-1]
    for k, o in enumerate(_OPS):
        txt = txt.replace('\x01%c' % (0x10 + k), o)
    txt = re.sub(r'\[abi:\w+\]', '', txt).lstrip('*&')
    cnt = 0
    p = params.strip()
    if p and p != 'void':
        cnt = 1
        d = 0
        for c in p:
            if c in '(<{[':
                d += 1
            elif c in ')>}]':
                d -= 1
            elif c == ',' and d == 0:
                cnt += 1
    return txt, cnt


class Fn:
    __slots__ = ('name', 'dem', 'short', 'np', 'nu', 'nr', 'defined', 'args', 'blocks', 'entry', 'file', 'line',
                 'nm', 'dt', 'cls', 'vars', 'preds', 'headers', 'livein', 'sret', 'rt', 'strs', 'uses')

    def loc(self):
        return '%s:%s' % (self.file, self.line)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.strs = d['strs']
        self.types = {int(k): v for k, v in d['types'].items()}
        self.globals = d['globals']
        self.nfn, self.nin = d['nfn'], d['nin']
        self.fns = {}
        for nm, j in d['fns'].items():
            self.fns[nm] = self._fn(nm, j)
        self.by_short = {}
        for f in self.fns.values():
            self.by_short.setdefault(f.short, []).append(f)
        self._fieldcache = {}
        self.tinfo_bases = {}
        for g, o in self.globals.items():
            if g.startswith('_ZTI') and 'init' in o:
                bs = []

                def walk(v):
                    if isinstance(v, list) and v:
                        if v[0] == 'g' and v[1].startswith('_ZTI'):
                            bs.append(v[1])
                        elif v[0] == 'agg':
                            for x in v[1:]:
                                walk(x)
                walk(o['init'])
                self.tinfo_bases[g] = bs

    def _fn(self, nm, j):
        f = Fn()
        f.name = nm
        f.dem = j['dem']
        f.short, f.np = short_name(f.dem)
        f.nu, f.nr, f.defined = j['nu'], j['nr'], j['def']
        f.args = j['args']
        f.sret = bool(f.args and f.args[0][1])
        f.rt = self.strs[j['rt']]
        f.file = self.strs[j['F']] if 'F' in j else '?'
        f.line = j.get('l', 0)
        f.nm = j.get('nm')
        f.dt = j.get('dt')
        f.cls = j.get('cls')
        f.vars = {}
        f.blocks = {}
        f.entry = None
        f.preds = {}
        f.headers = None
        f.livein = None
        if f.defined:
            for k, v in j['vars'].items():
                f.vars[(int(k[:-1]), k[-1])] = (v[0], self.strs[v[1]], v[2])
            for bid, insts in j['bs']:
                if f.entry is None:
                    f.entry = bid
                f.blocks[bid] = [self._inst(i) for i in insts]
            for b, insts in f.blocks.items():
                for s in self.succs(insts[-1]):
                    f.preds.setdefault(s, []).append(b)
            self._headers(f)
            self._liveness(f)
        return f

    def _inst(self, i):
        i['l'] = i.get('l', 0)
        if 'F' in i:
            i['F'] = self.strs[i['F']]
        if 't' in i:
            i['t'] = self.strs[i['t']]
        if 'xt' in i:
            i['xt'] = self.strs[i['xt']]
        if 'st' in i:
            i['st'] = self.strs[i['st']]
        if 'at' in i:
            i['at'] = self.strs[i['at']]
        for k in ('p', 'x', 'y', 'a', 'b', 'f'):
            if k in i and isinstance(i[k], list):
                i[k] = tup(i[k])
        if 'c' in i and isinstance(i['c'], list):
            i['c'] = tup(i['c'])
        if 'as' in i:
            i['as'] = [tup(x) for x in i['as']]
        if 'vi' in i:
            i['vi'] = [(tup(v), s) for v, s in i['vi']]
        if i['o'] == 'phi':
            i['in'] = {b: tup(v) for b, v in i['in']}
        if i['o'] == 'landingpad':
            i['cs'] = [(k, tup(v)) for k, v in i['cs']]
        return i

    @staticmethod
    def succs(t):
        r = []
        if t['o'] == 'br':
            r.append(t['T'])
            if 'E' in t:
                r.append(t['E'])
        elif t['o'] == 'switch':
            r.append(t['E'])
            r += [b for _, b in t['cs']]
        elif t['o'] == 'invoke':
            r += [t['T'], t['E']]
        return r

    def _headers(self, f):
        f.headers = set()
        color = {}
        stack = [(f.entry, iter(self.succs(f.blocks[f.entry][-1])))]
        color[f.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 1:
                    f.headers.add(s)
                elif c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(f.blocks[s][-1]))))
                    break
            else:
                color[b] = 2
                stack.pop()

    @staticmethod
    def operands(i):
        r = []

        def add(v):
            if isinstance(v, tuple) and v:
                if v[0] == 'v':
                    r.append(v[1])
                elif v[0] == 'agg':
                    for x in v[1:]:
                        add(x)
        for k in ('p', 'x', 'y', 'a', 'b', 'f', 'c'):
            if k in i:
                add(i[k])
        for a in i.get('as', ()):
            add(a)
        for v, _ in i.get('vi', ()):
            add(v)
        return r

    def _liveness(self, f):
        use, deff, phiuse = {}, {}, {}
        f.uses = {}
        for b, insts in f.blocks.items():
            u, d = set(), set()
            for i in insts:
                if i['o'] == 'phi':
                    for pb, v in i['in'].items():
                        if v[0] == 'v':
                            phiuse.setdefault(pb, set()).add(v[1])
                    d.add(i['i'])
                    continue
                for o in self.operands(i):
                    if o not in d:
                        u.add(o)
                if 'i' in i:
                    d.add(i['i'])
            use[b], deff[b] = u, d
        livein = {b: set(use[b]) for b in f.blocks}
        ch = True
        order = list(f.blocks)[::-1]
        while ch:
            ch = False
            for b in order:
                out = set(phiuse.get(b, ()))
                for s in self.succs(f.blocks[b][-1]):
                    out |= livein[s]
                n = use[b] | (out - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        f.livein = livein
        # values live after each call (for suspended frames): block-level livein of the rest
        f.uses = phiuse

    def live_at(self, f, b, ip):
        """SSA ids live at instruction ip of block b."""
        key = (f.name, b, ip)
        c = getattr(self, '_la', None)
        if c is None:
            c = self._la = {}
        if key in c:
            return c[key]
        insts = f.blocks[b]
        live = set(f.uses.get(b, ()))
        for s in self.succs(insts[-1]):
            live |= f.livein[s]
        for k in range(len(insts) - 1, ip - 1, -1):
            i = insts[k]
            if 'i' in i:
                live.discard(i['i'])
            if i['o'] != 'phi':
                live.update(self.operands(i))
        c[key] = live
        return live

    # ---- debug-info types
    def strip(self, t):
        return self.types.get(t)

    def pointee(self, t):
        ty = self.types.get(t)
        if ty and ty['k'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return ty['b']
        return None

    def tname(self, t):
        ty = self.types.get(t)
        if not ty:
            return '?'
        if 'q' in ty:
            return ty['q'] + ty['n']
        if 'b' in ty:
            return self.tname(ty['b']) + ('*' if 'pointer' in ty['k'] else '&')
        return ty['n']

    def tshort(self, t):
        n = self.tname(t)
        return re.sub(r'<.*', '', n)

    def field(self, t, off):
        """(path, leaf type id) of the innermost member of record t at byte offset off."""
        key = (t, off)
        if key in self._fieldcache:
            return self._fieldcache[key]
        path, cur, o = [], t, off
        for _ in range(24):
            ty = self.types.get(cur)
            if not ty or not ty.get('els') or ty['k'] == 'DW_TAG_enumeration_type':
                break
            best = None
            for eo, nm, et in ty['els']:
                sz = self.types.get(et, {}).get('sz', 0)
                if eo <= o < eo + max(sz, 1):
                    # empty bases share offset 0 with the first member: prefer the sized one
                    if self.is_empty(et) and any(e2 != et and eo2 <= o < eo2 + max(self.types.get(e2, {}).get('sz', 0), 1)
                                                 and not self.is_empty(e2) for eo2, _, e2 in ty['els']):
                        continue
                    best = (eo, nm, et)
                    break
            if best is None:
                break
            if best[1]:
                path.append(best[1])
            cur = best[2]
            o -= best[0]
        r = ('.'.join(path), cur, o)
        self._fieldcache[key] = r
        return r

    def is_empty(self, t):
        ty = self.types.get(t)
        return bool(ty) and ty['k'] in ('DW_TAG_class_type', 'DW_TAG_structure_type') and ty['sz'] <= 1 and \
            not [e for e in ty.get('els', ()) if not self.is_empty(e[2])]

    def offset_of(self, t, name):
        """Byte offset of member `name` (dotted path allowed) in record t, searching bases."""
        head, _, rest = name.partition('.')
        ty = self.types.get(t)
        for eo, nm, et in ty.get('els', ()):
            if nm == head:
                if rest:
                    r = self.offset_of(et, rest)
                    if r is not None:
                        return eo + r
                else:
                    return eo
        for eo, nm, et in ty.get('els', ()):
            if nm == '':
                r = self.offset_of(et, name)
                if r is not None:
                    return eo + r
        return None

    def vfn(self, t, idx, seen=None):
        """Name of the virtual function in slot idx of record t."""
        ty = self.types.get(t)
        if not ty:
            return None
        for vi, nm, ln in ty.get('vf', ()):
            if vi == idx and nm[:1] != '~':      # the slots of destructors are not recorded
                return nm
        for eo, nm, et in ty.get('els', ()):
            if nm == '' and eo == 0:
                r = self.vfn(et, idx)
                if r:
                    return r
        return None

    def vdecl(self, t, slot):
        """The same by the declarations of t and its primary bases."""
        while t is not None:
            ty = self.types.get(t, {})
            for vi, nm, ln in ty.get('vf', ()):
                if vi == slot and nm[:1] != '~':
                    return ln if ln in self.fns and self.fns[ln].defined else None
            t = next((et for eo, nm, et in ty.get('els', ()) if nm == '' and eo == 0), None)
        return None

    def vtable(self, t, slot):
        """Mangled name of the function in a slot of the (primary) vtable of exactly type t."""
        ident = self.types.get(t, {}).get('id', '')
        g = self.globals.get('_ZTV' + ident[4:]) if ident.startswith('_ZTS') else None
        if not g:
            return self.vdecl(t, slot)
        try:
            f = g['init'][1][3 + slot]
        except (IndexError, TypeError, KeyError):
            return None
        return f[1] if f and f[0] in ('f', 'g') else None

    def member_size(self, t, off):
        """Size of the outermost proper member that starts at off > 0 of type t, or None."""
        while t is not None and off > 0:
            nxt = None
            for eo, nm, et in self.types.get(t, {}).get('els', ()) or ():
                sz = self.types.get(et, {}).get('sz') or 0
                if eo == off and (nm or sz):
                    return sz or None
                if eo < off < eo + sz:
                    nxt = (et, off - eo)
            if nxt is None:
                return None
            t, off = nxt
        return None

    def find_type(self, qname):
        """Ids of complete records whose qualified name (template args stripped) is qname."""
        return [i for i, ty in self.types.items() if 'q' in ty and re.sub(r'<.*', '', ty['q'] + ty['n']) == qname
                and ty.get('els')]

    def tinfo_isa(self, t, base, _d=0):
        if t == base:
            return True
        if _d > 12:
            return False
        return any(self.tinfo_isa(b, base, _d + 1) for b in self.tinfo_bases.get(t, ()))


def tup(v):
    if isinstance(v, list):
        v = tuple(tup(x) for x in v)
        if v and v[0] == 'c' and len(v) == 3:
            n, w = v[1], v[2]
            return ('c', n & ((1 << w) - 1))
        return v
    return v
