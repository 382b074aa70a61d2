"""Summaries of callees the analysis does not enter: locks, suspension points, intrusive
containers, the C++ runtime.  Every summary reports an event to the rule monitor."""
import re
from engine import (Ev, U, ZERO, ONE, mkcmp, mknot, addoff, base_fresh)

SPIN = ('spinlock_ttas', 'spinlock_ttas_adaptive', 'spinlock_ttas_futex', 'spinlock_ttas_adaptive_futex',
        'spinlock_rtm', 'non_spinlock')
FMUTEX = ('mutex', 'timed_mutex', 'recursive_mutex', 'recursive_timed_mutex')


def aptr(v):
    if v[0] == 's':
        return ('p', v[1], 0)
    if v[0] != 'p':
        return ('p', '?', 0)
    return v


# ------------------------------------------------------------------ locks
def do_acquire(eng, st, lock, kind, short):
    again = lock in st.locks
    eng.emit(st, Ev(k='acquire', lock=lock, kind=kind, held=st.locks, again=again, short=short))
    eng.havoc(st, 'acquire')
    if st.locks.count(lock) < 2:
        st.locks = st.locks + (lock,)
    st.say('%s: acquire %s' % (eng.loc(st), eng.where(lock)))
    eng.emit(st, Ev(k='acquired', lock=lock, kind=kind, short=short))


def do_release(eng, st, lock, kind, short, why='unlock'):
    held = lock in st.locks
    eng.emit(st, Ev(k='release', lock=lock, kind=kind, held=held, short=short, why=why))
    st.say('%s: release %s' % (eng.loc(st), eng.where(lock)))
    if held:
        l = list(st.locks)
        l.remove(lock)
        st.locks = tuple(l)
    eng.havoc(st, 'release')
    eng.emit(st, Ev(k='released', lock=lock, kind=kind, short=short, why=why))


def m_lock(kind):
    def m(eng, st, fr, i, fn, args):
        out = []
        if kind == 'mutex' and getattr(eng.rules, 'mutex_throws', False):
            s = st.copy()
            s.say('%s: %s throws' % (eng.loc(s), fn.short))
            out.append((s, ('throw', None)))
        do_acquire(eng, st, aptr(args[0]), kind, fn.short)
        return out + [(st, None)]
    return m


def m_try(kind):
    def m(eng, st, fr, i, fn, args):
        s = st.copy()
        s.say('%s: %s fails' % (eng.loc(s), fn.short))
        eng.emit(s, Ev(k='tryfail', lock=aptr(args[0]), kind=kind))
        do_acquire(eng, st, aptr(args[0]), kind, fn.short)
        return [(s, ZERO), (st, ONE)]
    return m


def m_unlock(kind):
    def m(eng, st, fr, i, fn, args):
        do_release(eng, st, aptr(args[0]), kind, fn.short)
        return [(st, None)]
    return m


# ------------------------------------------------------------------ suspension
def ulock(eng, st, lk):
    """The mutex a unique_lock object refers to, and whether it owns it."""
    lk = aptr(lk)
    dev = st.mem.get((lk[1], addoff(lk[2], 0)))
    own = st.mem.get((lk[1], addoff(lk[2], 8)))
    if dev is None:
        dev = eng.load(st, lk, 'ulk', True, 8, silent=True)
    return dev, own


def suspend(eng, st, kind, **kw):
    eng.emit(st, Ev(k='suspend', kind=kind, held=st.locks, **kw))
    st.say('%s: suspends (%s)' % (eng.loc(st), kind))
    eng.havoc(st, 'suspend')
    eng.emit(st, Ev(k='resumed', kind=kind, **kw))


def release_ulock(eng, st, lk):
    lk = aptr(lk)
    dev, own = ulock(eng, st, lk)
    if dev[0] == 'p' and dev in st.locks:
        do_release(eng, st, dev, 'spin', 'unique_lock', why='suspend')
    st.mem[(lk[1], addoff(lk[2], 8))] = ZERO
    return dev


def m_suspend_and_wait(eng, st, fr, i, fn, args):
    dev, own = ulock(eng, st, args[1])
    eng.emit(st, Ev(k='enqueue', wq=aptr(args[0]), lock=dev, own=own, ctx=args[2], held=st.locks, timed=False))
    release_ulock(eng, st, args[1])
    suspend(eng, st, 'wait', wq=aptr(args[0]), lock=dev)
    return [(st, None)]


def m_suspend_and_wait_until(eng, st, fr, i, fn, args):
    dev, own = ulock(eng, st, args[1])
    eng.emit(st, Ev(k='enqueue', wq=aptr(args[0]), lock=dev, own=own, ctx=args[2], held=st.locks, timed=True,
                    tp=args[3]))
    release_ulock(eng, st, args[1])
    suspend(eng, st, 'wait_until', wq=aptr(args[0]), lock=dev)
    s = st.copy()
    s.say('%s: times out' % eng.loc(s))
    eng.emit(s, Ev(k='wait_result', timeout=True))
    eng.emit(st, Ev(k='wait_result', timeout=False))
    return [(s, ZERO), (st, ONE)]


def m_notify(which):
    def m(eng, st, fr, i, fn, args):
        eng.emit(st, Ev(k='notify', which=which, wq=aptr(args[0]), held=st.locks))
        st.say('%s: %s(%s)' % (eng.loc(st), which, eng.where(aptr(args[0]))))
        return [(st, None)]
    return m


def m_wq_empty(eng, st, fr, i, fn, args):
    # nobody waits: notifying this queue now would change nothing ('wq_none' stands for both notifications)
    s = st.copy()
    eng.emit(st, Ev(k='wq_empty', wq=aptr(args[0]), val=ZERO, held=st.locks))
    eng.emit(s, Ev(k='wq_empty', wq=aptr(args[0]), val=ONE, held=s.locks))
    eng.emit(s, Ev(k='wq_none', wq=aptr(args[0]), which='none', held=s.locks))
    s.say('%s: %s is empty' % (eng.loc(s), eng.where(aptr(args[0]))))
    return [(st, ZERO), (s, ONE)]


def m_active(eng, st, fr, i, fn, args):
    b = 'nn:active'
    if b not in eng.symty or b not in st.names:
        st.names.add(b)
        eng.roots.add(b)
        if fn.dt:
            eng.symty[b] = eng.P.pointee(fn.dt[0])
        eng.symdesc[b] = 'active()'
    return [(st, ('p', b, 0))]


def m_ctx_suspend(eng, st, fr, i, fn, args):
    if fn.np >= 1:
        dev, own = ulock(eng, st, args[1])
        eng.emit(st, Ev(k='ctx_suspend', ctx=args[0], lock=dev, own=own, held=st.locks))
        release_ulock(eng, st, args[1])
        suspend(eng, st, 'suspend', lock=dev)
    else:
        eng.emit(st, Ev(k='ctx_suspend', ctx=args[0], held=st.locks))
        suspend(eng, st, 'suspend')
    return [(st, None)]


def m_ctx_yield(eng, st, fr, i, fn, args):
    suspend(eng, st, 'yield', ctx=args[0])
    return [(st, None)]


def m_ctx_wait_until(eng, st, fr, i, fn, args):
    dev = None
    w = args[3] if len(args) > 3 else None
    if fn.np >= 2:
        dev, own = ulock(eng, st, args[2])
    eng.emit(st, Ev(k='ctx_wait_until', ctx=args[0], tp=args[1], lock=dev, waker=w, held=st.locks))
    if fn.np >= 2:
        release_ulock(eng, st, args[2])
    suspend(eng, st, 'wait_until', lock=dev)
    s = st.copy()
    s.say('%s: times out' % eng.loc(s))
    eng.emit(s, Ev(k='wait_result', timeout=True))
    eng.emit(st, Ev(k='wait_result', timeout=False))
    return [(s, ZERO), (st, ONE)]


def m_event(kind, havoc=False, ret=None):
    def m(eng, st, fr, i, fn, args):
        eng.emit(st, Ev(k=kind, args=tuple(args), short=fn.short, held=st.locks, inst=i))
        st.say('%s: %s(%s)' % (eng.loc(st), fn.short.split('::')[-1], ', '.join(eng.where(a) for a in args[:3])))
        if havoc:
            eng.havoc(st, kind)
        v = None
        if 'i' in i:
            v = eng.result_sym(st, fr, i, fn, fn.short)
        return [(st, v)]
    return m


def m_wake(eng, st, fr, i, fn, args):
    v = eng.fresh(st, 'b:woke', '%d.%d' % (fr.ctx, i.get('i', 0)), False, None, 'wake()')
    eng.emit(st, Ev(k='wake', args=tuple(args), short=fn.short, val=v, held=st.locks, inst=i))
    st.say('%s: %s' % (eng.loc(st), fn.short.split('::')[-1]))
    return [(st, v)]


# ------------------------------------------------------------------ stack switch
def m_ontop(eng, st, fr, i, fn, args):
    target, data, f = args[0], args[1], args[2]
    eng.emit(st, Ev(k='switch', target=target, fn=f, data=data, held=st.locks))
    st.say('%s: switches to another stack (ontop_fcontext)' % eng.loc(st))
    me = eng.fresh(st, 'nn:selfctx', '%d.%d' % (fr.ctx, i.get('i', 0)), True, None, 'suspended stack of this fiber')

    def done(eng, s, v):
        eng.emit(s, Ev(k='switched', target=target, held=s.locks, ret=v))
        eng.havoc(s, 'switch')
        eng.emit(s, Ev(k='switch_return', target=target, held=s.locks))
        f2 = s.frames[-1]
        # whoever resumes this stack runs the same kind of closure: what it returns comes back here
        if v is not None and v[0] == 'agg' and v[1] == ZERO:
            r = ZERO
        else:
            r = eng.fresh(s, 'nn:resumer', '%d.%d' % (f2.ctx, i.get('i', 0)), True, None, 'stack of the resumer')
        return eng.call_done_list(s, i, ('agg', r, ZERO))
    if f[0] == 'f' and eng.P.fns.get(f[1]) is not None and eng.P.fns[f[1]].defined:
        return [(st, ('inline', eng.P.fns[f[1]], [me, data], done))]
    r = done(eng, st, None)
    return [(x, None) for x in r] if r else [(st, None)]


def m_jump(eng, st, fr, i, fn, args):
    eng.emit(st, Ev(k='switch', target=args[0], fn=None, data=args[1], held=st.locks))
    st.say('%s: switches to another stack (jump_fcontext)' % eng.loc(st))
    eng.havoc(st, 'switch')
    eng.emit(st, Ev(k='switch_return', target=args[0], held=st.locks))
    r = eng.fresh(st, 'nn:resumer', '%d.%d' % (fr.ctx, i.get('i', 0)), True, None, 'stack of the resumer')
    d = eng.fresh(st, 'xfer', '%d.%d' % (fr.ctx, i.get('i', 0)), True)
    return [(st, ('agg', r, d))]


# ------------------------------------------------------------------ containers
def ckey(p, what):
    return (p[1], ('ct', p[2], what))


def c_empty_val(eng, st, fr, i, p):
    k = ckey(p, 'empty')
    v = st.mem.get(k)
    if v is None:
        v = eng.fresh(st, 'b:empty', '%d.%d' % (fr.ctx, i.get('i', 0)), False, None, eng.where(p) + '.empty()')
        st.mem[k] = v
    return v


def c_event(eng, st, fr, i, fn, op, p, **kw):
    t, path, leaf = eng.field_of(p[1], p[2])
    eng.emit(st, Ev(k='cont', op=op, c=p, path=path, ty=t, held=st.locks, inst=i,
                    empty=st.mem.get(ckey(p, 'empty')), **kw))
    st.say('%s: %s.%s(%s)' % (eng.loc(st), eng.where(p), op, ', '.join(eng.where(v) for v in kw.values()
                                                                      if isinstance(v, tuple))))


def c_forget(st, p):
    for w in ('empty', 'front'):
        st.mem.pop(ckey(p, w), None)


def c_ctor(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    c_forget(st, p)
    if fn.np == 0 or True:
        st.mem[ckey(p, 'empty')] = ONE
    return [(st, None)]


def c_dtor(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    c_event(eng, st, fr, i, fn, 'destroy', p)
    c_forget(st, p)
    return [(st, None)]


def c_empty(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    v = c_empty_val(eng, st, fr, i, p)
    t, path, leaf = eng.field_of(p[1], p[2])
    eng.emit(st, Ev(k='cont', op='empty', c=p, path=path, ty=t, held=st.locks, inst=i, empty=v))
    return [(st, v)]


def c_front(op):
    def m(eng, st, fr, i, fn, args):
        p = aptr(args[0])
        k = ckey(p, op)
        v = st.mem.get(k)
        if v is None:
            ty = eng.P.pointee(fn.dt[0]) if fn.dt and fn.dt[0] is not None else None
            v = eng.fresh(st, 'nn:el_', '%d.%d' % (fr.ctx, i.get('i', 0)), True, ty, '%s.%s()' % (eng.where(p), op))
            st.mem[k] = v
        c_event(eng, st, fr, i, fn, op, p, el=v)
        return [(st, v)]
    return m


def c_pop(op):
    def m(eng, st, fr, i, fn, args):
        p = aptr(args[0])
        end = 'front' if op == 'pop_front' else 'back'
        v = st.mem.get(ckey(p, end))
        c_event(eng, st, fr, i, fn, op, p, val=v)
        c_forget(st, p)
        if v is not None and v[0] == 'p':
            drop_links(st, v[1])
        return [(st, None)]
    return m


def drop_links(st, b):
    for k in [k for k in st.mem if k[0] == b and isinstance(k[1], tuple) and k[1][0] == 'lk']:
        del st.mem[k]


def c_push(op):
    def m(eng, st, fr, i, fn, args):
        p = aptr(args[0])
        v = args[1] if len(args) > 1 else None
        c_event(eng, st, fr, i, fn, op, p, val=v)
        c_forget(st, p)
        st.mem[ckey(p, 'empty')] = ZERO
        if eng.shared(st, p[1]) and v is not None:
            eng.escape(st, v)
        if v is not None and v[0] == 'p':
            drop_links(st, v[1])
        out = None
        if 'i' in i:
            out = eng.result_sym(st, fr, i, fn, op)
        return [(st, out)]
    return m


def c_remove(op):
    def m(eng, st, fr, i, fn, args):
        p = aptr(args[0])
        v = args[1] if len(args) > 1 else None
        c_event(eng, st, fr, i, fn, op, p, val=v)
        c_forget(st, p)
        if v is not None and v[0] == 'p':
            drop_links(st, v[1])
        out = eng.result_sym(st, fr, i, fn, op) if 'i' in i else None
        return [(st, out)]
    return m


def c_swap(eng, st, fr, i, fn, args):
    a, b = aptr(args[0]), aptr(args[1])
    c_event(eng, st, fr, i, fn, 'swap', a, val=b)
    for w in ('empty', 'front'):
        ka, kb = ckey(a, w), ckey(b, w)
        va, vb = st.mem.pop(ka, None), st.mem.pop(kb, None)
        if va is not None:
            st.mem[kb] = va
        if vb is not None:
            st.mem[ka] = vb
    return [(st, None)]


def c_clear(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    c_event(eng, st, fr, i, fn, 'clear', p)
    c_forget(st, p)
    st.mem[ckey(p, 'empty')] = ONE
    return [(st, None)]


def c_begin(op):
    def m(eng, st, fr, i, fn, args):
        p = aptr(args[0])
        if 'i' not in i:       # sret iterator
            c_event(eng, st, fr, i, fn, op, aptr(args[1]))
            d = aptr(args[0])
            v = eng.fresh(st, 'nn:it_' + op, '%d.%d' % (fr.ctx, id(i) % 9973), True)
            st.mem[(d[1], d[2])] = v
            return [(st, None)]
        c_event(eng, st, fr, i, fn, op, p)
        k = ckey(p, op)
        v = st.mem.get(k)
        if v is None:
            v = eng.fresh(st, 'nn:it_' + op, '%d.%d' % (fr.ctx, i['i']), i['t'] == 'ptr', None,
                          '%s.%s()' % (eng.where(p), op))
        return [(st, v)]
    return m


def h_linked(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    k = (p[1], ('lk', p[2]))
    v = st.mem.get(k)
    if v is None:
        t, path, leaf = eng.field_of(p[1], p[2])
        v = eng.fresh(st, 'b:linked', '%d.%d' % (fr.ctx, i['i']), False, None, '%s.is_linked()' % eng.where(p))
        st.mem[k] = v
    t, path, leaf = eng.field_of(p[1], p[2])
    eng.emit(st, Ev(k='hook', op='is_linked', h=p, path=path, ty=t, val=v, held=st.locks))
    return [(st, v)]


def h_unlink(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    t, path, leaf = eng.field_of(p[1], p[2])
    eng.emit(st, Ev(k='hook', op='unlink', h=p, path=path, ty=t, held=st.locks))
    st.say('%s: unlink %s' % (eng.loc(st), eng.where(p)))
    st.mem[(p[1], ('lk', p[2]))] = ZERO
    return [(st, None)]


def h_ctor(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    st.mem[(p[1], ('lk', p[2]))] = ZERO
    return [(st, None)]


def m_nop(eng, st, fr, i, fn, args):
    v = eng.result_sym(st, fr, i, fn, fn.short) if 'i' in i else None
    return [(st, v)]


# ------------------------------------------------------------------ C++ runtime
def m_new(eng, st, fr, i, fn, args):
    out = []
    if eng.rules.alloc_throws and fn.np < 2:
        s = st.copy()
        s.say('%s: operator new throws' % eng.loc(s))
        out.append((s, ('throw', '_ZTISt9bad_alloc')))
    b = 'h:%d.%d' % (fr.ctx, i['i'])
    if b in st.names:
        eng.rename_old(st, b)
    for k in [k for k in st.mem if k[0] == b]:
        del st.mem[k]
    st.esc = st.esc - {b}
    st.names.add(b)
    eng.symty.pop(b, None)
    eng.symdesc[b] = 'new@%s' % eng.loc(st).split('/')[-1]
    st.say('%s: operator new' % eng.loc(st))
    eng.emit(st, Ev(k='alloc', base=b, size=args[0]))
    out.append((st, ('p', b, 0)))
    return out


def m_delete(eng, st, fr, i, fn, args):
    p = args[0]
    eng.emit(st, Ev(k='free', ptr=p, fnname=fn.short))
    st.say('%s: operator delete %s' % (eng.loc(st), eng.where(p)))
    if p[0] == 'p':
        for k in [k for k in st.mem if k[0] == p[1]]:
            del st.mem[k]
    return [(st, None)]


def m_alloc_exc(eng, st, fr, i, fn, args):
    b = 'h:x%d.%d' % (fr.ctx, i['i'])
    st.names.add(b)
    eng.symdesc[b] = 'exception object'
    return [(st, ('p', b, 0))]


def m_cxa_throw(eng, st, fr, i, fn, args):
    ti = args[1][1][1:] if args[1][0] == 'p' and args[1][1].startswith('@') else None
    code = st.mem.get((args[0][1], 'errc')) if args[0][0] == 'p' else None
    st.say('%s: throw %s' % (eng.loc(st), eng.excname(('exc', ti))))
    eng.emit(st, Ev(k='throw', ti=ti, name=eng.excname(('exc', ti)), code=code, obj=args[0], held=st.locks))
    return [(st, ('throw', ti, args[0]))]


def m_begin_catch(eng, st, fr, i, fn, args):
    exc = st.exc or ('exc', None, U, ())
    st.caught = st.caught + (exc,)
    st.exc = None
    eng.emit(st, Ev(k='catch', exc=exc))
    p = exc[2] if exc[2][0] == 'p' else eng.fresh(st, 'nn:exc', '%d.%d' % (fr.ctx, i.get('i', 0)), True)
    return [(st, p)]


def m_end_catch(eng, st, fr, i, fn, args):
    if st.caught:
        st.caught = st.caught[:-1]
    return [(st, None)]


def m_rethrow(eng, st, fr, i, fn, args):
    exc = st.caught[-1] if st.caught else ('exc', None, U, ())
    eng.emit(st, Ev(k='rethrow', exc=exc))
    return [(st, ('throw', exc[1], exc[2]))]


def m_current_exception(eng, st, fr, i, fn, args):
    d = aptr(args[0])
    v = eng.fresh(st, 'nn:curexc', '%d' % fr.ctx, True, None, 'current_exception()')
    st.mem[(d[1], d[2])] = v
    eng.emit(st, Ev(k='current_exception', dst=d, val=v, caught=st.caught))
    return [(st, None)]


def m_make_eptr(eng, st, fr, i, fn, args):
    d = aptr(args[0])
    v = eng.fresh(st, 'nn:mkexc', '%d' % fr.ctx, True, None, 'make_exception_ptr()')
    st.mem[(d[1], d[2])] = v
    m = re.search(r'make_exception_ptr<(.*?)>\(', fn.dem)
    eng.emit(st, Ev(k='make_exception_ptr', dst=d, val=v, type=m.group(1) if m else None,
                    code=st.mem.get((args[1][1], 'errc')) if len(args) > 1 and args[1][0] == 'p' else None))
    return [(st, None)]


def m_rethrow_exception(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    v = st.mem.get((p[1], p[2]))
    eng.emit(st, Ev(k='rethrow_exception', val=v))
    st.say('%s: rethrow_exception(%s)' % (eng.loc(st), eng.where(v)))
    return [(st, ('throw', None))]


def m_eptr_copy(eng, st, fr, i, fn, args):
    d, s = aptr(args[0]), aptr(args[1])
    v = eng.load(st, s, '%d.ep' % fr.ctx, True, 8, i)
    eng.store(st, d, v, i)
    r = args[0] if 'i' in i else None
    return [(st, r)]


def m_terminate(eng, st, fr, i, fn, args):
    eng.stats['paths'] += 1
    st.say('%s: std::terminate' % eng.loc(st))
    eng.rules.exit(eng, st, 'terminate', None)
    return [(st, ('stop',))]


def m_dyncast(eng, st, fr, i, fn, args):
    eng.emit(st, Ev(k='dynamic_cast', val=args[0]))
    return [(st, args[0])]


def m_make_error_code(eng, st, fr, i, fn, args):
    v = args[0]
    eng.emit(st, Ev(k='make_error_code', code=v, fn=fn.dem))
    cat = 'future' if 'future_errc' in fn.dem else 'generic'
    return [(st, ('agg', v, ('p', '@cat_' + cat, 0)))]


def m_error_ctor(eng, st, fr, i, fn, args):
    p = aptr(args[0])
    for a in args[1:]:
        if a[0] == 'c':
            st.mem[(p[1], 'errc')] = a
            break
        if a[0] == 'agg':
            st.mem[(p[1], 'errc')] = a[1]
            break
        if a[0] == 'p' and (a[1], 'errc') in st.mem:
            st.mem[(p[1], 'errc')] = st.mem[(a[1], 'errc')]
            break
    return [(st, None)]


def m_now(eng, st, fr, i, fn, args):
    v = eng.fresh(st, 'now', '%d.%d' % (fr.ctx, i.get('i', 0)), False, None, 'now()')
    eng.emit(st, Ev(k='now', val=v))
    return [(st, v)]


def m_cv_wait(eng, st, fr, i, fn, args):
    lk = aptr(args[1])
    dev, own = ulock(eng, st, lk)
    eng.emit(st, Ev(k='cv_wait', cv=aptr(args[0]), lock=dev, own=own, held=st.locks, timed='until' in fn.short,
                    tp=args[2] if len(args) > 2 else None))
    st.say('%s: %s' % (eng.loc(st), fn.short))
    eng.havoc(st, 'cv_wait')
    eng.emit(st, Ev(k='cv_waited', cv=aptr(args[0])))
    v = eng.result_sym(st, fr, i, fn, 'wait') if 'i' in i else None
    return [(st, v)]


def m_cv_notify(eng, st, fr, i, fn, args):
    eng.emit(st, Ev(k='cv_notify', cv=aptr(args[0]), held=st.locks, which=fn.short.split('::')[-1]))
    st.say('%s: %s' % (eng.loc(st), fn.short))
    return [(st, None)]


def m_guard_acquire(eng, st, fr, i, fn, args):
    return [(st, ONE)]


def m_thread_local_init(eng, st, fr, i, fn, args):
    return [(st, None)]


def install(eng):
    M = eng.models
    ns = 'boost::fibers::'
    for s in SPIN:
        M[ns + 'detail::%s::lock' % s] = m_lock('spin')
        M[ns + 'detail::%s::try_lock' % s] = m_try('spin')
        M[ns + 'detail::%s::unlock' % s] = m_unlock('spin')
    for s in FMUTEX:
        M[ns + '%s::lock' % s] = m_lock('mutex')
        M[ns + '%s::try_lock' % s] = m_try('mutex')
        M[ns + '%s::unlock' % s] = m_unlock('mutex')
    M['std::mutex::lock'] = m_lock('std')
    M['std::mutex::try_lock'] = m_try('std')
    M['std::mutex::unlock'] = m_unlock('std')
    M[ns + 'wait_queue::suspend_and_wait'] = m_suspend_and_wait
    M[ns + 'wait_queue::suspend_and_wait_until'] = m_suspend_and_wait_until
    M[ns + 'wait_queue::notify_one'] = m_notify('notify_one')
    M[ns + 'wait_queue::notify_all'] = m_notify('notify_all')
    M[ns + 'wait_queue::empty'] = m_wq_empty
    M[ns + 'context::active'] = m_active
    M[ns + 'context::suspend'] = m_ctx_suspend
    M[ns + 'context::yield'] = m_ctx_yield
    M[ns + 'context::wait_until'] = m_ctx_wait_until
    M[ns + 'context::resume'] = m_event('resume', havoc=True)
    M[ns + 'context::schedule'] = m_event('schedule')
    M[ns + 'context::wake'] = m_wake
    M[ns + 'waker::wake'] = m_wake
    M[ns + 'context::join'] = m_event('join', havoc=True)
    M['ontop_fcontext'] = m_ontop
    M['jump_fcontext'] = m_jump
    M['make_fcontext'] = m_event('make_fcontext')
    bi = 'boost::intrusive::'
    for c in ('list_impl', 'slist_impl', 'multiset_impl', 'set_impl', 'bstree_impl', 'list', 'slist', 'multiset',
              'rbtree_impl'):
        p = bi + c + '::'
        M[p + c] = c_ctor
        M[p + '~' + c] = c_dtor
        M[p + 'empty'] = c_empty
        M[p + 'front'] = c_front('front')
        M[p + 'back'] = c_front('back')
        M[p + 'pop_front'] = c_pop('pop_front')
        M[p + 'pop_back'] = c_pop('pop_back')
        M[p + 'push_back'] = c_push('push_back')
        M[p + 'push_front'] = c_push('push_front')
        M[p + 'insert'] = c_push('insert')
        M[p + 'insert_equal'] = c_push('insert')
        M[p + 'erase'] = c_remove('erase')
        M[p + 'remove'] = c_remove('remove')
        M[p + 'swap'] = c_swap
        M[p + 'clear'] = c_clear
        M[p + 'begin'] = c_begin('begin')
        M[p + 'end'] = c_begin('end')
    M[bi + 'bstbase3::begin'] = c_begin('begin')
    M[bi + 'bstbase3::end'] = c_begin('end')
    M[bi + 'generic_hook::is_linked'] = h_linked
    M[bi + 'generic_hook::unlink'] = h_unlink
    M[bi + 'generic_hook::generic_hook'] = h_ctor
    M[bi + 'generic_hook::~generic_hook'] = m_nop
    M['operator new'] = m_new
    M['new[]'] = m_new
    M['operator delete'] = m_delete
    M['delete[]'] = m_delete
    M['__cxa_allocate_exception'] = m_alloc_exc
    M['__cxa_free_exception'] = m_nop
    M['__cxa_throw'] = m_cxa_throw
    M['__cxa_begin_catch'] = m_begin_catch
    M['__cxa_end_catch'] = m_end_catch
    M['__cxa_rethrow'] = m_rethrow
    M['__cxa_guard_acquire'] = m_guard_acquire
    M['__cxa_guard_release'] = m_nop
    M['__cxa_guard_abort'] = m_nop
    M['__cxa_thread_atexit'] = m_nop
    M['__cxa_atexit'] = m_nop
    M['__clang_call_terminate'] = m_terminate
    M['std::terminate'] = m_terminate
    M['__dynamic_cast'] = m_dyncast
    M['std::current_exception'] = m_current_exception
    M['std::make_exception_ptr'] = m_make_eptr
    M['std::rethrow_exception'] = m_rethrow_exception
    M['std::__exception_ptr::exception_ptr::_M_addref'] = m_nop
    M['std::__exception_ptr::exception_ptr::_M_release'] = m_nop
    M['std::make_error_code'] = m_make_error_code
    M[ns + 'make_error_code'] = m_make_error_code
    for e in ('fiber_error', 'lock_error', 'future_error', 'future_uninitialized', 'future_already_retrieved',
              'broken_promise', 'promise_already_satisfied', 'promise_uninitialized', 'packaged_task_uninitialized'):
        M[ns + '%s::%s' % (e, e)] = m_error_ctor
        M[ns + '%s::~%s' % (e, e)] = m_nop
    M['std::chrono::_V2::steady_clock::now'] = m_now
    M['std::condition_variable::wait/1'] = m_cv_wait
    M['std::condition_variable::wait_until/2'] = m_cv_wait
    M['std::condition_variable::notify_one'] = m_cv_notify
    M['std::condition_variable::notify_all'] = m_cv_notify
    M['std::condition_variable::condition_variable'] = m_nop
    M['std::condition_variable::~condition_variable'] = m_nop
    M['sched_yield'] = m_nop
    M['nanosleep'] = m_nop
    M['strlen'] = m_nop
