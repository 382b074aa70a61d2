#!/usr/bin/env python3
"""Writes tu/queues.cpp: client programs of the work-stealing queues, one per sequence of operations."""
import itertools, os

def body(seq, pinned):
    out, n = [], 0
    for op in seq:
        if op == 'P':
            out.append('q.push( %s); pushed( %s);' % (('pin' if n == pinned else 'c%d' % n,) * 2))
            n += 1
        elif op == 'O':
            out.append('popped( q.pop() );')
        elif op == 'S':
            out.append('stole( q.steal() );')
    return ' '.join(out), n

L = ['// Client programs of the work-stealing queues; generated by tools/mkqueues.py, never executed.',
     '#include <boost/fiber/detail/context_spinlock_queue.hpp>', '#include <boost/fiber/detail/context_spmc_queue.hpp>', '#include <boost/fiber/type.hpp>',
     'namespace use {', 'using namespace boost::fibers;',
     'void pushed( context *); void popped( context *); void stole( context *); void isempty( bool); void finished();',
     '// no queued fiber is null',
     '#define ARGS context & r0, context & r1, context & r2, context & r3, context & r4, context & r5, context & r6, context & r7, context & rpin',
     ] + ['#define %s (& r%s)' % (n, n.lstrip('c')) for n in ['c%d' % k for k in range(8)] + ['pin']] + [
     '#define SEQ(name, cap, body) \\',
     'void sl_##name( ARGS) { auto & q = * new detail::context_spinlock_queue( cap); body isempty( q.empty() ); finished(); } \\',
     'void cl_##name( ARGS) { auto & q = * new detail::context_spmc_queue( cap); body isempty( q.empty() ); finished(); }']

def emit(name, cap, seq, pinned=None):
    b, n = body(seq, pinned)
    L.append('SEQ( %s, %d, %s %s)' % (name, cap, b, ' '.join(['popped( q.pop() );'] * (n + 1))))

def emit_all(tag, cap, k):
    for s in itertools.product('POS', repeat=k):
        s = ''.join(s)
        emit('%s_%s' % (tag, s), cap, s)

emit_all('q', 2, 4)
L.append('#ifdef THOROUGH')
emit_all('t', 2, 7)
emit_all('u', 4, 5)
L.append('#endif')
# growth at every position of the ring
for cap in (2, 4):
    for k in range(cap + 1):
        emit('g%d_%d' % (cap, k), cap, 'PO' * k + 'P' * (8 - k))
        emit('h%d_%d' % (cap, k), cap, 'PS' * k + 'P' * (8 - k))
        emit('i%d_%d' % (cap, k), cap, 'P' * k + 'S' + 'P' * (8 - k) + 'SSS')
# a pinned fiber at every position
for k in range(4):
    for s in ('PPPPSSSSS', 'PPPPSOSOS', 'PPSPSPSS', 'PPPPOSOS'):
        emit('p%d_%s' % (k, s), 4, s, k)
        emit('r%d_%s' % (k, s), 2, s, k)
for k in range(8):
    emit('e_%d' % k, 4, '')
    break
L.append('// the operations as such')
L.append('void sl_push( detail::context_spinlock_queue & q, context * c) { q.push( c); }')
for q, t in (('sl', 'spinlock'), ('cl', 'spmc')):
    if q == 'cl':
        L.append('void cl_push( detail::context_spmc_queue & q, context * c) { q.push( c); }')
    L.append('context * %s_pop( detail::context_%s_queue & q) { return q.pop(); }' % (q, t))
    L.append('context * %s_steal( detail::context_%s_queue & q) { return q.steal(); }' % (q, t))
    L.append('bool %s_empty( detail::context_%s_queue & q) { return q.empty(); }' % (q, t))
L.append('}')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, 'tu/queues.cpp'), 'w').write('\n'.join(L) + '\n')
