// Client programs of the work-stealing queues; generated by tools/mkqueues.py, never executed.
#include <boost/fiber/detail/context_spinlock_queue.hpp>
#include <boost/fiber/detail/context_spmc_queue.hpp>
#include <boost/fiber/type.hpp>
namespace use {
using namespace boost::fibers;
void pushed( context *); void popped( context *); void stole( context *); void isempty( bool); void finished();
// no queued fiber is null
#define ARGS context & r0, context & r1, context & r2, context & r3, context & r4, context & r5, context & r6, context & r7, context & rpin
#define c0 (& r0)
#define c1 (& r1)
#define c2 (& r2)
#define c3 (& r3)
#define c4 (& r4)
#define c5 (& r5)
#define c6 (& r6)
#define c7 (& r7)
#define pin (& rpin)
#define SEQ(name, cap, body) \
void sl_##name( ARGS) { auto & q = * new detail::context_spinlock_queue( cap); body isempty( q.empty() ); finished(); } \
void cl_##name( ARGS) { auto & q = * new detail::context_spmc_queue( cap); body isempty( q.empty() ); finished(); }
SEQ( q_PPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_POSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_PSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_OOSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OOSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_OSPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_OSSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_OSSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_SPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_SOSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SOSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_SSPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( q_SSSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( q_SSSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
#ifdef THOROUGH
SEQ( t_PPPPPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPPSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPOSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPPSSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOPSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOOSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPOSSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSPSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSOSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSOSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSPP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSPO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSPS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSOP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSOO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSSP, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSSO, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PPSSSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPPSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPOSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POPSSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOPSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOOSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POOSSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSPSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSOSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSPSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSOSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSPP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSPO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSPS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSOP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSOO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSOS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSSP, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSSO, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_POSSSSS, 2, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPPSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPOSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSPSSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOPSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOOSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSOSSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSPSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSOSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSPSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSOSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSPP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSPO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSPS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSOP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSOO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSOS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSSP, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSSO, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_PSSSSSS, 2, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPPSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPOSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPPSSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOPSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOOSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPOSSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSPSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSOSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSPSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSOSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSPP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSPO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSPS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSOP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSOO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSOS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSSP, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSSO, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OPSSSSS, 2, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPPSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPOSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPPSSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOPSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOOSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPOSSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSPSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSOSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSPP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSPO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSPS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSOP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSOO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSOS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSSP, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSSO, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOPSSSS, 2, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPPSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPOSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOPSSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOPSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOOOSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOOSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOOSPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOOSSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOOSSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOSPPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSPSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOSOSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSOSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOSSPP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSPO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSPS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSOP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSOO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSOS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOOSSSP, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSSO, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOOSSSS, 2, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSPPPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPPSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPOSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSPSSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOPSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSOOSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOOSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSOSPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSOSSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSOSSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSSPPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSPSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSSOSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSOSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSSSPP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSPO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSPS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSOP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSOO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSOS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OOSSSSP, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSSO, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OOSSSSS, 2, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSPPPPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPPSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPOSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPPSSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOPSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOOSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPOSSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSPSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSOSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSPP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSPO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSPS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSOP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSOO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSOS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSSP, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSSO, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSPSSSS, 2, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPPSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPOSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOPSSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOPSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOOOSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOOSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOOSPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOOSSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOOSSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOSPPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSPSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOSOSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSOSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOSSPP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSPO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSPS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSOP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSOO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSOS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSOSSSP, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSSO, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSOSSSS, 2, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSPPPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPPSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPOSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSPSSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOPSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSOOSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOOSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSOSPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSOSSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSOSSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSSPPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSPSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSSOSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSOSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSSSPP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSPO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSPS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSOP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSOO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSOS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_OSSSSSP, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSSO, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_OSSSSSS, 2, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SPPPPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPPSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPOSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPPSSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOPSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOOSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPOSSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSPSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSOSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSPSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSOSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSPP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSPO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSPS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSOP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSOO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSOS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSSP, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSSO, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SPSSSSS, 2, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPPSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPOSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPPSSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOPSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOOSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPOSSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSPSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSOSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSPP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSPO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSPS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSOP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSOO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSOS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSSP, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSSO, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOPSSSS, 2, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPPSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPOSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOPSSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOPSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOOOSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOOSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOOSPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOOSSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOOSSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOSPPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSPSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOSOSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSOSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOSSPP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSPO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSPS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSOP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSOO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSOS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOOSSSP, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSSO, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOOSSSS, 2, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSPPPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPPSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPOSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSPSSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOPSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSOOSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOOSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSOSPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSOSSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSOSSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSSPPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSPSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSSOSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSOSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSSSPP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSPO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSPS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSOP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSOO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSOS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SOSSSSP, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSSO, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SOSSSSS, 2, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSPPPPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPPSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPOSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPPSSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOPSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOOSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPOSSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSPSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSOSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSPP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSPO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSPS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSOP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSOO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSOS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSSP, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSSO, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSPSSSS, 2, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPPSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPOSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOPSSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOPSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOOOSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOOSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOOSPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOOSSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOOSSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOSPPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSPSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOSOSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSOSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOSSPP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSPO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSPS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSOP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSOO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSOS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSOSSSP, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSSO, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSOSSSS, 2, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSPPPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPPSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPOSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSPSSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOPSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSOOSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOOSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSOSPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSOSSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSOSSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSSPPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSPSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSSOSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSOSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSSSPP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSPO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSPS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSOP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSOO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSOS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( t_SSSSSSP, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSSO, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( t_SSSSSSS, 2, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_PPPPP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPPO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPPS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPOP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPOO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPSP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPSO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPPSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOPP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOPO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOPS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOOP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOOO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOSP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOSO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPOSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSPP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSPO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSPS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSOP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSOO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSSP, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSSO, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PPSSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPPP, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPPO, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPPS, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPOP, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPOO, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPOS, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPSP, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPSO, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POPSS, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOPP, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOPO, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOPS, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOOP, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOOO, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOOS, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOSP, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOSO, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POOSS, 4, q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSPP, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSPO, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSPS, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSOP, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSOO, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSOS, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSSP, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSSO, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_POSSS, 4, q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPPP, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPPO, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPPS, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPOP, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPOO, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPOS, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPSP, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPSO, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSPSS, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOPP, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOPO, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOPS, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOOP, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOOO, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOOS, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOSP, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOSO, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSOSS, 4, q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSPP, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSPO, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSPS, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSOP, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSOO, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSOS, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSSP, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSSO, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_PSSSS, 4, q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPPP, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPPO, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPPS, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPOP, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPOO, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPOS, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPSP, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPSO, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPPSS, 4, popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOPP, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOPO, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOPS, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOOP, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOOO, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOOS, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOSP, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOSO, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPOSS, 4, popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSPP, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSPO, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSPS, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSOP, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSOO, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSOS, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSSP, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSSO, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OPSSS, 4, popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPPP, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPPO, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPPS, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPOP, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPOO, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPOS, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPSP, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPSO, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOPSS, 4, popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOPP, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOPO, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOPS, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOOP, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOOO, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOOS, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OOOSP, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOSO, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOOSS, 4, popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OOSPP, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSPO, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSPS, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSOP, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSOO, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSOS, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OOSSP, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSSO, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OOSSS, 4, popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OSPPP, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPPO, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPPS, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPOP, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPOO, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPOS, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPSP, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPSO, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSPSS, 4, popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOPP, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOPO, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOPS, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOOP, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOOO, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOOS, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OSOSP, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOSO, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSOSS, 4, popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OSSPP, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSPO, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSPS, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSOP, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSOO, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSOS, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_OSSSP, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSSO, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_OSSSS, 4, popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SPPPP, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPPO, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPPS, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPOP, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPOO, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPOS, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPSP, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPSO, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPPSS, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOPP, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOPO, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOPS, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOOP, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOOO, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOOS, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOSP, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOSO, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPOSS, 4, stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSPP, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSPO, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSPS, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSOP, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSOO, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSOS, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSSP, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSSO, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SPSSS, 4, stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPPP, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPPO, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPPS, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPOP, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPOO, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPOS, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPSP, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPSO, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOPSS, 4, stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOPP, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOPO, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOPS, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOOP, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOOO, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOOS, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SOOSP, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOSO, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOOSS, 4, stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SOSPP, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSPO, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSPS, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSOP, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSOO, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSOS, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SOSSP, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSSO, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SOSSS, 4, stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SSPPP, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPPO, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPPS, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPOP, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPOO, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPOS, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPSP, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPSO, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSPSS, 4, stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOPP, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOPO, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOPS, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOOP, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOOO, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOOS, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SSOSP, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOSO, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSOSS, 4, stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SSSPP, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSPO, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSPS, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSOP, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSOO, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSOS, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() );)
SEQ( u_SSSSP, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); q.push( c0); pushed( c0); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSSO, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() );)
SEQ( u_SSSSS, 4, stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() );)
#endif
SEQ( g2_0, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h2_0, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i2_0, 2, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g2_1, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h2_1, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i2_1, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g2_2, 2, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h2_2, 2, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i2_2, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g4_0, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h4_0, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i4_0, 4, stole( q.steal() ); q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g4_1, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h4_1, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i4_1, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g4_2, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h4_2, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i4_2, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g4_3, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h4_3, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i4_3, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( g4_4, 4, q.push( c0); pushed( c0); popped( q.pop() ); q.push( c1); pushed( c1); popped( q.pop() ); q.push( c2); pushed( c2); popped( q.pop() ); q.push( c3); pushed( c3); popped( q.pop() ); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( h4_4, 4, q.push( c0); pushed( c0); stole( q.steal() ); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( i4_4, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); q.push( c4); pushed( c4); q.push( c5); pushed( c5); q.push( c6); pushed( c6); q.push( c7); pushed( c7); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p0_PPPPSSSSS, 4, q.push( pin); pushed( pin); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r0_PPPPSSSSS, 2, q.push( pin); pushed( pin); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p0_PPPPSOSOS, 4, q.push( pin); pushed( pin); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r0_PPPPSOSOS, 2, q.push( pin); pushed( pin); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p0_PPSPSPSS, 4, q.push( pin); pushed( pin); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r0_PPSPSPSS, 2, q.push( pin); pushed( pin); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p0_PPPPOSOS, 4, q.push( pin); pushed( pin); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r0_PPPPOSOS, 2, q.push( pin); pushed( pin); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p1_PPPPSSSSS, 4, q.push( c0); pushed( c0); q.push( pin); pushed( pin); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r1_PPPPSSSSS, 2, q.push( c0); pushed( c0); q.push( pin); pushed( pin); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p1_PPPPSOSOS, 4, q.push( c0); pushed( c0); q.push( pin); pushed( pin); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r1_PPPPSOSOS, 2, q.push( c0); pushed( c0); q.push( pin); pushed( pin); q.push( c2); pushed( c2); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p1_PPSPSPSS, 4, q.push( c0); pushed( c0); q.push( pin); pushed( pin); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r1_PPSPSPSS, 2, q.push( c0); pushed( c0); q.push( pin); pushed( pin); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p1_PPPPOSOS, 4, q.push( c0); pushed( c0); q.push( pin); pushed( pin); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r1_PPPPOSOS, 2, q.push( c0); pushed( c0); q.push( pin); pushed( pin); q.push( c2); pushed( c2); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p2_PPPPSSSSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( pin); pushed( pin); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r2_PPPPSSSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( pin); pushed( pin); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p2_PPPPSOSOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( pin); pushed( pin); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r2_PPPPSOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( pin); pushed( pin); q.push( c3); pushed( c3); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p2_PPSPSPSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( pin); pushed( pin); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r2_PPSPSPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( pin); pushed( pin); stole( q.steal() ); q.push( c3); pushed( c3); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p2_PPPPOSOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( pin); pushed( pin); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r2_PPPPOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( pin); pushed( pin); q.push( c3); pushed( c3); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p3_PPPPSSSSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( pin); pushed( pin); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r3_PPPPSSSSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( pin); pushed( pin); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p3_PPPPSOSOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( pin); pushed( pin); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r3_PPPPSOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( pin); pushed( pin); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p3_PPSPSPSS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( pin); pushed( pin); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r3_PPSPSPSS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); stole( q.steal() ); q.push( c2); pushed( c2); stole( q.steal() ); q.push( pin); pushed( pin); stole( q.steal() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( p3_PPPPOSOS, 4, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( pin); pushed( pin); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( r3_PPPPOSOS, 2, q.push( c0); pushed( c0); q.push( c1); pushed( c1); q.push( c2); pushed( c2); q.push( pin); pushed( pin); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); stole( q.steal() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() ); popped( q.pop() );)
SEQ( e_0, 4,  popped( q.pop() );)
// the operations as such
void sl_push( detail::context_spinlock_queue & q, context * c) { q.push( c); }
context * sl_pop( detail::context_spinlock_queue & q) { return q.pop(); }
context * sl_steal( detail::context_spinlock_queue & q) { return q.steal(); }
bool sl_empty( detail::context_spinlock_queue & q) { return q.empty(); }
void cl_push( detail::context_spmc_queue & q, context * c) { q.push( c); }
context * cl_pop( detail::context_spmc_queue & q) { return q.pop(); }
context * cl_steal( detail::context_spmc_queue & q) { return q.steal(); }
bool cl_empty( detail::context_spmc_queue & q) { return q.empty(); }
}
