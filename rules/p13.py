"""Every operation of promises, futures, shared futures and packaged tasks (result types: object,
reference, void) is explored over all paths down to the state's mutex.  The critical sections that
make a state ready do so exactly once, from not-ready, after storing exactly one outcome, and are
followed by notify_all on the state's waiters; no other path writes the outcome; a fiber parks only
after it saw, under the mutex, that there is no outcome, and waiting ends only having seen one; a
second attempt raises promise_already_satisfied and changes nothing."""
from rules import futures
ASSUME = ['condition_variable waits and notifications behave as decided by P06', 'mutex excludes as decided by P01',
          'user-supplied copy and move operations do not touch the state they are stored into']


def run(ctx):
    futures.explore(ctx, 'S', ('Producer', 'Consumer', 'Task', 'set_', 'async_'))
    for r, n in (('S1 the result is announced once, complete, under the mutex', 8), ('S2 a stored result is never replaced', 6), ('S4 everybody waiting is resumed', 8),
                 ('S5 a fiber blocks only while the result is missing', 4), ('S7 satisfying stores the given result', 5),
                 ('S8 a second result is refused with promise_already_satisfied', 5), ('S9 waiting ends only with the result', 4)):
        ctx.require(r, n)
