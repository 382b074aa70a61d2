"""Every operation of future and shared_future, and get_future of promises and tasks, is explored
over all paths.  get() returns the value (or reference) stored in the state, or raises the stored
exception, having seen the state ready under its mutex; a future is left without a state and the
value is taken before the last reference goes; shared_future keeps it; wait operations keep the
state, timed ones report ready exactly when a result was seen; moves, copies and share() transfer
the state; a second get_future is refused; operations without a state raise no_state."""
from rules import futures
ASSUME = ['condition_variable waits behave as decided by P06', 'P13: the outcome of a ready state does not change']


def run(ctx):
    futures.explore(ctx, 'F', ('Consumer', 'Producer', 'Task'))
    for r, n in (('F1 moving, copying and swapping transfer the state', 15), ('F2 valid tells whether there is a state', 2),
                 ('F3 operations without a state raise no_state and change nothing', 8), ('F4 at most one future per promise', 2),
                 ('F5 a timed wait reports ready exactly when the result is there', 4), ('F6 the stored result is delivered', 4)):
        ctx.require(r, n)
