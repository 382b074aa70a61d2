"""Calling and resetting packaged tasks, the task objects behind them (reached through their virtual
functions) and all four overloads of async are explored over all paths with an opaque callable:
the callable runs exactly once per call with the given arguments; its value, or the exception that
was raised, becomes the result; forced unwinding passes through and is no result; a refused result
raises promise_already_satisfied; reset allocates, moves the callable into a fresh unready state
and frees the memory if that fails; async launches exactly one fiber from a task holding the given
callable, passing policy, stack allocator and arguments on, detaches it and returns the future of
that same task."""
from rules import futures
ASSUME = ['fiber construction is summarised as taking its arguments over (decided by P17 and P32)']


def run(ctx):
    futures.explore(ctx, 'K', ('Task', 'async_'))
    for r, n in (('K1 calling a task runs its function once with the arguments', 2), ('K2 the outcome of the function becomes the result', 1),
                 ('K4 reset makes a fresh task with the same function', 1), ('K5 async runs the function in a detached fiber and returns its future', 4),
                 ('K6 async passes policy, stack allocator and arguments on', 4)):
        ctx.require(r, n)
