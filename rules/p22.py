"""suspend_until and notify of every bundled algorithm are explored over all paths.  A notification is a flag set under the algorithm's mutex, announced on its condition variable after (or within)
that critical section; a thread waits on the condition variable only holding the mutex and having read the flag as unset since it took the mutex or last woke, never after clearing it itself, and
with exactly the deadline it was given; whatever configuration lets the thread sleep also lets it be notified.  The scheduler notifies after it queued a fiber from another thread."""
from rules.algos import *
ASSUME = ['std::condition_variable and std::mutex behave as documented', 'what the dispatcher does between waking up and sleeping again is decided by P20']


def run(ctx):
    P = ctx.load(AUNITS)
    idle(ctx, P)
    P = ctx.load(UNITS)
    lay = Lay(P)
    roles = learn(ctx, P, lay)
    for f in ctx.functions(P, 'scheduler::schedule_from_remote', need=1):
        r = Ready(P, lay, roles)
        r.rules = (D3,)
        ctx.explore(P, f, r)
    for r, n in ((N1, 4), (N2, 4), (N3, 4), (N4, 4), (N5, 4), (D3, 1)):
        ctx.require(r, n)
