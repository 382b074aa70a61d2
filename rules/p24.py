"""Explores the constructor, awakened, pick_next and has_ready_fibers of every bundled algorithm (every class that implements suspend_until and notify), with
its helpers inlined, for main, dispatcher and worker fibers. Queues are abstracted to empty / known first element / unknown; std::deque, the intrusive
lists and the work-stealing queues are summarised by their documented effect (the latter are decided by P25). Each path must queue a readied fiber exactly once; return what
it took, and nothing only if every queue that awakened fills is known to be empty; take from the end opposite to the one that is filled; touch
a queue shared by all threads only under a mutex shared by all threads; detach a worker before it is put where others take it, never a pinned fiber, and attach exactly those again that are
taken or stolen detached. Stealing must draw indices inside the table (linear bound of the distribution against the
size the table was given), draw again only if the path has established that there are others, and the constructor must register the algorithm under its own number before it waits for the other threads."""
from rules.algos import *
ASSUME = ['std::deque, std::vector and boost::intrusive::list behave as documented', 'the work-stealing queues behave as decided by P25',
          'every thread constructs the algorithm with the same thread count or topology']


def run(ctx):
    P = ctx.load(AUNITS + ['tu/algo.cpp'])
    algorithms(ctx, P)
    for r, n in ((A1, 4), (A2, 3), (A3, 4), (A4, 4), (A5, 2), (A6, 1), (A7, 3), (A8, 2), (A9, 2), (A10, 2)):
        ctx.require(r, n)
