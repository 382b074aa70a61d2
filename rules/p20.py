"""Every operation of the scheduler's interface and its dispatch loop are explored over all paths with the queues of fibers abstracted to empty / first element / unknown.
A readied fiber goes to the algorithm once and leaves the sleep queue; one readied from another thread is queued under the lock before the scheduler is notified; yield requeues, suspend
does not; each round of the dispatcher fetches every remotely readied fiber, readies every expired sleeper and releases every terminated fiber, runs what it picked while staying ready
itself, idles only if nothing is ready, and ends only at shutdown without workers; replacing the algorithm moves every ready fiber."""
from rules.sched import *
ASSUME = ['the scheduling algorithm behaves as decided by P24 (a thread\'s dispatcher is always among its ready fibers)', 'resumption behaves as decided by P06',
          'boost::intrusive containers behave as documented', 'termination is decided by P18, wake-ups by P05']


def run(ctx):
    explore(ctx, 'DE')
    for r, n in ((D1, 1), (D2, 1), (D3, 1), (D4, 1), (D5, 3), (D6, 1), (D7, 1), (D8, 1), (D9, 1), (D10, 1), (D11, 1), (D12, 1), (D13, 4), (D14, 1), (D15, 5)):
        ctx.require(r, n)
