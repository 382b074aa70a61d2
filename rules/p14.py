"""Construction, destruction, move, assignment, swap, get_future and reset of promises and packaged
tasks are explored over all paths; the state pointer and the retrieved mark of every object before
and after are compared.  A state whose future may be in use and that no producer keeps is satisfied
with a broken_promise exception unless a result was seen; a state that is kept is left alone and
its mark moves with it; operations without a state raise no_state and change nothing."""
from rules import futures
from rules.common import Broken
ASSUME = ['condition_variable notifications behave as decided by P06']
CODES = {'broken_promise': 'broken', 'future_uninitialized': 'nostate', 'promise_uninitialized': 'nostate', 'packaged_task_uninitialized': 'nostate',
         'future_already_retrieved': 'retrieved', 'promise_already_satisfied': 'satisfied'}


def run(ctx):
    P, codes, consts = futures.explore(ctx, 'A', ('Producer', 'Task', 'set_'))
    for cls, want in sorted(CODES.items()):
        r = 'E1 error types carry their documented code'
        k = [c for n, c in codes.items() if n.endswith('::' + cls)]
        if len(k) != 1:
            raise Broken('anchor vanished: no constructor of %s' % cls)
        ctx.ok(r, cls)
        if k[0] != consts[want]:
            ctx.violation(r, cls, 'carries code %d instead of %d' % (k[0], consts[want]))
    for r, n in (('A1 an abandoned promise fails its future', 4), ('A3 the retrieved mark moves with its state', 12),
                 ('A5 moving, copying and swapping transfer the state', 12), ('A7 operations without a state raise no_state and change nothing', 8)):
        ctx.require(r, n)
