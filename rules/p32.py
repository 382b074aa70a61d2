"""Every form of launching a fiber is followed on the launcher's stack and on the new one: one stack is taken from the given allocator, the control block is built on it,
the fiber is attached, then queued (post) or resumed with its launcher requeued (dispatch); the callable runs once with the given arguments on the
new stack, an exception it throws ends the program, and the reclaimed stack goes back to the allocator once.  A launch that fails gives the stack back."""
from rules.life import *


def run(ctx):
    explore(ctx, 'L')
