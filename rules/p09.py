"""Every operation of buffered_channel is explored over all paths, with an element type whose
copies, moves and destruction are opaque and may throw.  Between two points at which the lock is
held the state changes by exactly one of: store the caller's value in the producers' slot and
advance that index, only when not full and open; hand the consumers' slot to the caller and
advance that index, only when not empty; nothing.  Success is reported for exactly one transfer."""
from rules import bchannel
ASSUME = ['the element type\'s operations do not touch the channel']


def run(ctx):
    bchannel.run(ctx, 'Q')
