"""The blocking behaviour of buffered_channel, explored over all paths: a fiber parks only in the
situation that justifies it, seen in the same critical section, with that lock; every transfer
notifies the other side before the lock is released; closing notifies both sides; each status
is reported only in its situation; deadlines are the caller's."""
from rules import bchannel
ASSUME = ['the wait queue parks, resumes and times out as decided by P04']


def run(ctx):
    bchannel.run(ctx, 'D')
