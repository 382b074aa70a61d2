from rules import mutexes
EXPLAIN = mutexes.__doc__
def run(ctx):
    mutexes.run(ctx, tuple(x + str(i) + ' ' for x in 'M' for i in range(10)))
