#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Compiles the sources a property needs from /repo's working tree to LLVM bitcode, loads
the type-checked program, runs the property's rules over every path of every function in
scope, and reports the constructs that break a rule.  Nothing is executed."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), HERE]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    repo = os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    import build
    from ctx import Ctx, Broken
    from rules.rely import RELY
    mod = importlib.import_module('rules.' + pid.lower())
    ctx = Ctx(pid, tier, repo, HERE)
    try:
        with build.Workspace(repo, HERE) as ws:
            ctx.ws = ws
            mod.run(ctx)
            for other, rules in RELY.get(pid, ()):
                ctx.rely(other, rules)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if not ctx.new_violations():
            return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    return ctx.finish(mod, time.time() - t0)


if __name__ == '__main__':
    sys.exit(main())
