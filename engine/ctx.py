"""Bookkeeping of one check run: scope, obligations, violations, known findings, evidence."""
import json, os, re, collections
from engine import Engine, AnalysisError


class Broken(Exception):
    """The analysis lost its footing (vanished anchor, zero instances, limit): no verdict."""


SRC = ['src/algo/algorithm.cpp', 'src/algo/round_robin.cpp', 'src/algo/shared_work.cpp', 'src/algo/work_stealing.cpp',
       'src/barrier.cpp', 'src/condition_variable.cpp', 'src/context.cpp', 'src/fiber.cpp', 'src/future.cpp',
       'src/mutex.cpp', 'src/properties.cpp', 'src/recursive_mutex.cpp', 'src/recursive_timed_mutex.cpp',
       'src/scheduler.cpp', 'src/timed_mutex.cpp', 'src/waker.cpp']
NS = 'boost::fibers::'


class Ctx:
    def __init__(self, pid, tier, repo, here):
        self.pid, self.tier, self.repo, self.here = pid, tier, repo, here
        self.viol = collections.OrderedDict()
        self.obl = collections.Counter()
        self.sites = {}
        self.fns = set()
        self.entries = []
        self.stats = collections.Counter()
        self.samples = []
        self.notes = []
        self.pos = []

    # ---- program
    def load(self, units, **kw):
        import build
        try:
            p = self.ws.program(units, **kw)
        except build.BuildError as e:
            raise Broken(str(e))
        return p

    def functions(self, P, short, np=None, cls=None, need=1, full=False):
        """Defined functions with qualified name `short` (NS prefixed unless full)."""
        s = short if full else NS + short
        r = [f for f in P.by_short.get(s, ()) if f.defined and (np is None or f.np == np)]
        if cls:
            r = [f for f in r if cls in f.dem]
        if len(r) < need:
            raise Broken('anchor vanished: no definition of %s (found %d, need %d)' % (s, len(r), need))
        return sorted(r, key=lambda f: f.dem)

    def members(self, P, cls, need=1):
        """All defined member functions of class NS+cls (templates and lambdas excluded)."""
        pre = NS + cls + '::'
        r = [f for f in P.fns.values() if f.defined and f.short.startswith(pre) and '::' not in f.short[len(pre):]]
        if len(r) < need:
            raise Broken('anchor vanished: class %s has %d analysable members (need %d)' % (cls, len(r), need))
        return sorted(r, key=lambda f: f.dem)

    def explore(self, P, fn, rules, setup=None, args=None):
        rules.ctx = self
        rules.fn = fn
        eng = Engine(P)
        eng.ctx = self
        try:
            eng.run(fn, rules, setup, args)
        except AnalysisError as e:
            raise Broken('%s: %s' % (fn.dem[:120], e))
        self.entries.append(fn.dem)
        self.fns |= {P.fns[n].dem for n in eng.fns_seen}
        for k, v in eng.stats.items():
            self.stats[k] += v
        if hasattr(rules, 'done'):
            rules.done(eng)
        return eng

    def rely(self, pid, rules):
        """Decide the guarantees of another property that this one rests on."""
        import importlib, re
        sub = Ctx(pid, self.tier, self.repo, self.here)
        sub.ws = self.ws
        try:
            importlib.import_module('rules.' + pid.lower()).run(sub)
        except Broken as e:
            # its own check reports that; it says nothing about this property
            self.notes.append('guarantees of %s not decided: %s' % (pid, e))
        rx = re.compile(rules)
        for k in sub.new_violations():
            v = sub.viol[k]
            if rx.match(v['rule']):
                self.violation('%s (%s)' % (v['rule'], pid), v['where'], v['msg'], v['loc'], v['path'])
        for r, n in sub.obl.items():
            if rx.match(r):
                self.obl['%s (%s)' % (r, pid)] += n
                self.sites.setdefault('%s (%s)' % (r, pid), set()).update(sub.sites.get(r, ()))
        self.fns |= sub.fns
        self.entries += sub.entries
        self.stats.update(sub.stats)

    # ---- verdicts
    def ok(self, rule, site=None):
        """One obligation discharged (or at least examined) under `rule`."""
        self.obl[rule] += 1
        if site is not None:
            self.sites.setdefault(rule, set()).add(site)

    def violation(self, rule, where, msg, loc='?', path=None):
        key = '%s|%s' % (rule, where)
        if key not in self.viol:
            self.viol[key] = dict(rule=rule, where=where, msg=msg, loc=loc, path=path or [])

    def require(self, rule, n):
        """The rule must have matched at least n distinct sites, else it is vacuous."""
        got = len(self.sites.get(rule, ()))
        if got < n:
            raise Broken('rule %s matched %d sites, expected at least %d' % (rule, got, n))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def new_violations(self):
        kf = json.load(open(os.path.join(self.here, 'known_findings.json')))['findings']
        known = {k['key'] for k in kf if k['property'] == self.pid}
        return [k for k in self.viol if k not in known]

    # ---- end
    def finish(self, mod, wall):
        kf = json.load(open(os.path.join(self.here, 'known_findings.json')))['findings']
        known = {k['key']: k for k in kf if k['property'] == self.pid}
        new = [(k, v) for k, v in self.viol.items() if k not in known]
        old = [(k, v) for k, v in self.viol.items() if k in known]
        ed = os.path.join(self.here, 'evidence')
        os.makedirs(ed, exist_ok=True)
        replay = os.path.join(ed, self.pid + '.replay.txt')
        if os.path.exists(replay):
            os.remove(replay)
        total = sum(self.obl.values())
        if total == 0 and not self.viol:
            print('ANALYSIS-BROKEN property=%s no obligation was generated' % self.pid)
            return 2
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
                  coverage=dict(
                      explanation=getattr(mod, 'EXPLAIN', mod.__doc__ or ''),
                      rules={k: dict(obligations=n, sites=sorted(self.sites.get(k, ()))[:40],
                                     distinct_sites=len(self.sites.get(k, ()))) for k, n in sorted(self.obl.items())},
                      obligations=total, violated=len(self.viol), entry_functions=sorted(set(self.entries))[:400],
                      entry_count=len(set(self.entries)), functions_analysed=len(self.fns),
                      paths=self.stats['paths'], call_sites=self.stats['calls'], abstract_states=self.stats['states'],
                      instructions_interpreted=self.stats['steps'], samples=self.samples, notes=self.notes),
                  assumptions=getattr(mod, 'ASSUME', []), wall_s=round(wall, 2), violations=len(new))
        json.dump(ev, open(os.path.join(ed, self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations under %d rules, %d entry functions, %d functions, %d paths, %.1f s' % (
            self.pid, total, len(self.obl), len(set(self.entries)), len(self.fns), self.stats['paths'], wall))
        for k, v in old:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[k]['what'], k))
        if new:
            with open(replay, 'w') as f:
                for k, v in new:
                    f.write('rule %s\nconstruct %s\nat %s\n%s\npath:\n' % (v['rule'], v['where'], v['loc'], v['msg']))
                    for p in v['path']:
                        f.write('    %s\n' % p)
                    f.write('\n')
            for k, v in new:
                print('%s: [%s] %s: %s' % (v['loc'], v['rule'], v['where'], v['msg']))
                for p in v['path'][-14:]:
                    print('      %s' % p)
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        return 0
