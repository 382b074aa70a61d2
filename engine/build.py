"""Builds irdump and the bitcode of the units a property needs, from /repo's tree."""
import os, subprocess, tempfile, shutil, hashlib, concurrent.futures as cf

CXXFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-DNDEBUG', '-fPIC',
            '-w', '-fno-color-diagnostics']
DEFS = ['-DBOOST_FIBER_NO_LIB', '-DBOOST_FIBER_SOURCE', '-DBOOST_FIBERS_SOURCE', '-DBOOST_FIBER_STATIC_LINK']
CONFIG = '/usr/lib/llvm-18/bin/llvm-config'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class BuildError(Exception):
    pass


class Workspace:
    def __init__(self, repo, here):
        self.repo, self.here = repo, here

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='fibercheck.')
        self.pool = cf.ThreadPoolExecutor(8)
        self._irdump = self.pool.submit(self.build_irdump)
        return self

    def __exit__(self, *a):
        self.pool.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)

    def build_irdump(self):
        src = os.path.join(self.here, 'engine', 'irdump.cpp')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        bd = os.path.join(self.here, '.build')
        out = os.path.join(bd, 'irdump-' + h)
        if os.path.exists(out):
            return out
        os.makedirs(bd, exist_ok=True)
        cx = sh([CONFIG, '--cxxflags']).stdout.replace('-DNDEBUG', '').split()
        ld = sh([CONFIG, '--ldflags', '--libs', '--link-shared']).stdout.split()
        tmp = out + '.%d' % os.getpid()
        r = sh(['clang++', '-O1', '-std=c++17'] + cx + ['-fno-rtti', src, '-o', tmp] + ld)
        if r.returncode:
            raise BuildError('irdump: ' + r.stderr[-2000:])
        os.rename(tmp, out)
        return out

    def srcpath(self, unit):
        if unit.startswith('tu/'):
            return os.path.join(self.here, unit)
        return os.path.join(self.repo, unit)

    def compile(self, unit, defs=(), extra=()):
        out = os.path.join(self.dir, unit.replace('/', '_') + '.%s.bc' % hashlib.md5(repr((defs, extra)).encode()).hexdigest()[:6])
        cmd = ['clang++'] + CXXFLAGS + DEFS + list(defs) + ['-I' + os.path.join(self.repo, 'include')] + list(extra) + \
              ['-c', '-emit-llvm', self.srcpath(unit), '-o', out]
        r = sh(cmd)
        return out, r.returncode, r.stderr

    def syntax(self, path, defs=(), extra=(), cxx='clang++'):
        cmd = [cxx, '-std=c++17', '-fsyntax-only', '-DNDEBUG', '-w'] + DEFS + list(defs) + ['-I' + os.path.join(self.repo, 'include')] + \
            list(extra) + [path]
        r = sh(cmd)
        return r.returncode, r.stderr

    def program(self, units, roots=('^([^(<]* )?boost::fibers::', '^([^(<]* )?boost::this_fiber::', '^([^(<]* )?use::'), stops=(), defs=()):
        from ir import Program
        futs = [self.pool.submit(self.compile, u, tuple(defs)) for u in units]
        bcs = []
        for u, f in zip(units, futs):
            o, rc, err = f.result()
            if rc:
                raise BuildError('%s does not compile: %s' % (u, err[-3000:]))
            bcs.append(o)
        tag = hashlib.md5(repr((units, roots, stops, defs)).encode()).hexdigest()[:8]
        rf, sf, oj = (os.path.join(self.dir, n + tag) for n in ('roots', 'stops', 'out'))
        open(rf, 'w').write('\n'.join(roots) + '\n')
        open(sf, 'w').write(''.join(s + '\n' for s in stops))
        r = sh([self._irdump.result(), oj, rf, sf] + bcs)
        if r.returncode:
            raise BuildError('irdump failed: ' + r.stderr[-2000:])
        return Program(oj)


if __name__ == '__main__':
    # setup: build the IR reader once (checks rebuild it when it is missing or outdated)
    with Workspace('/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) as ws:
        print(ws._irdump.result())
