"""Builds /repo's sources (current working tree) with the instrumentation a monitor needs.

Everything is written below one scratch directory; nothing is written in /repo or /opt/vp.
Variants:
  plain  g++ -O2                       (behavioural monitors)
  asan   clang -O1, AddressSanitizer + the UBSan checks the tree is clean under
  tsan   clang -O1, ThreadSanitizer
"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/vp/venv/bin/python'
COMMON = ['-std=c++17', '-DNDEBUG', '-msse4.2', '-mavx2', '-DHAVE_SSE4', '-DHAVE_SSE42', '-DHAVE_AVX2',
          '-w', '-fPIC']
UB = 'bounds,shift,signed-integer-overflow,integer-divide-by-zero,null,return,unreachable,bool,vla-bound,float-cast-overflow'
VARIANTS = {
    'plain': ['g++', '-O2'],
    'asan': ['clang++', '-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-Wno-enum-constexpr-conversion',
             '-fsanitize=address,' + UB, '-fno-sanitize-recover=all'],
    'tsan': ['clang++', '-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-Wno-enum-constexpr-conversion',
             '-fsanitize=thread'],
}
# longest first, so that the pool ends evenly
SLOW = ['_cshogi', 'osl_dfpn', 'generateMoves', 'position', 'dfpn', 'mate']


class BuildError(Exception):
    """The tree itself does not build."""


class HarnessError(Exception):
    """The tree builds but a harness does not build against it."""


class Build:
    def __init__(self, repo, scratch):
        self.repo = repo
        self.dir = scratch
        self.jobs = {}          # output -> (cmd, prerequisites, kind)
        self.flags_log = []
        os.makedirs(scratch, exist_ok=True)

    # -- declaring what is wanted ------------------------------------------
    def _obj(self, variant, src, extra=(), kind='tree', deps=()):
        stem = os.path.splitext(os.path.basename(src))[0]
        out = os.path.join(self.dir, variant, ('h_' if kind == 'harness' else '') + stem + '.o')
        cmd = VARIANTS[variant] + COMMON + ['-I' + self.repo + '/src', '-I' + VERIF + '/harness'] + list(extra) + ['-c', src, '-o', out]
        self.jobs[out] = (cmd, list(deps), kind)
        return out

    def _tree(self, variant):
        # search.cpp & co: every translation unit of the library
        return [self._obj(variant, s) for s in sorted(glob.glob(self.repo + '/src/*.cpp'))]

    def harness(self, variant, name):
        objs = self._tree(variant)
        h = self._obj(variant, VERIF + '/harness/%s.cpp' % name, kind='harness')
        out = os.path.join(self.dir, variant, name + '.exe')
        self.jobs[out] = (VARIANTS[variant] + [h] + objs + ['-lpthread', '-o', out], [h] + objs, 'harness')
        return out

    def reflib(self):
        out = os.path.join(self.dir, 'libref.so')
        self.jobs[out] = (['g++', '-O2', '-std=c++17', '-shared', '-fPIC', '-w', '-I' + VERIF + '/harness',
                           VERIF + '/harness/reflib.cpp', '-o', out], [], 'self')
        return out

    def _cython(self, pyx):
        out = os.path.join(self.dir, 'cy', os.path.splitext(os.path.basename(pyx))[0] + '.cpp')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        self.jobs[out] = ([PY, '-m', 'cython', '-3', '--cplus', pyx, '-o', out], [], 'tree')
        return out

    def package(self, variant='plain', gym=False):
        """A copy of the Python package with freshly built extensions; returns the directory for sys.path."""
        pkg = os.path.join(self.dir, 'pkg_' + variant)
        dst = os.path.join(pkg, 'cshogi')
        shutil.copytree(self.repo + '/cshogi', dst, ignore=shutil.ignore_patterns('*.so', '_cshogi.cpp', 'shogi_*env.cpp', '__pycache__'))
        inc = ['-I' + subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], text=True).strip(),
               '-I' + subprocess.check_output([PY, '-c', 'import numpy;print(numpy.get_include())'], text=True).strip()]
        suffix = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).strip()
        exts = [(self.repo + '/cshogi/_cshogi.pyx', dst + '/_cshogi', self._tree(variant))]
        if gym:
            exts += [(self.repo + '/cshogi/gym_shogi/envs/%s.pyx' % m, dst + '/gym_shogi/envs/' + m, []) for m in ('shogi_env', 'shogi_vec_env')]
        for pyx, mod, objs in exts:
            c = self._cython(pyx)
            o = self._obj(variant, c, extra=inc + (['-O1', '-g0'] if variant == 'plain' else []), deps=[c])
            so = mod + suffix
            link = VARIANTS[variant] + ['-shared'] + (['-shared-libsan'] if variant != 'plain' else []) + [o] + objs + ['-lpthread', '-o', so]
            self.jobs[so] = (link, [o] + objs, 'tree')
        return pkg

    # -- running -----------------------------------------------------------
    def run(self, parallel=8):
        t0 = time.time()
        for v in VARIANTS:
            os.makedirs(os.path.join(self.dir, v), exist_ok=True)
        done, failed, futures = set(), {}, {}

        def one(out):
            cmd = self.jobs[out][0]
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

        def rank(out):
            stem = os.path.splitext(os.path.basename(out))[0]
            return SLOW.index(stem) if stem in SLOW else len(SLOW) if not out.endswith(('.exe', '.so')) else 99
        pending = sorted(self.jobs, key=rank)
        # cython first: the longest compile waits for it
        pending.sort(key=lambda o: 0 if '/cy/' in o else 1)
        with cf.ThreadPoolExecutor(parallel) as ex:
            while pending or futures:
                for out in list(pending):
                    deps = self.jobs[out][1]
                    if any(d in failed for d in deps):
                        failed[out] = 'needs ' + ', '.join(d for d in deps if d in failed)
                        pending.remove(out)
                    elif all(d in done for d in deps) and len(futures) < parallel:
                        futures[ex.submit(one, out)] = out
                        pending.remove(out)
                if not futures:
                    continue
                ready, _ = cf.wait(futures, return_when=cf.FIRST_COMPLETED)
                for f in ready:
                    out = futures.pop(f)
                    r = f.result()
                    if r.returncode:
                        failed[out] = r.stdout[-3000:]
                    else:
                        done.add(out)
        self.wall = time.time() - t0
        self.failed = failed
        tree = [o for o in failed if self.jobs[o][2] in ('tree', 'self') and not failed[o].startswith('needs ')]
        if tree:
            raise BuildError('\n'.join(o + ':\n' + failed[o] for o in tree))
        return failed

    def ok(self, out):
        return out not in self.failed
