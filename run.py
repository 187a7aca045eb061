#!/usr/bin/env python3
"""run.py PROPERTY: decides one property by running /repo's current code under its monitors.

exit 0  nothing observed refutes the property (known findings are printed)
exit 1  VIOLATION property=<id> replay=<path>
other   the check itself could not run
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
from build import Build, BuildError, PY  # noqa: E402
from props import PROPS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=1:second_deadlock_stack=1',
}


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p, encoding='utf-8'):
        m = re.match(r'finding: property=(\S+) key=(\S+) match=(.*?) :: (.*)$', line.strip())
        if m and m.group(1) == pid:
            out.append({'key': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    return out


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol, self.counts, self.samples = [], {}, []
        self.evals = self.distinct = self.procs = 0
        self.errors = []
        self.lock = threading.Lock()

    def shard(self, job, cmd, env, shard, timeout, workdir):
        """One monitored execution; returns nothing, files what it observed."""
        # a watchdog firing once is inconclusive: only a run that hangs twice is reported
        if not self._shard(job, cmd, env, shard, timeout, workdir, False):
            self._shard(job, cmd, env, shard, timeout, workdir, True)

    def _shard(self, job, cmd, env, shard, timeout, workdir, last):
        crumb = os.path.join(workdir, 'crumb_%s_%d' % (job['name'], shard))
        env = dict(env, MON_CRUMB=crumb, TMPDIR=workdir)
        so, se = tempfile.TemporaryFile(dir=workdir), tempfile.TemporaryFile(dir=workdir)
        p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=env, cwd=workdir, start_new_session=True)
        hung = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.send_signal(signal.SIGABRT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        so.seek(0), se.seek(0)
        out, err = so.read().decode('utf-8', 'replace'), se.read().decode('utf-8', 'replace')
        told = '{"t": "viol"' in out or '{"t":"viol"' in out
        if hung and not last and not told:
            return False
        replay = ' '.join(cmd[-10:])
        got_stats = False
        with self.lock:
            self.procs += 1
            for line in out.splitlines():
                if not line.startswith('{"t"'):
                    continue
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j['t'] == 'viol':
                    self.viol.append({'job': job['name'], 'key': j['key'], 'detail': j['detail'], 'cmd': replay})
                else:
                    got_stats = True
                    self.evals += j['evaluations']
                    self.distinct += j['distinct']
                    for k, v in j['counts'].items():
                        k = job['name'] + ':' + k
                        self.counts[k] = max(self.counts.get(k, 0), v) if ':max:' in k else self.counts.get(k, 0) + v
                    if len(self.samples) < 8:
                        self.samples += ['%s: %s' % (job['name'], s) for s in j['samples'][:2]]
            what = None
            m = re.search(r'CRUMB: (.*)', err)
            where = m.group(1) if m else None
            if where is None and os.path.exists(crumb):
                where = open(crumb, errors='replace').read().split('\0')[0].strip()
            if hung and told and not last:
                pass                    # what it told before it was stopped is enough
            elif hung:
                what = ('no-termination', 'still running after %d s' % timeout)
            elif re.search(r'ERROR: (Address|Leak|Memory)Sanitizer|runtime error:|WARNING: ThreadSanitizer|DEADLYSIGNAL', err):
                what = ('sanitizer', san_summary(err))
            elif p.returncode < 0 or (p.returncode and p.returncode in (99, 98, 134, 139)):
                what = ('crash', 'ended by signal %d' % -p.returncode + ' ' + err[-600:])
            elif p.returncode or not got_stats:
                tb = re.findall(r'^(\w[\w.]*(?:Error|Exception|Exit|Interrupt|Iteration)\b[^\n]*)', err, re.M)
                if job['kind'] == 'py' and 'Traceback' in err:
                    what = ('exception', (tb[-1] if tb else err[-300:]) + ' at ' + ' < '.join(re.findall(r'line \d+, in (\w+)', err)[-3:]))
                elif p.returncode == 9:
                    self.errors.append('%s shard %d: exit %s\n%s' % (job['name'], shard, p.returncode, err[-3000:]))
                else:
                    what = ('died', 'exit %s %s' % (p.returncode, err[-600:]))
            if what:
                self.viol.append({'job': job['name'], 'key': what[0], 'detail': '%s | during: %s' % (what[1], where), 'cmd': replay, 'stderr': err[-6000:]})
        return True

    def run_job(self, job, cmds, budget):
        """All shards of one job, 8 at a time."""
        sem = threading.Semaphore(8)
        ts = []

        def one(i, c, e, w):
            with sem:
                self.shard(job, c, e, i, budget, w)
        for i, (c, e, w) in enumerate(cmds):
            t = threading.Thread(target=one, args=(i, c, e, w))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()


def san_summary(err):
    m = re.search(r'(ERROR: \w+Sanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*)', err)
    head = re.sub(r'0x[0-9a-f]+', '0x..', m.group(1)) if m else 'sanitizer report'
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\n: ]*)', err)
    top = [f[0].split('(')[0] for f in fr if '/repo/' in f[1] or '/src/' in f[1]][:3]
    return head[:200] + ' in ' + ' < '.join(top)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch_root = os.path.join(VERIF, '.build')
    os.makedirs(scratch_root, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + '_', dir=scratch_root)
    code = 2
    try:
        code = check(pid, prop, tier, seed, scratch, t0, only)
    except BuildError as e:
        print('ERROR: the tree does not build:\n' + str(e)[-4000:])
        code = 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(pid, prop, tier, seed, scratch, t0, only):
    b = Build(REPO, scratch)
    jobs = [j for j in prop['jobs'] if (tier == 'thorough' or not j.get('thorough_only')) and (not only or j['name'] in only)]
    need_pkg, harness, ref = {}, {}, None
    for j in jobs:
        if j['kind'] == 'cpp':
            harness[(j['variant'], j['harness'])] = b.harness(j['variant'], j['harness'])
        else:
            v = j['variant']
            need_pkg[v] = need_pkg.get(v, False) or j.get('gym', False)
    pkgs = {v: b.package(v, gym=g) for v, g in need_pkg.items()}
    if pkgs:
        ref = b.reflib()
    failed = b.run()
    tb = time.time() - t0
    R = Runner(pid, tier, seed)
    skipped = []
    preload = {}
    for v in pkgs:
        if v != 'plain':
            preload[v] = subprocess.check_output(['clang++', '-print-file-name=libclang_rt.%s-x86_64.so' % v], text=True).strip()
    def launch(j, seed):
        n = j['cases'][1 if tier == 'thorough' else 0]
        shards = j.get('shards', 8)
        workdir = os.path.join(scratch, 'work_' + j['name'])
        cmds = []
        for s in range(shards):
            wd = os.path.join(workdir, str(s))
            os.makedirs(wd, exist_ok=True)
            args = [j['mode'], '--seed', str(seed), '--shard', str(s), '--shards', str(shards), '--cases', str(n)] + (['--arg', j['arg']] if j.get('arg') else [])
            env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'LD_PRELOAD')}
            env.update(SAN_ENV)
            if j['kind'] == 'cpp':
                exe = harness[(j['variant'], j['harness'])]
                if exe in failed:
                    continue
                cmd = [exe] + args
            else:
                env.update(PYTHONPATH=pkgs[j['variant']] + ':' + os.path.join(VERIF, 'py'), REFLIB=ref, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', REPO=REPO,
                           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONUNBUFFERED='1', MON_PY=PY)
                if j['variant'] != 'plain':
                    env['LD_PRELOAD'] = preload[j['variant']]
                    env['PYTHONMALLOC'] = 'malloc'
                cmd = [PY, os.path.join(VERIF, 'py', j['script'])] + args
            cmds.append((cmd, env, wd))
        if not cmds:
            skipped.append(j['name'])
            return
        left = (840 if tier == 'quick' else 6 * 3600) - (time.time() - t0)
        R.run_job(j, cmds, max(60, min(left / 2.2, j.get('timeout', 300) * (1 if tier == 'quick' else 60))))
    def thin():
        # every monitor has to have observed the events that make its verdict mean something
        return [(j, ev) for j in jobs if j['name'] not in skipped for ev in j.get('must_see', ()) if not R.counts.get(j['name'] + ':' + ev)]

    for j in jobs:
        if tier == 'quick' and R.viol and time.time() - t0 > 300:
            break                       # the verdict is clear, and hanging jobs are slow
        launch(j, seed)
    for again in (1001, 2001):      # a rare event missed by chance: the same workload once more with another seed
        for j in {j['name']: j for j, _ in thin()}.values():
            if not only and not R.viol and not R.errors and time.time() - t0 < (420 if tier == 'quick' else 3600):
                launch(j, seed + again)
    if R.errors and not R.viol:
        print('ERROR: monitor failed:\n' + R.errors[0])
        return 4
    if skipped and len(skipped) == len(jobs):
        print('ERROR: no monitor builds against this tree:\n' + '\n'.join(list(failed.values())[:2])[-4000:])
        return 5
    thin = [j['name'] + ':' + ev for j, ev in thin()]
    if thin and not R.viol and not only:
        print('ERROR: the workload did not reach: ' + ', '.join(thin))
        return 6
    known = known_findings(pid)
    new, seen_known = [], {}
    for v in R.viol:
        for k in known:
            if k['key'] == v['key'] and k['match'] in v['detail']:
                seen_known[k['what']] = v
                break
        else:
            new.append(v)
    for w in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(new),
          'coverage': {'evaluations': R.evals, 'distinct_nontrivial': R.distinct, 'rule': prop['rule'], 'samples': R.samples or ['(no sample)'],
                       'monitored_processes': R.procs, 'events_observed': dict(sorted(R.counts.items())), 'build_s': round(tb, 1),
                       'jobs': [j['name'] for j in jobs if j['name'] not in skipped], 'skipped_jobs': skipped,
                       'known_findings_seen': sorted(seen_known)},
          'assumptions': prop.get('assumptions', [])}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if skipped:
        print('note: skipped (does not build against this tree): ' + ', '.join(skipped))
    if new:
        rp = os.path.join(EVID, 'replay_%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'rerun': 'VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --only=%s' % (seed, tier, pid, new[0]['job']),
                       'violations': new[:40]}, f, indent=1, ensure_ascii=False)
        for v in new[:5]:
            print('  %s/%s: %s' % (v['job'], v['key'], v['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s evaluations=%d distinct=%d wall=%.1fs' % (pid, R.evals, R.distinct, time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
