"""Event counters and violation reports of the Python monitors (same JSON-lines protocol as the C++ ones)."""
import faulthandler
import json
import os
import random
import sys

faulthandler.enable()


class Mon:
    def __init__(self):
        a = sys.argv[1:]
        self.mode = a[0]
        o = dict(zip(a[1::2], a[2::2]))
        self.seed = int(o.get('--seed', 1))
        self.shard = int(o.get('--shard', 0))
        self.shards = int(o.get('--shards', 1))
        self.cases = int(o.get('--cases', 10))
        self.arg = o.get('--arg', '')
        self.rng = random.Random(self.seed * 1000003 + self.shard)
        self.counts = {}
        self.evals = 0
        self.seen = set()
        self.samples = []
        self.per = {}
        self._crumb = None
        if os.environ.get('MON_CRUMB'):
            self._crumb = open(os.environ['MON_CRUMB'], 'w')

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def maxi(self, k, n):
        k = 'max:' + k
        self.counts[k] = max(self.counts.get(k, 0), n)

    def eval(self, n=1):
        self.evals += n

    def distinct(self, x):
        self.seen.add(hash(x))

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def crumb(self, s):
        """What is being executed, for the report if the process dies here."""
        if self._crumb:
            self._crumb.seek(0)
            self._crumb.write(s.replace('\n', '\\n') + '\n\0')
            self._crumb.flush()

    def violation(self, key, detail):
        n = self.per.get(key, 0)
        self.per[key] = n + 1
        if n < 3:
            print(json.dumps({'t': 'viol', 'key': key, 'detail': detail}), flush=True)

    def check(self, cond, key, detail):
        if not cond:
            self.violation(key, detail() if callable(detail) else detail)
        return cond

    def finish(self):
        print(json.dumps({'t': 'stats', 'evaluations': self.evals, 'distinct': len(self.seen), 'counts': self.counts,
                          'samples': self.samples}), flush=True)
