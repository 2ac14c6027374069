"""Run context: counts, evidence, violations, known findings, sharding"""

import collections
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')
REPLAYS = os.path.join(VERIF, 'replays')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

CPU_TICK = 10.0         # seconds of CPU in one case: treated as a hang
WALL_TICK = 60.0        # seconds of wall clock in one case: ditto


class Hang(BaseException):
    """Raised in the main thread when a case makes no progress.

    A BaseException so that handlers in the code under test do not
    swallow it."""


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def exc_name(e):
    return type(e).__name__


class Recorder(object):
    """Collects what one shard of a check did"""

    def __init__(self, part):
        self.part = part
        self.evals = 0          # cases evaluated / executions run
        self.nontrivial = 0     # distinct non-trivial cases
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.fails = collections.OrderedDict()
        self.nfails = 0
        self.capped = None
        self._case = None
        self._last = None

    def case(self, case, nontrivial=True):
        """Starts a new case, *case* is its replayable description"""
        self.evals += 1
        if nontrivial:
            self.nontrivial += 1
        self._case = case
        if len(self.samples) < 2:
            self.samples.append(case)

    def outcome(self, x):
        self.outcomes[x] += 1

    def fail(self, key, detail=None, case=None):
        self.nfails += 1
        if key not in self.fails and len(self.fails) < 200:
            self.fails[key] = {
                'detail': short(detail, 2000),
                'case': self._case if case is None else case}

    def _tick(self, signum, frame):
        now = (self.evals, self.transitions, self.states)
        if now == self._last:
            self._last = None
            raise Hang("no progress in one case")
        self._last = now


def _run_shard(args):
    func, part, shard = args
    rec = Recorder(part)
    signal.signal(signal.SIGPROF, rec._tick)
    signal.signal(signal.SIGALRM, rec._tick)
    signal.setitimer(signal.ITIMER_PROF, CPU_TICK, CPU_TICK)
    signal.setitimer(signal.ITIMER_REAL, WALL_TICK, WALL_TICK)
    err = None
    try:
        try:
            func(rec, shard)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        rec.fail('%s:hang' % part, traceback.format_exc(limit=-4))
    except MemoryError:
        rec.fail('%s:memory' % part, 'out of memory in one case')
    except RecursionError:
        rec.fail('%s:recursion' % part, traceback.format_exc(limit=-4))
    except Exception:
        # anything the library raises where the harness does not expect
        # it: decided by the caller (is the case replayable?)
        err = traceback.format_exc()
        if rec._case is not None and '/repo/' in err:
            rec.fail('%s:unexpected:%s' % (part, sys.exc_info()[0].__name__),
                     err)
            err = None
    return (shard, rec, err)


def _init_worker():
    try:
        lim = 4 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass


class Check(object):
    """A run of one property's check"""

    def __init__(self, pid, tier, seed, level, rule):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.level = level
        self.rule = rule
        self.start = time.time()
        self.parts = collections.OrderedDict()
        self.assumptions = []
        self.fails = collections.OrderedDict()
        self.errors = []
        self.extra = {}

    def note(self, text):
        self.assumptions.append(text)

    def part(self, name, func, shards=(None,), what=''):
        """Runs func(rec, shard) for every shard, in parallel"""
        t0 = time.time()
        shards = list(shards)
        tot = Recorder(name)
        jobs = [(func, name, s) for s in shards]
        if len(jobs) == 1 or WORKERS == 1:
            results = [_in_child(j) for j in jobs]
        else:
            results = _pool_run(jobs)
        for shard, rec, err in results:
            tot.evals += rec.evals
            tot.nontrivial += rec.nontrivial
            tot.states += rec.states
            tot.transitions += rec.transitions
            tot.traces += rec.traces
            tot.outcomes.update(rec.outcomes)
            if len(tot.samples) < 3:
                tot.samples.extend(rec.samples[:2])
            tot.nfails += rec.nfails
            if rec.capped:
                tot.capped = rec.capped
            for k, v in rec.fails.items():
                if k not in self.fails:
                    v['part'] = name
                    v['shard'] = shard
                    self.fails[k] = v
            if err:
                self.errors.append((name, shard, err))
        tot.what = what
        tot.wall = time.time() - t0
        self.parts[name] = tot
        print("%s %-26s evals=%d states=%d transitions=%d traces=%d "
              "outcomes=%d fails=%d %.1fs" % (
                  self.pid, name, tot.evals, tot.states, tot.transitions,
                  tot.traces, len(tot.outcomes), tot.nfails, tot.wall))
        sys.stdout.flush()
        return tot

    def finish(self):
        known = load_known(self.pid)
        used = []
        violations = []
        for key, v in self.fails.items():
            if key in known:
                used.append(key)
            else:
                violations.append((key, v))
        for key in used:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[key]))
        paths = []
        for key, v in violations[:20]:
            os.makedirs(REPLAYS, exist_ok=True)
            h = hashlib.sha1(key.encode('utf-8', 'replace')).hexdigest()[:10]
            path = os.path.join(REPLAYS, '%s-%s.json' % (self.pid, h))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key,
                           'part': v['part'], 'shard': v['shard'],
                           'case': v['case'], 'detail': v['detail'],
                           'tier': self.tier}, f, indent=1, default=repr)
            paths.append(path)
            print("  violation key: %s" % key)
            print("  case: %s" % short(v['case'], 600))
            print("  detail: %s" % short(v['detail'], 1200))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if len(violations) > 20:
            print("... and %d more" % (len(violations) - 20))
        self.write_evidence(len(violations), used)
        for name, shard, err in self.errors[:5]:
            print("CHECK ERROR in %s shard=%s\n%s" % (name, short(shard), err))
        sys.stdout.flush()
        if violations:
            return 1
        if self.errors:
            return 2
        return 0

    def write_evidence(self, nviol, used):
        tot = collections.Counter()
        samples = []
        parts = {}
        capped = None
        for name, r in self.parts.items():
            for a in ('evals', 'nontrivial', 'states', 'transitions',
                      'traces'):
                tot[a] += getattr(r, a)
            samples += [short(s, 300) for s in r.samples[:2]]
            capped = capped or r.capped
            parts[name] = {
                'what': r.what, 'evaluations': r.evals,
                'states': r.states, 'transitions': r.transitions,
                'traces': r.traces, 'wall_s': round(r.wall, 2),
                'distinct_outcomes': len(r.outcomes),
                'outcomes': {short(k, 80): v for k, v in
                             r.outcomes.most_common(12)},
                'capped': r.capped}
        cov = {'evaluations': tot['evals'],
               'distinct_nontrivial': tot['nontrivial'],
               'rule': self.rule,
               'samples': samples[:12],
               'exhaustive': capped is None and not self.errors,
               'parts': parts,
               'known_findings_seen': used}
        if self.level == 'model_checking' or tot['states']:
            cov['states'] = tot['states']
            cov['transitions'] = tot['transitions']
            cov['traces_validated_against_impl'] = tot['traces']
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.start, 2),
              'violations': nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        os.rename(path + '.tmp', path)


def _in_child(job):
    """Runs one job in a forked child so that limits apply"""
    return _pool_run([job])[0]


class _Dead(Exception):
    pass


def _pool_run(jobs):
    """Runs jobs over forked workers, robust to a worker dying"""
    ctx = multiprocessing.get_context('fork')
    results = [None] * len(jobs)
    pending = list(range(len(jobs)))[::-1]
    live = {}
    while pending or live:
        while pending and len(live) < WORKERS:
            i = pending.pop()
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, jobs[i]))
            p.start()
            w.close()
            live[r] = (p, i)
        for r in multiprocessing.connection.wait(list(live), timeout=5):
            p, i = live.pop(r)
            try:
                results[i] = r.recv()
            except (EOFError, OSError):
                rec = Recorder(jobs[i][1])
                p.join()
                results[i] = (jobs[i][2], rec, 'worker died with exit %s' %
                              p.exitcode)
            r.close()
            p.join()
    return results


def _child(w, job):
    _init_worker()
    try:
        res = _run_shard(job)
        try:
            w.send(res)
        except Exception:
            shard, rec, err = res
            for v in rec.fails.values():
                v['case'] = repr(v['case'])
            rec.samples = [repr(s) for s in rec.samples]
            rec._case = None
            w.send((repr(shard), rec, err))
        w.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def load_known(pid):
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d.get('status') == 'known' and d['property'] == pid:
                    known[d['key']] = d['what']
    return known


def shards_of(items, n=None):
    """Splits a list of items in n interleaved shards"""
    items = list(items)
    n = n or WORKERS * 2
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]
