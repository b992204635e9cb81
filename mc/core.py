"""Runner of the checks: parallel exhaustive exploration, evidence, violations and their replay."""
import hashlib
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVIDENCE = os.environ.get('MC_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')
NPROC = int(os.environ.get('MC_NPROC', min(8, os.cpu_count() or 1)))

# seconds a single case can take before it counts as a hang, in the slowest machine we can imagine
CASE_TIMEOUT = 240
MAX_SAMPLES = 6

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Hang(BaseException):
    pass


class Mismatch(Exception):
    """What the code did is not what the property says."""


def _alarm(_sig, _frame):
    raise Hang()


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def digest(x):
    """64 bit identity of a state."""
    return int.from_bytes(hashlib.blake2b(repr(x).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Rec:
    """What a worker found while exploring a block."""

    def __init__(self):
        self.counts = {}
        self.states = set()
        self.nontrivial = set()
        self.samples = []
        self.failures = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, s):
        self.states.add(digest(s))

    def seen(self, x):
        self.nontrivial.add(digest(x))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(short(x, 300))

    def fail(self, case, msg):
        self.failures.append((case, msg))


class Check:
    """A check explores all of its blocks. A block is explored in a worker by `block`, which must call
    self.attempt for each case; `run_case` decides one case, raising Mismatch if it breaks the property."""

    prop = None
    level = 'model_checking'
    rule = ''
    assumptions = []
    timeout = CASE_TIMEOUT
    max_rss_gb = 6

    def __init__(self, tier='quick', seed=1):
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'

    # --- to define

    def setup(self):
        """Runs once in the parent, before the workers are created."""

    def finish(self):
        """Runs once in the parent, at the end."""

    def blocks(self):
        raise NotImplementedError()

    def cases(self, block):
        """Cases of a block."""
        raise NotImplementedError()

    def run_case(self, case, rec):
        raise NotImplementedError()

    def describe(self):
        """Bounds, for the evidence."""
        return {}

    # --- machinery

    def block(self, block, rec):
        for case in self.cases(block):
            if not self.attempt(case, rec):
                return

    def attempt(self, case, rec):
        msg = self.decide(case, rec)
        if msg is not None:
            rec.fail(case, msg)
            return False
        return True

    def decide(self, case, rec):
        """None if the property holds for the case, or how it is broken."""
        if isinstance(case, tuple) and len(case) == 2 and case[0] == 'block':
            # replay of an error while exploring a block
            self.block(case[1], rec)
            return rec.failures[0][1] if rec.failures else None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.timeout)
        try:
            self.run_case(case, rec)
            return None
        except Mismatch as e:
            return str(e)
        except Hang:
            return 'the code does not finish'
        except MemoryError:
            return 'the code needs too much memory'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO)] or tb[-1:]
            return 'unexpected error: %s: %s (at %s)' % (
                type(e).__name__, e,
                ' < '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in where[-3:][::-1]))
        finally:
            left, _ = signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if 'MC_SLOW' in os.environ and self.timeout - left > float(os.environ['MC_SLOW']):
                sys.stderr.write('slow: %s %.1fs %s\n' % (self.prop, self.timeout - left, short(case, 200)))


_check = None


def _init_worker(limit_gb):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (int(limit_gb * 2 ** 30), resource.RLIM_INFINITY))


def _work(block):
    rec = Rec()
    try:
        _check.block(block, rec)
    except Exception as e:
        text = traceback.format_exc()
        if from_repo(e):
            rec.fail(('block', block), 'unexpected error: %s' % text)
            return ('ok', rec)
        return ('error', text)
    return ('ok', rec)


def from_repo(e):
    """The error comes from the code that is checked."""
    return any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__))


def known_findings(prop):
    """Signatures (case texts) of the listed findings of a property."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip('\n')
                if line.startswith('finding: property=%s ' % prop):
                    sig, _, text = line[len('finding: property=%s ' % prop):].partition(' :: ')
                    res[sig.strip()] = text
    return res


def signature(case):
    return 'case-%016x' % digest(case)


def write_replay(prop, case, msg, tier):
    d = os.path.join(EVIDENCE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, signature(case)))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'what': msg, 'case': short(case, 20000),
                   'pickle': pickle.dumps(case).hex(),
                   'replay': 'cd /verif && ./check --replay %s' % path}, f, indent=1)
    return path


def run(check):
    global _check
    t0 = time.time()
    # leaves time to write the evidence before the limit of 900 s of a check
    deadline = t0 + float(os.environ.get('MC_BUDGET', '660' if not check.thorough else '36000'))
    _check = check
    try:
        check.setup()
    except Exception as e:
        text = traceback.format_exc()
        if not from_repo(e):
            sys.stderr.write('CHECK ERROR %s\n%s\n' % (check.prop, text))
            return 2
        path = write_replay(check.prop, ('setup',), text, check.tier)
        print('what: %s' % short(text, 2000))
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    known = known_findings(check.prop)
    counts, states, nontrivial, samples, failures, found = {}, set(), set(), [], [], []
    blocks = list(check.blocks())
    complete = True
    stride = int(os.environ.get('MC_STRIDE', '1'))
    if stride > 1:
        # only to try the checks against many changes (tools/mutate.py)
        blocks, complete = blocks[::stride], False
    done = 0
    ctx = multiprocessing.get_context('fork')
    ex = ProcessPoolExecutor(NPROC, mp_context=ctx, initializer=_init_worker, initargs=(check.max_rss_gb,))
    error = None
    try:
        pending = [ex.submit(_work, b) for b in blocks]
        for fut in pending:
            try:
                status, rec = fut.result(timeout=max(1, deadline - time.time()))
            except TimeoutError:
                complete = False
                break
            if status == 'error':
                error = rec
                break
            done += 1
            for k, v in rec.counts.items():
                counts[k] = counts.get(k, 0) + v
            states |= rec.states
            nontrivial |= rec.nontrivial
            samples += rec.samples
            for case, msg in rec.failures:
                sig = signature(case)
                if sig in known:
                    found.append((sig, known[sig]))
                else:
                    failures.append((case, msg))
            if failures:
                complete = False
                break
    except BrokenProcessPool:
        error = 'a worker was killed'
    finally:
        for p in list((ex._processes or {}).values()):
            p.terminate()
        ex.shutdown(wait=False, cancel_futures=True)
        check.finish()
    if error is not None:
        sys.stderr.write('CHECK ERROR %s\n%s\n' % (check.prop, error))
        return 2

    n = len(samples)
    start = check.seed % max(1, n)
    step = max(1, n // MAX_SAMPLES)
    samples = [samples[(start + i * step) % n] for i in range(min(MAX_SAMPLES, n))] if n else []
    cov = dict(counts)
    if check.level == 'model_checking':
        cov['states'] = len(states)
        cov.setdefault('transitions', 0)
        cov.setdefault('traces_validated_against_impl', 0)
    else:
        cov.setdefault('evaluations', 0)
        cov['distinct_nontrivial'] = len(nontrivial)
        if states:
            cov['states'] = len(states)
    cov['rule'] = check.rule
    cov['samples'] = samples
    cov['exhaustive'] = complete
    cov['blocks_explored'] = done
    cov['blocks'] = len(blocks)
    cov.update(check.describe())
    ev = {'property': check.prop, 'tier': check.tier, 'seed': check.seed, 'level': check.level,
          'coverage': cov, 'assumptions': check.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(failures)}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.%s.tmp' % (check.prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, '%s.json' % check.prop))
    for _sig, text in sorted(set(found)):
        print('KNOWN-FINDING: property=%s %s' % (check.prop, text))
    if failures:
        case, msg = failures[0]
        path = write_replay(check.prop, case, msg, check.tier)
        print('case: %s' % short(case, 2000))
        print('what: %s' % short(msg, 2000))
        print('VIOLATION property=%s replay=%s' % (check.prop, path))
        return 1
    what = ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool))
    print('OK property=%s tier=%s %s exhaustive=%s wall=%.1fs' % (check.prop, check.tier, what, complete,
                                                                  time.time() - t0))
    return 0
