"""Monitor core: event counters, verdicts, case scheduling, evidence.

A *case* is one generated workload.  While it runs, the property's monitors observe events (gate
applications, measurements, reported histograms ...) of the real code and decide them against an
independent oracle.  Three-valued verdict: violated / held on what was observed / inconclusive.
"""
import collections
import hashlib
import json
import os
import random
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FSC_REPO', '/repo')
REPO_SRC = os.path.join(REPO, 'src') + os.sep


def known_findings(prop):
    """Entries of the committed known-findings file for one property (repaired ones suppress nothing)."""
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                d = json.loads(line)
                if d.get('property') == prop:
                    out.append(d)
    return out


class Violation(Exception):
    """The monitored execution contradicts the property."""

    def __init__(self, msg, mechanism=None):
        super().__init__(msg)
        self.mechanism = mechanism


class Monitor:
    """Collects what was observed in one worker."""

    def __init__(self, prop):
        self.prop = prop
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.errors = []
        self.maxima = {}
        self.case_trivial = True
        self.case_key = None
        self.evaluations = 0
        self.listed = {k['mechanism'] for k in known_findings(prop)}

    # --- observation --------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def nontrivial(self, *key):
        """Mark the current case as non-trivial and identify it."""
        self.case_trivial = False
        self.case_key = hashlib.sha1(repr(key).encode()).hexdigest()[:16]

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def maximum(self, name, value):
        value = float(value)
        if value > self.maxima.get(name, -1.0):
            self.maxima[name] = value

    # --- decisions -----------------------------------------------------------------------------
    def check(self, cond, msg, mechanism=None):
        self.events['decisions'] += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg, mechanism)

    def close(self, a, b, tol, msg, name=None):
        self.events['decisions'] += 1
        d = abs(a - b)
        if name:
            self.maximum('max_dev_' + name, d)
        if not d <= tol:          # also catches nan
            m = msg() if callable(msg) else msg
            raise Violation('%s: got %r, expected %r (tolerance %g)' % (m, a, b, tol))

    def finding(self, mechanism, msg):
        """The execution shows the defect identified by `mechanism`: reported as known if it is listed."""
        self.events['decisions'] += 1
        if mechanism in self.listed:
            self.events['known:' + mechanism] += 1
        else:
            raise Violation(msg() if callable(msg) else msg, mechanism)

    def raises(self, fn, msg):
        """fn must raise some exception."""
        self.events['decisions'] += 1
        try:
            r = fn()
        except Violation:
            raise
        except Exception:
            self.events['rejections'] += 1
            return
        raise Violation('%s: accepted, returned %r' % (msg, type(r)))


def from_repo(tb):
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(REPO_SRC):
            return True
    return False


def case_rng(seed, prop, idx):
    h = hashlib.sha256(('%d/%s/%d' % (seed, prop, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def run_one(mod, mon, seed, idx, tier):
    """Run one case; returns True if it held."""
    rng = case_rng(seed, mod.ID, idx)
    # the code under test draws identifiers from the global generator: tie it to the case
    random.seed(rng.getrandbits(64))
    np.random.seed(rng.getrandbits(32))
    mon.case_trivial, mon.case_key = True, None
    mon.evaluations += 1
    try:
        mod.run_case(rng, mon, idx, tier)
    except Violation as v:
        mon.violations.append(dict(seed=seed, case=idx, tier=tier, message=str(v)[:3000], mechanism=v.mechanism))
        return False
    except Exception as e:
        if from_repo(sys.exc_info()[2]):
            msg = 'unexpected %s from the code under test: %s\n%s' % (
                type(e).__name__, str(e)[:500], traceback.format_exc()[-1800:])
            mon.violations.append(dict(seed=seed, case=idx, tier=tier, message=msg,
                                       mechanism='exception:' + type(e).__name__))
        elif isinstance(e, (LookupError, ValueError, ZeroDivisionError, TypeError)):
            # the oracle could not read what it was given (wrong names, missing entries, other types)
            msg = 'result cannot be read, %s: %s\n%s' % (type(e).__name__, str(e)[:500], traceback.format_exc()[-1800:])
            mon.violations.append(dict(seed=seed, case=idx, tier=tier, message=msg, mechanism='unreadable:' + type(e).__name__))
        else:
            mon.errors.append(dict(case=idx, message=traceback.format_exc()[-2500:]))
        return False
    if not mon.case_trivial:
        mon.distinct.add(mon.case_key)
    return True


def worker(mod_name, seed, tier, start, step, total, deadline, queue):
    import importlib
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    mod = importlib.import_module(mod_name)
    mon = Monitor(mod.ID)
    t0 = time.time()
    done_all = True
    for idx in range(start, total, step):
        if time.time() > deadline:
            done_all = False
            break
        run_one(mod, mon, seed, idx, tier)
        if len(mon.violations) >= 3 or len(mon.errors) >= 3:
            break
    queue.put(dict(events=dict(mon.events), distinct=sorted(mon.distinct), samples=mon.samples,
                   violations=mon.violations, errors=mon.errors, maxima=mon.maxima,
                   evaluations=mon.evaluations, known=mon.known, done_all=done_all, wall=time.time() - t0))
