"""Case loop: Hypothesis engine + seeded volume engine, shrinking, evidence.

A property is a module in vlib/props with

  ID, TITLE, RULE, ASSUMPTIONS (list), STREAMS (list of Stream)

Each stream has gen(r) -> JSON case, check(case) -> (nontrivial, labels) or
raise Violation, valid(case) -> whether a shrunk candidate is in the domain.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

from . import sut
from .shrink import shrink
from .sut import Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
SCALE = float(os.environ.get('VERIF_SCALE', '1'))      # for experiments
CASE_CPU_S = 60.0            # a case takes milliseconds; see DESIGN.md
WALL_S = {'quick': 240.0, 'thorough': 1500.0}


class Stream(object):
    def __init__(self, name, gen, check, valid=None, quick=1000, thorough=20000,
                 hyp_quick=80, hyp_thorough=1500, frozen=(), case_cpu_s=CASE_CPU_S):
        self.name, self.gen, self.check = name, gen, check
        self.valid = valid or (lambda case: True)
        self.n = {'quick': int(quick * SCALE), 'thorough': int(thorough * SCALE)}
        self.hyp = {'quick': int(hyp_quick * SCALE),
                    'thorough': int(hyp_thorough * SCALE)}
        self.frozen = frozen
        self.case_cpu_s = case_cpu_s


class Hang(BaseException):
    pass


class StopNow(KeyboardInterrupt):
    """Leaves Hypothesis at once (used after a hang)."""


class HarnessError(Exception):
    pass


def _on_timer(signum, frame):
    raise Hang()


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def run_case(stream, case):
    """(nontrivial, labels); raises Violation."""
    signal.setitimer(signal.ITIMER_VIRTUAL, stream.case_cpu_s)
    try:
        return stream.check(case)
    except Violation:
        raise
    except Hang:
        v = Violation('no result after %.0f s of CPU time for one small case'
                      % stream.case_cpu_s)
        v.hang = True
        raise v
    except HarnessError:
        raise
    except (Exception, RecursionError) as e:
        # The checks never raise on the unchanged tree: the code under test
        # crashed, or returned something of another shape.
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d %s' % (os.path.relpath(f.filename, '/'), f.lineno, f.name)
                 for f in tb[-3:]]
        if isinstance(e, (ImportError, NameError, OSError)) and \
                not any(f.filename.startswith(sut.REPO_SRC) for f in tb):
            raise HarnessError(''.join(traceback.format_exception(e)))
        raise Violation('unexpected %s: %s (at %s)'
                        % (type(e).__name__, str(e)[:300], ' < '.join(reversed(where))))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


class Tally(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.hyp = 0

    def add(self, stream, case, result):
        self.evaluations += 1
        nontrivial, labels = result
        for l in labels:
            self.labels['%s: %s' % (stream.name, l)] += 1
        if nontrivial:
            text = canon(case)
            h = hashlib.sha1((stream.name + text).encode()).digest()[:8]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if sum(1 for s in self.samples if s['stream'] == stream.name) < 2 \
                        and len(text) < 2500:
                    self.samples.append({'stream': stream.name, 'case': case})


def _hypothesis(stream, n, seed, tally, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st
    state = {}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None,
              phases=[Phase.generate, Phase.shrink],
              suppress_health_check=list(HealthCheck),
              report_multiple_bugs=False, print_blob=False)
    @given(st.randoms(use_true_random=False, note_method_calls=False))
    def t(r):
        if time.time() > deadline and 'case' not in state:
            return
        case = stream.gen(r)
        try:
            tally.add(stream, case, run_case(stream, case))
            tally.hyp += 1
        except Violation as v:
            state['case'], state['msg'] = case, str(v)
            if getattr(v, 'hang', False):
                raise StopNow()
            # a bounded time for Hypothesis' own shrinking
            if time.time() > state.setdefault('end', time.time() + 20):
                raise StopNow()
            raise

    try:
        t()
    except StopNow:
        pass
    except HarnessError:
        raise
    except BaseException:
        if 'case' not in state:
            raise
    return state


def _recursion(mod):
    # how deep the SUT recurses per URL level is no property of its own except
    # in C18, which runs at the interpreter's default limit
    if mod.ID != 'C18':
        sys.setrecursionlimit(4000)


def _worker(modname, tier, seed, w, workers, conn, stop):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGVTALRM, _on_timer)
        mod = importlib.import_module(modname)
        _recursion(mod)
        deadline = time.time() + WALL_S[tier]
        tally = Tally()
        found = None
        cut = False
        for stream in mod.STREAMS:
            share = (stream.hyp[tier] + workers - 1 - w) // workers
            if share > 0:
                s = seed_of(mod.ID, stream.name, 'hyp', seed, w)
                state = _hypothesis(stream, share, s, tally, deadline)
                if 'case' in state:
                    found = (stream, state['case'], state['msg'], 'hypothesis')
                    break
        i = w
        pending = list(mod.STREAMS) if found is None else []
        pos = {s.name: w for s in pending}
        # round robin over the streams so that a wall-time cut hits all alike
        while pending and found is None:
            for stream in list(pending):
                for _ in range(20):
                    i = pos[stream.name]
                    if i >= stream.n[tier]:
                        pending.remove(stream)
                        break
                    pos[stream.name] = i + workers
                    r = random.Random(seed_of(mod.ID, stream.name, seed, i))
                    case = stream.gen(r)
                    try:
                        tally.add(stream, case, run_case(stream, case))
                    except Violation as v:
                        found = (stream, case, str(v), 'volume #%d' % i)
                        break
                if found:
                    break
            if stop.is_set():
                break
            if time.time() > deadline:
                cut = True
                break
        res = {'evaluations': tally.evaluations, 'nontrivial': tally.nontrivial,
               'labels': tally.labels, 'samples': tally.samples,
               'hyp': tally.hyp, 'cut': cut, 'found': None}
        if found is not None:
            stop.set()
            stream, case, msg, origin = found
            last = {'msg': msg}

            def fails(c):
                try:
                    if not stream.valid(c):
                        return False
                except Exception:
                    return False
                try:
                    run_case(stream, c)
                    return False
                except Violation as v:
                    last['msg'] = str(v)
                    return True
            if 'no result after' not in msg:
                small = shrink(case, fails, frozen=stream.frozen)
                if small is not case and fails(small):
                    msg, case = last['msg'], small
            res['found'] = {'stream': stream.name, 'case': case,
                            'message': msg, 'origin': origin}
        conn.send(res)
    except BaseException:
        conn.send({'error': traceback.format_exc()})
    finally:
        conn.close()


def module_of(pid):
    return 'vlib.props.%s' % pid.lower()


def main(pid, tier, seed):
    t0 = time.time()
    modname = module_of(pid)
    mod = importlib.import_module(modname)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    workers = WORKERS
    procs = []
    for w in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(modname, tier, seed, w, workers, b, stop))
        p.start()
        b.close()
        procs.append((p, a))
    results, errors = [], []
    for p, a in procs:
        try:
            r = a.recv()
        except EOFError:
            r = {'error': 'worker died (exit %r)' % p.exitcode}
        if 'error' in r:
            errors.append(r['error'])
        else:
            results.append(r)
        p.join()
    found = [r['found'] for r in results if r['found']]
    labels = Counter()
    nontrivial = set()
    samples = []
    for r in results:
        labels.update(r['labels'])
        nontrivial |= r['nontrivial']
        for s in r['samples']:
            if sum(1 for x in samples if x['stream'] == s['stream']) < 2:
                samples.append(s)
    known = []
    if hasattr(mod, 'known_findings') and not found and not errors:
        known = mod.known_findings()       # prints nothing; returns lines
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'hypothesis_examples': sum(r['hyp'] for r in results),
            'labels': dict(sorted(labels.items())),
            'workers': workers,
            'stopped_by_wall_time': any(r['cut'] for r in results),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if found else 0,
    }
    if known:
        evidence['coverage']['known_findings'] = known
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    if found:
        best = min(found, key=lambda x: len(canon(x['case'])))
        path = write_replay(pid, best)
        print('%s: %s' % (pid, mod.TITLE))
        print('  %s' % best['message'][:2000])
        print('  case (%s, %s): %s' % (best['stream'], best['origin'],
                                       canon(best['case'])[:3000]))
        print('  replay with: %s/check %s --replay %s' % (VERIF, pid, path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors[:2]:
            print(e, file=sys.stderr)
        print('%s: harness error' % pid, file=sys.stderr)
        return 2
    for line in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, line))
    c = evidence['coverage']
    print('%s ok: %d cases, %d distinct non-trivial, %.1f s%s'
          % (pid, c['evaluations'], c['distinct_nontrivial'], evidence['wall_s'],
             ' (stopped by wall time)' if c['stopped_by_wall_time'] else ''))
    return 0


def write_replay(pid, found):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canon(found['case']).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (pid, found['stream'], h))
    with open(path, 'w') as f:
        json.dump(dict(found, property=pid), f, indent=1)
        f.write('\n')
    return path


def replay(pid, path):
    """Run one saved case without any library. Exit 1 if it still fails."""
    signal.signal(signal.SIGVTALRM, _on_timer)
    mod = importlib.import_module(module_of(pid))
    _recursion(mod)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    with open(path) as f:
        data = json.load(f)
    for stream in mod.STREAMS:
        if stream.name == data['stream']:
            try:
                run_case(stream, data['case'])
            except Violation as v:
                print(str(v)[:3000])
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1
            print('%s: the case passes' % pid)
            return 0
    print('unknown stream %r' % data['stream'], file=sys.stderr)
    return 2
