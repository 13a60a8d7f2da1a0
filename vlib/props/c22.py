"""Threads."""
import os
import pickle
import sys
import threading

from .. import dom, gen, ref, sched
from ..engine import Stream
from ..sut import (PatternMatcher, clusters, fuzzy_digest, keys, metas, new_matcher, parse,
                   require)
from . import c04, c20

ID = 'C22'
TITLE = 'Parsing, makers of their own and matching a loaded matcher suit threads'
RULE = ('2-4 threads, under generated schedules (thread switches at given lines or '
        'bytecodes) or switching as often as the interpreter allows: each parses and '
        'digests texts, clusters URLs with a maker of its own, and matches URLs with '
        'one shared, fully loaded matcher; every result must equal the sequential one. '
        'Non-trivial: the threads have >= 2 different work lists and some URL matches.')
ASSUMPTIONS = ['no load runs concurrently on the same maker or matcher',
               'thread switches are those of CPython (schedules are sampled)']


def work(item, pm):
    kind, arg = item
    if kind == 'digest':
        return [fuzzy_digest(t) for t in arg]
    if kind == 'parse':
        out = []
        for t in arg:
            meta, pieces = parse(t)
            out.append([list(map(str, meta)), [str(p) if t.startswith('/') else p.piece
                                               for p in pieces]])
        return out
    if kind == 'clusters':
        return keys(clusters(arg, 3))
    return [metas(sorted(pm.match(u), reverse=True)) for u in arg]


def sequential(case):
    """The expected results, from a process that keeps nothing of them."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                pm = new_matcher(case['patterns'])
                res = [[work(it, pm) for it in items] for items in case['threads']]
            except BaseException as e:
                res = repr(e)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        res = pickle.load(f)
    os.waitpid(pid, 0)
    require(not isinstance(res, str), 'sequential execution fails: %s', res)
    return res


def check_schedule(case):
    want = sequential(case)
    n = len(case['threads'])

    def run(switches):
        pm = new_matcher(case['patterns'])
        s = sched.Schedule(n, switches, case['opcodes'])
        fs = [lambda items=items: [work(it, pm) for it in items]
              for items in case['threads']]
        return s, s.run(fs)
    switched = 0
    # the first schedule is for the texts as they are seen for the first time:
    # the number of points is not known yet
    total = case['points']
    for schedule in case['schedules']:
        s, got = run([(1 + frac * total // 10000, choice) for frac, choice in schedule])
        total = max(1, s.step)
        switched += s.switched > 0
        for k, g in enumerate(got):
            require(not isinstance(g, BaseException), 'schedule %r: thread %d failed: %r',
                    schedule, k, g)
            for it, a, b in zip(case['threads'][k], g, want[k]):
                require(a == b, 'schedule %r: thread %d, %s: %r, sequentially %r', schedule,
                        k, it[0], str(a)[:600], str(b)[:600])
    hit = any(it[0] == 'match' and any(w) for items, ws in zip(case['threads'], want)
              for it, w in zip(items, ws))
    return switched > 0 and hit, ['opcodes' if case['opcodes'] else 'lines',
                                  '%d threads' % n]


def gen_schedule(r):
    pats, urls = c20.pick_patterns(r)
    pats = gen.shuffle(r, pats)[:6]
    threads = []
    same = gen.chance(r, 1, 2)
    few = gen.shuffle(r, urls)[:3]
    for _ in range(2 + r.randrange(2)):
        items = []
        for _ in range(1 + r.randrange(2)):
            k = r.randrange(5)
            texts = few if same else gen.shuffle(r, urls + pats)[:1 + r.randrange(3)]
            if k == 0:
                items.append(['digest', texts])
            elif k == 1:
                items.append(['parse', texts])
            elif k == 2:
                items.append(['clusters', gen.url_set(r, 3)])
            else:
                items.append(['match', few if same else gen.shuffle(r, urls)[:1 + r.randrange(3)]])
        threads.append(items)
    schedules = [[[r.randrange(10000), r.randrange(3)] for _ in range(1 + r.randrange(4))]
                 for _ in range(4)]
    return {'patterns': pats, 'threads': threads, 'schedules': schedules,
            'points': 200 + r.randrange(3000), 'opcodes': gen.chance(r, 1, 3)}


def valid_schedule(case):
    return valid(dict(case, repeat=1)) and case['points'] > 0 and \
        all(len(x) == 2 and 0 <= x[0] < 10000 and x[1] >= 0
            for s in case['schedules'] for x in s)


def check(case):
    want = sequential(case)
    pm = new_matcher(case['patterns'])       # nothing matched yet
    got = [None] * len(case['threads'])
    start = threading.Barrier(len(case['threads']))

    def run(k):
        res = []
        start.wait()
        try:
            for _ in range(case['repeat']):
                res.append([work(it, pm) for it in case['threads'][k]])
            got[k] = res
        except BaseException as e:
            got[k] = e
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(k,)) for k in range(len(got))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for k, g in enumerate(got):
        require(not isinstance(g, BaseException), 'thread %d failed: %r', k, g)
        for res in g:
            for it, a, b in zip(case['threads'][k], res, want[k]):
                require(a == b, 'thread %d, %s: %r, sequentially %r', k, it[0],
                        str(a)[:600], str(b)[:600])
    hit = any(it[0] == 'match' and any(w) for items, ws in zip(case['threads'], want)
              for it, w in zip(items, ws))
    return hit and len(got) > 1, ['%d threads' % len(got)]


def gen_case(r):
    pats, urls = c20.pick_patterns(r)
    threads = []
    for _ in range(2 + r.randrange(3)):
        items = []
        for _ in range(1 + r.randrange(3)):
            k = r.randrange(4)
            if k == 0:
                items.append(['digest', gen.shuffle(r, urls + pats)])
            elif k == 1:
                items.append(['parse', gen.shuffle(r, urls + pats)])
            elif k == 2:
                items.append(['clusters', gen.url_set(r, 10)])
            else:
                items.append(['match', gen.shuffle(r, urls)])
        threads.append(items)
    return {'patterns': pats, 'threads': threads, 'repeat': 3}


def valid(case):
    return len(case['threads']) >= 2 and case['repeat'] >= 1 and \
        c04.valid({'patterns': case['patterns'] or ['/a'], 'urls': ['http://e.com/a']}) and \
        all(len(it) == 2 and it[0] in ('digest', 'parse', 'clusters', 'match') and
            (it[0] in ('digest', 'parse') or all(t[:1] != '/' for t in it[1])) and all((dom.url_ok(t) if t[:1] != '/' else t in case['patterns'])
                                 for t in it[1])
            and (it[0] != 'clusters' or it[1]) for th in case['threads'] for it in th)


STREAMS = [
    Stream('schedules', gen_schedule, check_schedule, valid_schedule, quick=1000,
           thorough=30000, hyp_quick=40, hyp_thorough=400, frozen=('opcodes',)),
    Stream('threads', gen_case, check, valid, quick=1000, thorough=15000,
           hyp_quick=0, hyp_thorough=0),
]
