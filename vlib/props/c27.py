"""How the work grows with the input."""
import gc
import sys
import time

from .. import gen
from ..engine import Stream
from ..sut import PatternMatcher, new_maker, pformat, require

ID = 'C27'
TITLE = 'The work of clustering and matching grows in proportion to the input'
RULE = ('Generated URL and pattern families of one form in several sizes (4 to 16 times), '
        'growing in one dimension: URLs, path levels, query keys, runs or characters of a '
        'component, structures, repetitions; or loaded patterns, for loading and for '
        'matching the same URLs. Work is the number of calls, jumps and branches the '
        'interpreter executes (sys.monitoring), not time. From 4 to 16 times the input it may '
        'grow 6 times (linear growth is 4, quadratic is 16 times), or by one step. Matching must not grow '
        'with the loaded patterns which do not match. Non-trivial: every case.')
ASSUMPTIONS = ['work inside of C functions is only measured for long components (CPU time '
               'at 64 times the length, 7 times the proportional time is allowed)',
               'URLs of one family have the same form']

TOOL = 4
E = sys.monitoring.events
EVENTS = E.PY_START | E.PY_RESUME | E.JUMP | E.BRANCH | E.CALL


class Counter(object):
    n = 0


def _on(*a):
    Counter.n += 1


def work(f, events=EVENTS):
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'work')
        for e in (E.PY_START, E.PY_RESUME, E.JUMP, E.BRANCH, E.CALL):
            m.register_callback(TOOL, e, _on)
    Counter.n = 0
    m.set_events(TOOL, events)
    try:
        f()
    finally:
        m.set_events(TOOL, 0)
    return Counter.n


# -- families ------------------------------------------------------------------------
AL = {'l': gen.LOW, 'd': gen.DIG, 'u': gen.UP, 'x': gen.LOW + gen.DIG, 's': 'ab-', 'm': 'aB1.%'}


def value(r, kind, n, i):
    """A component with sub-pieces; n: their length."""
    al = AL[kind[0]]
    if kind[1] == 'n':                    # numbered
        return '%s%d' % (al[:2], i)
    if kind[1] == 'p':                    # from a small pool
        return gen.word(r, al[:2], 1 + i % 2)
    if kind[1] == 'z':                    # all lengths
        return al[0] * (i + 1)
    if kind[1] == 'y':                    # as many characters, but few lengths
        return gen.word(r, al, n + i % 3)
    if kind[1] == 'v':                    # of several lengths
        return gen.word(r, al, 1 + r.randrange(n))
    if kind[1] == 'r':                    # several runs
        return '-'.join(gen.word(r, al, 1 + r.randrange(3)) for _ in range(n))
    if kind[1] == 'k':                    # several runs of fixed length
        return '-'.join(gen.word(r, al, 2) for _ in range(n))
    if kind[1] == 'c':                    # constant
        return al[0] * n
    return gen.word(r, al, n)


# one form each: random mixtures of letters, digits and signs have many forms
KINDS = [a + b for a in sorted(AL) for b in 'npvrckf' if a in 'ldu' or b in 'npc']
LENGTHS = ['lz', 'dz', 'uz']


def urls_of(case, f):
    import random
    r = random.Random(case['seed'])
    dim = case['dim']
    n = 1 if dim == 'structures' else case['n'] * (f if dim == 'urls' else 1)
    out = []
    for i in range(n):
        segs, keys = [], []
        for k in case['path'] * (f if dim == 'levels' else 1):
            segs.append(value(r, k, case['len'] * (f if dim == 'length' else 1), i))
        for j, k in enumerate(case['query'] * (f if dim == 'keys' else 1)):
            keys.append('k%d=%s' % (j, value(r, k, case['len'], i)))
        out.append('http://e.com/' + '/'.join(segs) + ('?' + '&'.join(keys) if keys else ''))
    if dim == 'structures':
        out = [u + ('&' if '?' in u else '?') + 'z%d=1' % j for j in range(f * case['n']) for u in out]
    elif dim == 'repeats':
        out = out * f
    return out


def growth(what, measure, limit):
    """From 4 to 16 times, and steadily: not by another decision at one size."""
    b, c = measure(4), measure(16)
    if c > limit * b:
        m = measure(8)
        require(min(m / float(b), c / float(m)) <= 2.4,
                'work for 4, 8 and 16 times the %s: %r', what, [b, m, c])


def check(case):
    def measure(f):
        urls = urls_of(case, f)

        def run():
            mk = new_maker(case['mcn'])
            for u in urls:
                mk.load(u, meta=u)
            for m, c in mk.make(combine=case['combine']):
                if not case['combine']:
                    list(pformat('cluster', m, c))
        return work(run)
    growth(case['dim'], measure, 6)
    return True, [case['dim']]


def gen_case(r):
    dim = r.choice(['urls', 'urls', 'urls', 'levels', 'keys', 'length', 'structures', 'repeats'])
    path = [r.choice(KINDS) for _ in range(1 + r.randrange(3))]
    query = [r.choice(KINDS) for _ in range(r.randrange(3))]
    if dim == 'keys' and not query:
        query = [r.choice(KINDS)]
    mcn = r.choice([2, 3, 3, 5, 10, 10 ** 6])
    if dim in ('levels', 'keys', 'length'):
        # the same decision on all levels, whatever their number
        mcn = r.choice([2, 3, 10 ** 6])
        ok = 'cnfk' if dim == 'length' else 'cn'
        path = [k if k[1] in ok else k[0] + 'c' for k in path]
        query = [k if k[1] in ok else k[0] + 'c' for k in query]
    n = 12 + r.randrange({'urls': 120, 'structures': 240}.get(dim, 20))
    return {'dim': dim, 'path': path, 'query': query, 'n': n, 'len': 2 + r.randrange(5),
            'seed': r.randrange(10 ** 6), 'mcn': mcn,
            'combine': gen.chance(r, 1, 4)}


def valid(case):
    return case['n'] >= 12 and bool(case['path']) and case['len'] >= 2 and case['mcn'] >= 2 and \
        set(case['path'] + case['query']) <= set(KINDS) and \
        (case['dim'] != 'keys' or bool(case['query'])) and \
        (case['dim'] not in ('keys', 'levels') or
         not any(k[1] not in 'cn' for k in case['path'] + case['query'])) and \
        (case['dim'] != 'length' or
         not any(k[1] not in 'cnfk' for k in case['path'] + case['query']))


def check_lengths(case):
    """Many different lengths are not more work than few.

    Python calls are counted, and the characters are as many.
    """
    def measure(path, n):
        urls = urls_of(dict(case, path=path, len=max(2, case['n'] // 2 - 1)), 1)
        mk = new_maker(case['mcn'])
        for u in urls:
            mk.load(u, meta=u)
        return work(lambda: [list(pformat('pattern', m, c)) for m, c in mk.make()], E.PY_START)
    few = measure([k[0] + 'y' if k[1] == 'z' else k for k in case['path']], 1)
    many = measure(case['path'], 1)
    require(many <= 4 * few + 4000, 'calls for clustering %d URLs with few and with %d lengths: '
            '%r', case['n'], case['n'], [few, many])
    return True, []


def gen_lengths(r):
    path = [r.choice(['lc', 'dc', 'ln', 'lf']) for _ in range(r.randrange(3))]
    path.insert(r.randrange(len(path) + 1), r.choice(LENGTHS))
    return {'dim': 'urls', 'path': path, 'query': [], 'n': 200 + r.randrange(300),
            'seed': r.randrange(10 ** 6), 'mcn': r.choice([2, 3, 3, 5, 20, 10 ** 6])}


# -- loading many, matching among many -----------------------------------------------------
def check_load(case):
    """Each URL costs the same, however many were loaded before."""
    def measure(f):
        urls = urls_of(case, f)
        mk = new_maker(case['mcn'])
        return work(lambda: [mk.load(u, meta=u) for u in urls])
    growth('URLs (loading)', measure, 6)
    return True, []


def gen_load(r):
    c = gen_case(r)
    return dict(c, dim=r.choice(['urls', 'urls', 'repeats', 'structures']), n=200 + r.randrange(500))


def pattern(form, i):
    """(pattern, a URL that it matches) number i of a form."""
    w = ''
    j = i
    while j or not w:
        w += gen.LOW[j % 26]
        j //= 26
    w += 'a' * (4 - len(w))
    return {
        'literal': ('/x/' + w, '/x/' + w),
        'number': ('/x/%d' % i, '/x/%d' % i),
        'head': ('/' + w + '/[0-9]+', '/' + w + '/77'),
        'heads': ('/' + w + '/y/[0-9]+/[a-z]{3}', '/' + w + '/y/77/abc'),
        'tail': ('/[0-9]+[\\-]' + w, '/77-' + w),
        'mixed': ('/' + w + '[\\-][0-9]{2}', '/' + w + '-77'),
        'extension': ('/[0-9a-z]+[\\.]' + w, '/a7b.' + w),
        'file': ('/' + w + '[\\.]html', '/' + w + '.html'),
        'length': ('/[0-9]{%d}' % (i + 2), '/' + '7' * (i + 2)),
        'lengths': ('/[0-9]{%d}/[a-z]{%d}' % (i % 40 + 2, i // 40 + 2),
                    '/' + '7' * (i % 40 + 2) + '/' + 'a' * (i // 40 + 2)),
        'key': ('/x[\\?]' + w + '=[0-9]+', '/x?' + w + '=7'),
        'value': ('/x[\\?]k=' + w + '&z=[0-9]+', '/x?k=' + w + '&z=7'),
        'fragment': ('/[a-z]+#' + w, '/abc#' + w),
        'level': ('/[0-9]' * (i % 30 + 1) + '/' + w, '/7' * (i % 30 + 1) + '/' + w),
    }[form]


FORMS = sorted(['literal', 'number', 'head', 'heads', 'tail', 'mixed', 'extension', 'file', 'length',
                'lengths', 'key', 'value', 'fragment', 'level'])


def check_match(case):
    urls = ['http://e.com' + pattern(f, i)[1] for f in case['forms'] for i in case['at']] + \
        ['http://e.com/zzzz/zzzz', 'http://e.com/7.7']

    def fill(f, pm):
        pats = [pattern(form, i)[0] for form in case['forms'] for i in range(case['n'] * f)]
        pats = gen.reorder(case['seed'], pats)
        return work(lambda: [pm.load(p, meta=p) for p in pats])

    def match(f):
        pm = PatternMatcher()
        fill(f, pm)
        for u in urls:                    # what is made at the first match
            sorted(pm.match(u), reverse=True)
        return work(lambda: [sorted(pm.match(u), reverse=True) for u in urls])
    growth('patterns (loading)', lambda f: fill(f, PatternMatcher()), 6)
    few, many = match(1), match(16)
    require(many <= 4 * few, 'work for matching %d URLs with 1 and 16 times the patterns: %r',
            len(urls), [few, many])
    return True, case['forms']


def gen_match(r):
    n = 20 + r.randrange(60)
    return {'forms': gen.shuffle(r, FORMS)[:1 + r.randrange(2)], 'n': n, 'seed': r.randrange(1000),
            'at': [r.randrange(20) for _ in range(8)]}


# -- C functions: CPU time ----------------------------------------------------------------
def long_urls(case, f):
    n = case['n'] * f
    t = (case['unit'] * (n // len(case['unit']) + 1))[:n]
    if case['where'] == 'path':
        return ['http://e.com/x/' + t + e + case['tail'] for e in case['ends']]
    if case['where'] == 'query':
        return ['http://e.com/x?k=' + t + e for e in case['ends']]
    return ['http://e.com/x#' + t + e for e in case['ends']]


def check_long(case):
    """64 times the characters of one component."""
    def measure(f):
        urls = long_urls(case, f)
        best = None
        for _ in range(2 if f > 1 else 5):
            gc.collect()
            gc.disable()
            t = time.process_time()
            try:
                mk = new_maker(case['mcn'])
                for u in urls:
                    mk.load(u)
                pats = [p for m, c in mk.make() for p in pformat('pattern', m, c)]
                pm = PatternMatcher()
                for p in pats:
                    pm.load(p)
                for u in urls:
                    pm.match(u)
            finally:
                gc.enable()
            t = time.process_time() - t
            best = t if best is None else min(best, t)
            if f > 1 and best < LIMIT * small:
                break
        return best
    small = measure(1)
    large = measure(64)
    require(large <= LIMIT * small, 'CPU time for %d and 64 times as many characters in a '
            'component: %.4f and %.2f s', case['n'], small, large)
    return True, ['%s in %s' % (case['unit'], case['where'])]


LIMIT = 64 * 7
LETTERS = set('ab1cB2C%')


def gen_long(r):
    return {'unit': r.choice(['a', '1', 'a1', '1a', 'aB', 'a1B', 'ab12', '%E4', 'abcabcabca1']),
            'n': 2000 + r.randrange(1000), 'where': r.choice(['path', 'path', 'path', 'query', 'fragment']),
            'ends': r.choice([['1', '2', '3'], ['a1', 'b', '1c', '2'], ['A', 'B1', 'cC']]),
            'tail': r.choice(['', '', '.html', '/y']), 'mcn': r.choice([2, 3, 10 ** 6])}


STREAMS = [
    Stream('long', gen_long, check_long,
           lambda c: c['n'] >= 2000 and bool(c['unit']) and bool(c['ends']) and c['mcn'] >= 2 and
           c['where'] in ('path', 'query', 'fragment') and c['tail'] in ('', '.html', '/y') and
           set(c['unit'] + ''.join(c['ends'])) <= set('ab1cB2C%E43A'),
           quick=24, thorough=400, hyp_quick=0, hyp_thorough=0, frozen=('where', 'tail', 'unit')),
    Stream('make', gen_case, check, valid, quick=160, thorough=4000, hyp_quick=0,
           hyp_thorough=0, frozen=('dim', 'path', 'query')),
    Stream('lengths', gen_lengths, check_lengths,
           lambda c: c['n'] >= 200 and sum(k[1] == 'z' for k in c['path']) == 1 and c['mcn'] >= 2 and
           set(c['path']) <= set(KINDS + LENGTHS), quick=32, thorough=800, hyp_quick=0,
           hyp_thorough=0, frozen=('path', 'query')),
    Stream('load', gen_load, check_load, valid, quick=32, thorough=800, hyp_quick=0,
           hyp_thorough=0, frozen=('dim', 'path', 'query')),
    Stream('match', gen_match, check_match,
           lambda c: c['n'] >= 20 and set(c['forms']) <= set(FORMS) and bool(c['forms']) and
           max(c['at'] or [0]) < c['n'], quick=64, thorough=2000, hyp_quick=0,
           hyp_thorough=0, frozen=('forms',)),
]
