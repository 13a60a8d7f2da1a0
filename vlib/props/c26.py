"""Memory that inputs leave behind."""
import gc
import os
import subprocess
import sys

from .. import cli, gen, ref, sut
from ..engine import Stream
from ..sut import (REJECTED, PatternMatcher, fuzzy_digest, new_maker, parse, pformat,
                   require)
from os_urlpattern.pattern import Pattern

ID = 'C26'
TITLE = 'Matching, repeated and rejected input leave no memory behind'
RULE = ('Streams of distinct inputs made from generated URL forms (constant and varying '
        'components) through long sequences of one or two operations: matches that hit, '
        'miss or are rejected, parsing, repeated and rejected loads, repeated, combined and '
        'abandoned makes, makers and matchers that are thrown away. After a warm-up of '
        'thousands of inputs the number of allocated memory blocks must not grow any more. '
        'The commands are run on a short and a long input; the peak memory must not grow '
        'with the lines. Non-trivial: every case.')
ASSUMPTIONS = ['caches of at most some thousand entries are not counted as memory left '
               'behind']

WARM, MORE = 5000, 1600
ALPHABETS = {'d': gen.DIG, 'l': gen.LOW, 'u': gen.UP, 'x': gen.DIG + gen.LOW}


def code(i, al, width):
    out = ''
    while i or len(out) < width:
        out = al[i % len(al)] + out
        i //= len(al)
    return out


def comp(c, i):
    kind, text, width = c
    return text + (code(i, ALPHABETS[kind], width) if kind != 'c' else '')


def struct(case, i):
    return ref.Struct([comp(c, i) for c in case['path']],
                      [k + '=' for k, _ in case['query']],
                      [comp(c, i) for _, c in case['query']],
                      comp(case['fragment'], i) if case['fragment'] else None)


def url(case, i):
    return 'http://e.com' + struct(case, i).text


def all_comps(case):
    return case['path'] + [c for _, c in case['query']] + \
        ([case['fragment']] if case['fragment'] else [])


CLASS = {'d': '0-9', 'l': 'a-z', 'u': 'A-Z', 'x': '0-9a-z'}


def patterns(case):
    s = struct(case, 1)
    wild, fixed, lit = [], [], []
    for c in all_comps(case):
        kind, text, width = c
        t = ref.literal(text)
        lit.append(ref.literal(comp(c, 1)))
        wild.append(t if kind == 'c' else t + '[%s]+' % CLASS[kind])
        fixed.append(t if kind == 'c' else t + '[%s]{%d}' % (CLASS[kind], max(2, width)))
    return [s.url_pattern(x) for x in (wild, fixed, lit)]


def quiet(f, *a):
    try:
        f(*a)
    except REJECTED:
        pass


def op_match(case, pm):
    for p in patterns(case):
        quiet(lambda: pm.load(p, meta=p))
    return lambda i: sorted(pm.match(url(case, i)), reverse=True)


def op_miss(case, pm):
    pm.load('/a[\\?]k=[0-9]+', meta=1)
    return lambda i: pm.match('http://e.com/a?k%d=1' % i)


def op_reject(case, pm):
    def f(i):
        quiet(pm.match, url(case, i) + '\u4e2d')
        quiet(pm.match, 'http://e.com/a?x%d=1&&' % i)
    return f


def op_parse(case, pm):
    def f(i):
        u = url(case, i)
        parse(u)
        fuzzy_digest(u)
        str(Pattern('a%d[0-9]+' % i).fuzzy_rule)
    return f


def op_parse_pattern(case, pm):
    def f(i):
        quiet(parse, '/[0-9]{%d}/a%d' % (i + 2, i))
        quiet(fuzzy_digest, '/[a-z]+[\\?]k%d=[0-9]+' % i)
    return f


def op_bad_pattern(case, pm):
    def f(i):
        quiet(pm.load, '/[a-%d]+' % i)
        quiet(pm.load, '/x%d[a-z' % i)
        quiet(pm.load, '/%d/[0-9]{0}' % i)
    return f


def op_reload(case, pm):
    ps = patterns(case)
    return lambda i: quiet(lambda: pm.load(ps[i % 3], meta='m%d' % (i % 5)))


def op_other_meta(case, pm):
    """The last meta counts; the former ones are free."""
    ps = patterns(case)
    return lambda i: quiet(lambda: pm.load(ps[i % 3], meta='meta%d' % i))


def op_repeat(case, pm):
    mk = new_maker(case['mcn'])
    def f(i):
        mk.load(url(case, i % 40), meta='m%d' % (i % 40))
        if i % 40 == 0:
            for m, c in mk.make():
                list(pformat('cluster', m, c))
    return f


def op_hosts(case, pm):
    mk = new_maker(case['mcn'])
    def f(i):
        mk.load(url(case, i % 40).replace('e.com', 'h%d.net' % i))
    return f


def op_bad_url(case, pm):
    mk = new_maker(case['mcn'])
    mk.load(url(case, 1))
    def f(i):
        quiet(mk.load, url(case, i) + '\u4e2d')
        quiet(mk.load, 'http://e.com/%d?a=1&&b%d=1' % (i, i))
    return f


def op_make(case, pm):
    mk = new_maker(case['mcn'])
    for j in range(12):
        mk.load(url(case, j), meta=j)
    def f(i):
        if i % 8:
            return
        k = i // 8 % 3
        if k == 0:
            for m, c in mk.make():
                list(pformat('inline', m, c))
        elif k == 1:
            for m, c in mk.make(combine=True):
                pass
        else:
            for m, c in mk.make():
                break
    return f


def op_makers(case, pm):
    def f(i):
        if i % 10:
            return
        mk = new_maker(case['mcn'])
        for j in range(6):
            mk.load(url(case, i + j), meta=(i, j))
        for m, c in mk.make():
            list(pformat('json', m, c))
    return f


def op_abandoned(case, pm):
    def f(i):
        if i % 10:
            return
        mk = new_maker(case['mcn'])
        for j in range(6):
            mk.load(url(case, i + j), meta=(i, j))
        k = i // 10 % 4
        if k == 0:
            for m, c in mk.make():
                break
        elif k == 1:
            for m, c in mk.make(combine=True):
                break
        elif k == 2:
            mk.make()
        else:
            for m, c in mk.make():
                for _ in pformat('cluster', m, c):
                    break
                break
    return f


def op_matchers(case, pm):
    def f(i):
        if i % 10:
            return
        q = PatternMatcher()
        for p in patterns(case):
            quiet(lambda: q.load(p + str(i), meta=i))
        quiet(q.match, url(case, i))
    return f


OPS = {n[3:]: f for n, f in list(globals().items()) if n.startswith('op_')}


def check(case):
    pm = PatternMatcher()
    ops = [OPS[o](case, pm) for o in case['ops']]
    def run(a, b):
        for i in range(a, b):
            for op in ops:
                op(i)
    run(0, WARM)
    gc.collect()
    before = sys.getallocatedblocks()
    run(WARM, WARM + MORE)
    gc.collect()
    grown = sys.getallocatedblocks() - before
    if grown > MORE // 10:
        # again, so that a table that grows by chance is no matter
        run(WARM + MORE, WARM + 3 * MORE)
        gc.collect()
        more = sys.getallocatedblocks() - before - grown
        require(more <= MORE // 10, '%s: %d more memory blocks after %d more inputs, %d after '
                '%d others', '+'.join(case['ops']), grown, MORE, more, 2 * MORE)
    return True, case['ops']


def gen_comp(r):
    kind = r.choice('cdlux')
    text = gen.word(r, r.choice(['abc', 'XY', '19', '-', '_.']), r.randrange(4))
    if kind == 'c' and not text:
        text = 'a'
    return [kind, text, r.randrange(6)]


def gen_case(r):
    path = [gen_comp(r) for _ in range(1 + r.randrange(3))]
    path[r.randrange(len(path))][0] = r.choice('dlux')
    return {'path': path,
            'query': [['k%d' % j, gen_comp(r)] for j in range(r.randrange(3))],
            'fragment': gen_comp(r) if gen.chance(r, 1, 4) else None,
            'mcn': r.choice([2, 3, 5]),
            'ops': [r.choice(sorted(OPS)) for _ in range(1 + r.randrange(2))]}


def valid(case):
    return bool(case['ops']) and bool(case['path']) and case['mcn'] >= 2 and \
        all(o in OPS for o in case['ops'])


# -- the commands ------------------------------------------------------------------
def peak(command, argv, path, d):
    """Peak memory (KB) of a real process."""
    env = dict(os.environ, PYTHONPATH=sut.REPO_SRC, PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent-pycache')
    with open(path, 'rb') as i, open(os.devnull, 'wb') as o:
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c',
                              'import sys\n'
                              'from os_urlpattern.cmdline import %s\n'
                              '%s()\n'
                              'for l in open("/proc/self/status"):\n'
                              '    if l.startswith("VmHWM:"):\n'
                              '        sys.stderr.write("PEAK " + l.split()[1])\n'
                              % (command, command)] + argv,
                             stdin=i, stdout=o, stderr=subprocess.PIPE, env=env, cwd=d)
        err = p.communicate()[1]
    require(p.returncode == 0, 'pattern-%s ends with %d: %s', command, p.returncode, err[-500:])
    return int(err.rsplit(b'PEAK ', 1)[1])


def lines(case, n):
    for i in range(n):
        k = case['lines'][i % len(case['lines'])]
        if k == 'hit':
            u = url(case, i)
        elif k == 'same':
            u = url(case, i % 20)
        elif k == 'host':
            u = url(case, i % 20).replace('e.com', 'h%d.net' % i)
        elif k == 'bad':
            u = url(case, i) + '\u4e2d'
        elif k == 'irregular':
            u = 'http://e.com/a?x%d=1&&' % i
        elif k == 'miss':
            u = 'http://e.com/a?x%d=1' % i
        elif k == 'blank':
            u = ' ' * (i % 300)
        yield u + '\n'


def check_command(case):
    with cli.scratch() as d:
        argv = []
        if case['command'] == 'match':
            with open(os.path.join(d, 'p'), 'w') as f:
                f.write('\n'.join(patterns(case)) + '\n')
            argv += ['-p', os.path.join(d, 'p')] + (['-a'] if case['all'] else [])
        else:
            argv += ['-f', case['format']]
        sizes = []
        for n in (3000, 30000):
            path = os.path.join(d, 'in')
            with open(path, 'w', encoding='utf-8') as f:
                f.writelines(lines(case, n))
            sizes.append(peak(case['command'], argv, path, d))
        # 27000 more lines: a list of them alone takes over 2 MB
        require(sizes[1] - sizes[0] < 1500, 'pattern-%s %r: peak memory of %d KB for 3000 lines, '
                '%d KB for 30000', case['command'], case['lines'], sizes[0], sizes[1])
    return True, [case['command']] + case['lines']


def gen_command(r):
    c = gen_case(r)
    c['command'] = r.choice(['make', 'match'])
    kinds = ['same', 'host', 'bad', 'irregular', 'blank'] if c['command'] == 'make' else \
        ['hit', 'same', 'host', 'bad', 'irregular', 'miss', 'blank']
    c['lines'] = [r.choice(kinds) for _ in range(1 + r.randrange(2))]
    # the members of CLUSTER and INLINE are kept
    c['format'] = r.choice(['JSON', 'PATTERN', 'NULL'] if 'host' in c['lines'] else
                           ['JSON', 'PATTERN', 'NULL', 'CLUSTER', 'INLINE'])
    c['all'] = gen.chance(r, 1, 2)
    return c


STREAMS = [
    Stream('operations', gen_case, check, valid, quick=96, thorough=3000, hyp_quick=0,
           hyp_thorough=0, frozen=('path', 'query', 'fragment')),
    Stream('commands', gen_command, check_command,
           lambda c: valid(c) and bool(c['lines']) and
           set(c['lines']) <= {'hit', 'same', 'host', 'bad', 'irregular', 'miss', 'blank'}, quick=16, thorough=300, hyp_quick=0,
           hyp_thorough=0, frozen=('path', 'query', 'fragment', 'format', 'command')),
]
