"""Unusable command lines."""
import os

from .. import cli, gen
from ..engine import Stream
from ..sut import require
from . import c19, c20

ID = 'C25'
TITLE = 'Unusable options end the commands with an error and without output'
RULE = ('Command lines of C19/C20 with one defect put at a generated place: unknown '
        'option, format or log level, missing value, unreadable input, pattern or '
        'config file among good ones, no pattern file, malformed config file or a '
        'minimum cluster size that is no integer; oracle: non-zero exit status, nothing '
        'on standard output, something on standard error. The same command line '
        'without the defect must succeed. Non-trivial: good input comes with it.')
ASSUMPTIONS = []

BAD_CONF = ['min_cluster_num = 3\n', '[make\nmin_cluster_num = 3\n', '[make]\nmin_cluster_num\n',
            '[make]\nmin_cluster_num = abc\n', '[make]\nmin_cluster_num = 2.5\n',
            '[make]\nmin_cluster_num =\n', '[make]\nmin_cluster_num = 3x\n',
            '[make]\nmin_cluster_num = 3 4\n', '[make]\nmin_cluster_num = --3\n',
            '[make]\nmin_cluster_num = 3\n[make]\nx = 1\n',
            '[make]\nmin_cluster_num = 3\nmin_cluster_num = 4\n',
            '[make]\nmin_cluster_num = %(nothing)s\n', '[make]\nmin_cluster_num = 3 ; c\n',
            '[make]\nmin_cluster_num = 3\n4\n', '[make]\nmin_cluster_num = 0x4\n',
            '[make]\nmin_cluster_num = 1e1\n', '[make]\nmin_cluster_num = None\n',
            '[make]\nmin_cluster_num = 3\n= 4\n', ' x\n[make]\nmin_cluster_num = 3\n']


def check(case):
    make = case['command'] == 'make'
    with cli.scratch() as d:
        def put(name, text):
            p = os.path.join(d, name)
            with open(p, 'w') as f:
                f.write(text)
            return p
        os.mkdir(os.path.join(d, 'dir'))
        # bad values are only noticed when there is something to cluster
        urls = ''.join(u + '\n' for u in case['urls'])
        if case['defect'] != 'bad config':
            urls = ['', urls, 'no url\n\n', urls][case['kind'] % 4]
        ins = [put('in%d' % i, urls) for i in range(case['n'])]
        groups = [['-i'] + ins] if ins else []
        if make:
            groups.append(['-f', case['format']])
            groups.append(['-c', put('conf', '[make]\nmin_cluster_num = 4\n')])
        else:
            pats = [put('p%d' % i, '/[0-9]+\n/[a-z]+\n') for i in range(case['np'])]
            groups.append(['-p'] + pats)
            if case['format'] == 'JSON':
                groups.append(['-a'])
        groups.append(['-l', case['log']])
        groups = gen.reorder(case['order'], groups)
        good = cli.run_fork(case['command'], sum(groups, []), urls.encode(), d)
        require(good.code == 0, '%r: exit status %d: %s', groups, good.code, good.err[-500:])

        def group(o):
            for g in groups:
                if g[0] == o:
                    return g
            groups.append([o])
            return groups[-1]
        what = case['defect']
        k = case['at']
        missing = os.path.join(d, 'dir' if case['dir'] else 'missing')
        if what == 'option':
            groups.insert(k % (len(groups) + 1), [['--nothing'], ['-z'], ['-x', '1']][k % 3])
        elif what == 'level':
            group('-l')[1:] = [['LOUD', 'WARNING', '', '10', 'DEBUG '][k % 5]]
        elif what == 'no level':
            group('-l')[1:] = []
        elif what == 'input':
            g = group('-i')
            g.insert(1 + k % len(g), missing)
        elif what == 'no input':
            group('-i')[1:] = []
        elif what == 'format':
            group('-f')[1:] = [['XML', 'JSON2', '', 'CLUSTERS', 'P'][k % 5]]
        elif what == 'config':
            group('-c')[1:] = [missing]
        elif what == 'bad config':
            group('-c')[1:] = [put('bad.conf', BAD_CONF[k % len(BAD_CONF)])]
        elif what == 'pattern':
            g = group('-p')
            g.insert(1 + k % len(g), missing)
        elif what == 'no pattern':
            groups.remove(group('-p'))
        res = cli.run_fork(case['command'], sum(groups, []), urls.encode(), d)
    require(res.code != 0, 'pattern-%s with %s ends with status 0: %r', case['command'],
            what, groups)
    require(res.out == b'', 'pattern-%s with %s prints %r: %r', case['command'], what,
            res.out[:200], groups)
    require(res.err.strip(), 'pattern-%s with %s says nothing: %r', case['command'], what,
            groups)
    return bool(good.out), [case['command'] + ' ' + what]


MAKE = ['option', 'level', 'no level', 'input', 'no input', 'format', 'config', 'bad config']
MATCH = ['option', 'level', 'no level', 'input', 'no input', 'pattern', 'no pattern']


def gen_case(r):
    urls = ['http://e.com/%s' % gen.word(r, r.choice([gen.DIG, gen.LOW, gen.LOW + gen.DIG]),
                                        1 + r.randrange(4))
            for _ in range(1 + r.randrange(9))]
    command = r.choice(['make', 'match'])
    return {'command': command, 'urls': urls, 'n': r.randrange(4), 'np': 1 + r.randrange(3),
            'format': r.choice(['CLUSTER', 'JSON', 'pattern']), 'order': r.randrange(1000),
            'kind': r.randrange(20), 'log': r.choice(['NOTSET', 'DEBUG', 'error']), 'at': r.randrange(60),
            'dir': r.randrange(2), 'defect': r.choice(MAKE if command == 'make' else MATCH)}


def valid(case):
    return bool(case['urls']) and all(u.startswith('http://e.com/') for u in case['urls']) and \
        case['np'] >= 1 and case['kind'] >= 0 and case['n'] >= 0 and case['at'] >= 0 and case['order'] >= 0


STREAMS = [Stream('fork', gen_case, check, valid, quick=1600, thorough=30000, hyp_quick=60,
                  hyp_thorough=600, frozen=('command', 'format', 'log', 'defect'))]
