"""The log of the commands."""
import os
import re
import sys
import types

from .. import cli, gen
from ..engine import Stream
from ..sut import REJECTED, PatternMatcher, new_maker, require
from . import c19, c20

ID = 'C24'
TITLE = 'The log of the commands reports what happened, filtered by its level'
RULE = ('Inputs as for C19/C20 with every log level; the standard error of the command '
        'is split into log records and compared with counts taken from an independent '
        'pass over the lines (accepted or rejected by the library). A stand-in for '
        'psutil reports generated memory sizes. Non-trivial: the level is DEBUG, and '
        'some line is rejected and some accepted.')
ASSUMPTIONS = ['input lines have no inner tab or carriage return']
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
RANK = {'DEBUG': 0, 'INFO': 1, 'WARN': 2, 'ERROR': 3, 'FATAL': 4, 'NOTSET': 9}
RECORD = re.compile(r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\] \[[^\]]*\] '
                    r'\[(DEBUG|INFO|WARNING|ERROR|CRITICAL)\] \[([^\]]*)\] (.*)', re.S)
UNITS = ['', 'K', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']


def records(err, case):
    out = []
    for line in err.decode('utf-8', 'replace').split('\n')[:-1]:
        m = RECORD.match(line)
        require(m, 'standard error has a line that is no log record: %r', line)
        out.append((m.group(1), m.group(3)))
        memory(m.group(2), case['rss'])
    rank = RANK[case['log'].upper() or 'NOTSET']
    for level, text in out:
        require(LEVELS.index(level) >= rank, 'log level %s, but there is a record %s %s',
                case['log'] or 'default', level, text)
    return rank, out


def memory(text, rss):
    if text == '-' or rss is None:
        return
    m = re.fullmatch(r'(\d+(?:\.\d+)?)([KMGTPEZY]?)', text)
    require(m, 'memory usage %r', text)
    unit = 1024 ** UNITS.index(m.group(2))
    v = float(m.group(1))
    slop = max(1.0, rss) * 1e-9
    require(rss - slop <= v * unit <= rss + 0.01 * unit + slop and
            (unit == 1 or v >= 1 - 1e-9) and v <= 1024.01,
            'memory usage of %d bytes is logged as %r', rss, text)


class fake_memory(object):
    def __init__(self, rss):
        self.rss = rss

    def __enter__(self):
        m = types.ModuleType('psutil')
        rss = self.rss

        class Process(object):
            def __init__(self, pid=None):
                pass

            def memory_info(self):
                return types.SimpleNamespace(rss=rss)
        m.Process = Process
        self.old = sys.modules.get('psutil')
        if rss is not None:
            sys.modules['psutil'] = m

    def __exit__(self, *a):
        if self.rss is not None:
            if self.old is None:
                del sys.modules['psutil']
            else:
                sys.modules['psutil'] = self.old


def counts(text):
    return {k: int(n) for k, n in re.findall(r'([A-Z]+):(\d+)', text)}


def same_counts(got, want, what):
    got = {k: n for k, n in counts(got).items() if n}
    want = {k: n for k, n in want.items() if n}
    require(got == want, '%s: %r is logged, counted %r', what, got, want)


def rejected_records(recs, bad, what):
    got = [t for l, t in recs if l in ('WARNING', 'ERROR')]
    require(len(got) == len(bad), '%s: %d records about rejected lines, %d lines are '
            'rejected: %r / %r', what, len(got), len(bad), got[:3], bad[:3])
    for t, raw in zip(got, bad):
        require(repr(raw) in t, '%s: record %r for the rejected line %r', what, t, raw)


def progress(recs, tag, n, every, what):
    got = [int(x) for l, t in recs
           for x in re.findall(r'^\[%s\] (\d+) [0-9.einf]+/s$' % tag, t)]
    require(got == list(range(every, n + 1, every)), '%s: progress %r after %d lines',
            what, got, n)


def check_make(case):
    with cli.scratch() as d:
        data = [cli.content(f['lines'], f['eol'], f['last']) for f in case['files']]
        argv = []
        if not case['stdin']:
            argv = ['-i']
            for i, x in enumerate(data):
                argv.append(os.path.join(d, 'in%d.txt' % i))
                with open(argv[-1], 'wb') as f:
                    f.write(x)
        else:
            data = data[:1]
        argv += ['-f', case['format']]
        if case['log']:
            argv += ['-l', case['log']]
        with fake_memory(case['rss']):
            res = cli.run_fork('make', argv, data[0] if case['stdin'] else b'', d)
    require(res.code == 0, 'exit code %d: %s', res.code, res.err[-800:])
    rank, recs = records(res.err, case)
    mk = new_maker(None)
    n = dict(ALL=0, EMPTY=0, VALID=0, INVALID=0, UNIQ=0)
    bad = []
    for x in data:
        for raw in c20.split_lines(x):
            n['ALL'] += 1
            raw = raw.strip()
            if not raw:
                n['EMPTY'] += 1
                continue
            try:
                _, is_new = mk.load(raw.decode('utf-8'))
                n['VALID'] += 1
                n['UNIQ'] += bool(is_new)
            except REJECTED:
                n['INVALID'] += 1
                bad.append(raw)
    if rank <= 2:
        rejected_records(recs, bad, 'pattern-make')
    elif rank < 9:
        require(not recs, 'pattern-make: records %r', recs[:3])
    if rank == 0:
        loaded = [t for _, t in recs if t.startswith('[LOADED]')]
        require(len(loaded) == 1, 'pattern-make: %d load summaries', len(loaded))
        same_counts(loaded[0], n, 'pattern-make')
        got = sorted(int(x) for _, t in recs
                     for x in re.findall(r'^\[CLUSTER\] (\d+) [0-9.]+s$', t))
        want = sorted(c.count for m in mk.makers
                      for c in m.make(case['format'].upper() == 'ETE'))
        require(got == want, 'pattern-make: cluster records %r, clusters %r', got[:9],
                want[:9])
        progress(recs, 'LOADING', n['ALL'], 5000, 'pattern-make')
    return rank == 0 and bad and n['VALID'] > 0, ['make ' + (case['log'] or 'default')]


def check_match(case):
    with cli.scratch() as d:
        argv, stdin, pdata, idata = ['-p'], b'', [], []
        for i, f in enumerate(case['patterns']):
            argv.append(os.path.join(d, 'p%d.txt' % i))
            pdata.append(cli.content(f['lines'], f['eol'], f['last']))
            with open(argv[-1], 'wb') as fh:
                fh.write(pdata[-1])
        names = argv[1:]
        for i, f in enumerate(case['files']):
            idata.append(cli.content(f['lines'], f['eol'], f['last']))
            if case['stdin']:
                stdin = idata[0]
                break
            if i == 0:
                argv.append('-i')
            argv.append(os.path.join(d, 'in%d.txt' % i))
            with open(argv[-1], 'wb') as fh:
                fh.write(idata[-1])
        if case['all']:
            argv.append('-a')
        if case['log']:
            argv += ['-l', case['log']]
        with fake_memory(case['rss']):
            res = cli.run_fork('match', argv, stdin, d)
    require(res.code == 0, 'exit code %d: %s', res.code, res.err[-800:])
    rank, recs = records(res.err, case)
    pm = PatternMatcher()
    n = dict(ALL=0, UNKNOW=0, VALID=0, INVALID=0)
    bad, lines = [], 0
    for x in pdata:
        for raw in c20.split_lines(x):
            n['ALL'] += 1
            raw = raw.rstrip()
            if not raw.startswith(b'/'):
                n['UNKNOW'] += 1
                continue
            try:
                pm.load(raw.decode('utf-8'), meta='x')
                n['VALID'] += 1
            except REJECTED:
                n['INVALID'] += 1
                bad.append(raw)
    for x in idata:
        for raw in c20.split_lines(x):
            lines += 1
            raw = raw.strip()
            try:
                pm.match(raw.decode('utf-8'))
            except REJECTED:
                bad.append(raw)
    if rank <= 2:
        rejected_records(recs, bad, 'pattern-match')
    elif rank < 9:
        require(not recs, 'pattern-match: records %r', recs[:3])
    if rank == 0:
        done = [t for _, t in recs if t.startswith('[LOAD] Finished')]
        require(len(done) == 1, 'pattern-match: %d load summaries', len(done))
        same_counts(done[0], n, 'pattern-match')
        start = [t for _, t in recs if re.match(r'\[LOAD\] \d+ pattern file', t)]
        require(start == ['[LOAD] %d pattern file%s: %s' % (
            len(names), '' if len(names) == 1 else 's', ', '.join(names))],
            'pattern-match: %r for the files %r', start, names)
        progress(recs, 'LOADING', n['ALL'], 1000, 'pattern-match')
        progress(recs, 'MATCHING', lines, 5000, 'pattern-match')
    return rank == 0 and bad and n['VALID'] > 0, ['match ' + (case['log'] or 'default')]


def finish(r, c):
    c['log'] = r.choice(['DEBUG', 'DEBUG', 'debug', 'INFO', 'WARN', 'warn', 'ERROR', 'FATAL',
                         'NOTSET', ''])
    c['rss'] = None
    if gen.chance(r, 2, 3):
        c['rss'] = 1 + r.randrange(1 << (1 + r.randrange(60)))
        if gen.chance(r, 1, 4):
            c['rss'] = max(1, 1024 ** (1 + r.randrange(5)) + r.choice([-1, 0, 1]))
    c.pop('name', None)
    return c


def gen_make(r):
    c = c19.gen_case(r)
    c['files'] = [f for f in c['files'] if not f.get('again')]
    c['format'] = r.choice(['CLUSTER', 'JSON', 'PATTERN', 'NULL', 'INLINE'])
    for k in ('mcn', 'conf', 'opts'):
        del c[k]
    return finish(r, c)


def gen_match(r):
    c = c20.gen_case(r)
    del c['opts']
    return finish(r, c)


def gen_big_make(r):
    c = gen_make(r)
    n = r.choice([4999, 5000, 5001, 10000, 12000, 15000, 20001])
    c['files'] = [c19.file_of(r, ['http://e.com/%d' % (i % 50) if i % 7 else r.choice(
        ['', '/', 'http://e.com/`', 'x']) for i in range(n)])]
    c['log'] = 'DEBUG'
    return c


def gen_big_match(r):
    c = c20.gen_big(r)
    del c['opts']
    finish(r, c)
    c['log'] = 'DEBUG'
    return c


def valid(case):
    return bool(case['files']) and case['log'].upper() in RANK or case['log'] == ''


FROZEN = ('format', 'log')
STREAMS = [
    Stream('make', gen_make, check_make, valid, quick=1200, thorough=40000, hyp_quick=40,
           hyp_thorough=600, frozen=FROZEN),
    Stream('match', gen_match, check_match, valid, quick=800, thorough=30000, hyp_quick=40,
           hyp_thorough=600, frozen=FROZEN),
    Stream('big-make', gen_big_make, check_make, valid, quick=8, thorough=120, hyp_quick=0,
           hyp_thorough=0, frozen=FROZEN),
    Stream('big-match', gen_big_match, check_match, valid, quick=8, thorough=120,
           hyp_quick=0, hyp_thorough=0, frozen=FROZEN),
]
