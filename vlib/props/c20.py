"""pattern-match."""
import os

from .. import cli, dom, gen, ref
from ..engine import Stream
from ..sut import REJECTED, PatternMatcher, clusters, metas, require
from . import c04, c05, c19

ID = 'C20'
TITLE = 'pattern-match answers every input line, in order, as the library does'
RULE = ('Pattern files (patterns, cluster output, blank, malformed and foreign lines, '
        'several files) and URL input (blank, padded, CRLF, undecodable, invalid '
        'lines; stdin or files); each output line must be "<result> TAB <line>" with '
        'the best match, all matches (-a), N or E as the library gives. A pipeline '
        'stream feeds pattern-make output to pattern-match. Non-trivial: matched, '
        'unmatched and erroneous lines all occur.')
ASSUMPTIONS = ['input lines have no inner tab or carriage return']


def expected(pat_lines, raw_lines, all_matched):
    pm = PatternMatcher()
    for raw in pat_lines:
        raw = raw.rstrip()
        if not raw.startswith(b'/'):
            continue
        try:
            p = raw.decode('utf-8')
            pm.load(p, meta=p)
        except REJECTED:
            continue
    out = []
    for raw in raw_lines:
        raw = raw.strip()
        try:
            res = pm.match(raw.decode('utf-8'))
        except REJECTED:
            out.append(([b'E'], raw, False))
            continue
        ms = [m.encode('utf-8') for m in metas(sorted(res, reverse=True))]
        if not ms:
            out.append(([b'N'], raw, False))
        elif all_matched:
            out.append((sorted(ms), raw, True))
        else:
            out.append((ms[:1], raw, False))
    return out


def split_lines(data):
    ls = data.split(b'\n')
    return ls[:-1] if ls[-1] == b'' else ls


def check(case, run=cli.run_fork):
    with cli.scratch() as d:
        pat_lines, raw_lines, pats, given = [], [], [], None
        for i, f in enumerate(case['patterns']):
            data = cli.content(f['lines'], f['eol'], f['last'])
            p = os.path.join(d, 'p%d%s.txt' % (i, case.get('name', '')))
            if i == case.get('pdash', -1) and not case['stdin']:
                p, given = '-', data    # patterns from standard input
            else:
                with open(p, 'wb') as fh:
                    fh.write(data)
            pats.append(p)
            pat_lines += split_lines(data)
        for f in case['files'][:1] if case['stdin'] else case['files']:
            raw_lines += split_lines(cli.content(f['lines'], f['eol'], f['last']))
        ins, stdin = c19.inputs(case, d, given is None)
        groups = [[case['opts'][0]] + pats]
        if ins:
            groups.append([case['opts'][1]] + ins)
        if case['all']:
            groups.append([case['opts'][2]])
        if case['log']:
            groups.append(c19.option(case, 3, case['log']))
        argv = sum(gen.reorder(case['order'], groups), [])
        stdin = stdin if given is None else given
        res = run('match', argv, stdin, d)
    require(res.code == 0, 'exit code %d: %s', res.code, res.err[-800:])
    want = expected(pat_lines, raw_lines, case['all'])
    compare(res.out, want)
    kinds = {b'E' if w[0] == [b'E'] else b'N' if w[0] == [b'N'] else b'M' for w in want}
    return len(kinds) == 3, sorted('has ' + k.decode() for k in kinds) + \
        (['all'] if case['all'] else ['best']) + \
        (['several'] if any(len(w[0]) > 1 for w in want) else [])


def compare(out, want):
    require(out == b'' or out.endswith(b'\n'), 'no newline at the end: %r', out[-60:])
    got = out.split(b'\n')[:-1]
    require(len(got) == len(want), '%d output lines for %d input lines', len(got), len(want))
    for line, (ms, raw, unordered) in zip(got, want):
        require(line.endswith(b'\t' + raw), 'output line %r for the input %r', line, raw)
        head = line[:len(line) - len(raw) - 1].split(b'\t')
        if unordered:
            head = sorted(head)
        require(head == ms, 'input %r: printed %r, expected %r', raw, head, ms)


PJUNK = ['', '  ', '# comment', 'http://e.com/a', '\thttp://e.com/a/1', '/[', '/[a-z',
         '/[a-z]{x}', '/a`b', '/[0-9]{0}', '/[\\?]a&&b', 'abc', {'hex': '2fff'}, {'hex': 'ff'},
         '/[zz]+', ' /[0-9]+', '/中']


def pick_patterns(r):
    pats, urls = [], []
    for _ in range(2):
        p, u = c05.pool(r)
        pats += p
        urls += u
    seen, keep = set(), []
    for p in pats:
        k = ''.join(sorted(p))
        if k not in seen:
            seen.add(k)
            keep.append(p)
    return keep, urls


def opts(r):
    return [r.choice(p) for p in (('-p', '--pattern-files'), ('-i', '--inputs'),
                                  ('-a', '--all-matched'), ('-l', '--loglevel'))]


def gen_case(r):
    pats, urls = pick_patterns(r)
    lines = list(pats)
    if gen.chance(r, 1, 12):
        lines = pats[:r.randrange(2)]       # one pattern or none
    for _ in range(r.randrange(5)):
        lines.insert(r.randrange(len(lines) + 1), r.choice(PJUNK))
    lines = [l if isinstance(l, dict) else l + r.choice(['', '', ' ', '\t'])
             for l in lines]
    lines = [l + r.choice(c19.UPADS) if isinstance(l, str) and gen.chance(r, 1, 40) else l
             for l in lines]
    pfiles = [c19.file_of(r, lines)] if gen.chance(r, 1, 2) else \
        c19.several_files(r, lines)
    ins = []
    for u in urls:
        ins.append(u)
        s = ref.ref_parse(u)
        if gen.chance(r, 1, 2):
            ins.append(gen.variant(r, s, gen.chance(r, 1, 2)))
        if gen.chance(r, 1, 4):
            ins.append(r.choice(c19.JUNK))
    ins = [c19.padded(r, l) for l in ins]
    stdin = gen.chance(r, 1, 2)
    if stdin or gen.chance(r, 1, 2):
        files = [c19.file_of(r, ins)]
    else:
        files = c19.several_files(r, ins)
    return {'patterns': pfiles, 'files': files, 'stdin': stdin,
            'all': gen.chance(r, 1, 2),
            'name': r.choice(c19.NAMES), 'order': r.randrange(1000),
            'joined': r.randrange(16), 'dash': r.randrange(8), 'pdash': r.randrange(16),
            'log': r.choice(['', '', '', 'DEBUG', 'WARN', 'ERROR', 'debug', 'INFO', 'NOTSET',
                             'FATAL']), 'opts': opts(r)}


def valid(case):
    return bool(case['files']) and bool(case['patterns']) and \
        case['order'] >= 0 and case['joined'] >= 0 and \
        all(f['eol'] in ('\n', '\r\n') for f in case['files'] + case['patterns']) and \
        all(not isinstance(l, str) or not set(l.strip('\t \x0b\x0c')) & set('\t\n')
            for f in case['files'] for l in f['lines'])


def gen_big(r):
    """More lines than the intervals of the progress logs."""
    c = gen_case(r)
    n = r.choice([1100, 1100, 2500, 5000, 9000])
    c['patterns'].append(c19.file_of(r, ['/x%d/[0-9]{%d}' % (i // 9, 2 + i % 9)
                                         for i in range(n)]))
    c['files'] = [c19.file_of(r, ['http://e.com/x%d/%s' % (r.randrange(n // 9 + 5),
                                                           '1' * (1 + i % 12))
                                  for i in range(5050)])]
    return c


def gen_long(r):
    c = gen_case(r)
    urls = [u for f in c['files'] for u in f['lines'] if isinstance(u, str)]
    c['files'] = [dict(c19.file_of(r, c19.long_lines(r, urls[:8])), eol='\n')]
    c['patterns'].append(c19.file_of(r, ['/[a-z]+', '/[0-9]+', '/a/[a-z]+', '/a/[0-9]+',
                                         '/[0-9b]+', '/[\\-x]+', '/c#[a-z]+',
                                         '/b[\\?]k=[0-9]+']))
    if gen.chance(r, 1, 2):
        n = r.choice([1024, 4096, 8192, 65536]) + r.randrange(5) - 2
        c['patterns'].append(c19.file_of(r, ['/' + 'a' * n, '/[a-z]{%d}' % (n - 14)]))
    return c


def check_pipeline(case):
    """make (cluster/pattern/inline output) | match on the same URLs."""
    urls = case['urls']
    data = ('\n'.join(urls) + '\n').encode()
    with cli.scratch() as d:
        argv = ['-f', case['format']]
        if case['mcn'] is not None:
            conf = os.path.join(d, 'c.conf')
            with open(conf, 'w') as f:
                f.write('[make]\nmin_cluster_num = %d\n' % case['mcn'])
            argv += ['-c', conf]
        res = cli.run_fork('make', argv, data, d)
        require(res.code == 0, 'make: exit code %d: %s', res.code, res.err[-500:])
        pf = os.path.join(d, 'patterns.txt')
        with open(pf, 'wb') as f:
            f.write(res.out)
        res = cli.run_fork('match', ['-p', pf] + (['-a'] if case['all'] else []), data, d)
        require(res.code == 0, 'match: exit code %d: %s', res.code, res.err[-500:])
    out = res.out.split(b'\n')[:-1]
    require(len(out) == len(urls), '%d output lines for %d URLs', len(out), len(urls))
    by_url = {}
    wide = False
    cls = clusters(urls, case['mcn'])
    for c in cls:
        for m in c.metas:
            by_url[m] = c.pattern
        wide = wide or len(c.metas) > 1
    for u, line in zip(urls, out):
        parts = line.decode('utf-8').split('\t')
        require(parts[-1] == u, 'line %r for the URL %r', line, u)
        require(parts[0] not in ('N', 'E'), 'URL %r got %r after being clustered to %r',
                u, parts[0], by_url[u])
        if case['all']:
            require(by_url[u] in parts[:-1], 'URL %r: %r does not list its pattern %r', u,
                    parts[:-1], by_url[u])
    return wide and len(cls) > 1, [case['format']]


def gen_pipeline(r):
    c = gen.cluster_case(r)
    c['urls'] = [u for u in c['urls'] if not set(u) & set('\t\r\n')]
    c['format'] = r.choice(['CLUSTER', 'PATTERN'])
    c['all'] = gen.chance(r, 1, 2)
    if c['mcn'] == 3:
        c['mcn'] = None
    return c


FROZEN = ('opts', 'log', 'format', 'name', 'joined')
STREAMS = [
    Stream('fork', gen_case, check, valid, quick=1600, thorough=50000, hyp_quick=80,
           hyp_thorough=1000, frozen=FROZEN),
    Stream('pipeline', gen_pipeline, check_pipeline, dom.cluster_case_ok, quick=600,
           thorough=20000, hyp_quick=0, hyp_thorough=300, frozen=FROZEN),
    Stream('process', gen_case, lambda c: check(c, cli.run_process), valid, quick=40,
           thorough=1200, hyp_quick=0, hyp_thorough=0, frozen=FROZEN),
    Stream('long', gen_long, check, valid, quick=40, thorough=1200, hyp_quick=0,
           hyp_thorough=0, frozen=FROZEN),
    Stream('big', gen_big, check, valid, quick=8, thorough=100, hyp_quick=0,
           hyp_thorough=0, frozen=FROZEN),
]
