"""pattern-make."""
import json
import os

from .. import cli, dom, gen, ref
from ..engine import Stream
from ..sut import (FORMATTERS, REJECTED, config, dump_clusters, fail, new_maker, pformat,
                   require)

ID = 'C19'
TITLE = 'pattern-make prints what the library makes, for every input and option'
RULE = ('Input files/stdin with URLs, blank, padded, CRLF, undecodable and invalid '
        'lines, in one or several files, with or without final newline; every output '
        'format, config file, log level; run in a forked child (and some as real '
        'processes); stdout is compared with the library fed with the accepted lines. '
        'Non-trivial: >= 1 line is skipped and >= 1 cluster has >= 2 members.')
ASSUMPTIONS = ['input lines have no inner tab or carriage return', 'UTF-8 stdout']

JUNK = ['', '   ', '\t', 'not a url', 'http://e.com', 'http://e.com/a`b', '/a/b', '/[0-9]+',
        'http://e.com/a?b&&c=1', 'http://e.com/a?&', 'http://e.com/中', '#', '?', 'abc',
        'http://e.com?x=1', 'http://[bad/x', '/[', '//', '/', 'http://e.com/a b',
        {'hex': 'ff'}, {'hex': '687474703a2f2f652e636f6d2f80'}, {'hex': 'c3'},
        {'hex': '00'}, 'http://e.com/x?k\u00e9=1', '[a-z]+', '\\']
PADS = ['', '', '', '', ' ', '\t', '  ', '\x0b', '\x0c']
# blanks for text, but not for bytes
UPADS = ['\u00a0', '\u3000', '\u2028', '\x85', '\x1c', '\x1f', '\ufeff', '\u200b', '\x00',
         '\u2003 ', ' \u00a0']


def padded(r, line):
    if isinstance(line, dict):
        return line
    if gen.chance(r, 1, 40):             # line ends elsewhere, but not here
        i = r.randrange(len(line) + 1)
        line = line[:i] + r.choice(['\r', '\r', '\x0b', '\x0c', '\x1c', '\x85', '\u2028']) + line[i:]
    line = r.choice(PADS) + line + r.choice(PADS)
    if gen.chance(r, 1, 40):
        line += r.choice(UPADS)
    if gen.chance(r, 1, 60):
        line = r.choice(UPADS) + line
    return line


def long_lines(r, urls):
    """Lines longer than usual buffers, and line ends next to their borders."""
    border = r.choice([1024, 4096, 8192, 16384, 32768, 65536, 65536, 131072])
    out, total = [], 0
    for _ in range(2 + r.randrange(3)):
        k = r.randrange(3)
        if k == 0:                       # a line of about this length
            n = border + r.randrange(5) - 2
        elif k == 1:                     # a line that ends at a multiple of it
            n = border - total % border + r.randrange(5) - 2
        else:
            n = r.randrange(border)
        n = max(20, n)
        head = 'http://e.com/' + r.choice(['', 'a/', 'b?k=', 'c#'])
        body = r.choice(['a', '1', 'b2', 'x-', '%E4'])
        t = head + (body * n)[:max(1, n - len(head) - 1)]
        out.append(t)
        total += len(t) + 1
        while gen.chance(r, 1, 2) and urls:
            t = r.choice(urls)
            out.append(t)
            total += len(t.encode()) + 1
    return out + urls


def loaded(case):
    """(maker, metas on, skipped)"""
    mk = new_maker(case['mcn'])
    with_meta = case['format'].upper() in ('CLUSTER', 'INLINE')
    skipped = n = 0
    for f in case['files']:
        if f.get('again'):
            f = case['files'][0]
        for raw in cli.content(f['lines'], f['eol'], f['last']).split(b'\n'):
            raw = raw.strip()
            if not raw:
                continue
            try:
                u = raw.decode('utf-8')
                mk.load(u, meta=u if with_meta else None)
                n += 1
            except REJECTED:
                skipped += 1
    return mk, skipped


def inputs(case, d, dash=True):
    """Writes the input files: (file names, standard input)."""
    names, stdin = [], b''
    for i, f in enumerate(case['files']):
        data = cli.content(f['lines'], f['eol'], f['last'])
        if case['stdin']:
            return [], data
        p = os.path.join(d, 'in%d%s.txt' % (i, case.get('name', '')))
        if f.get('again'):              # the first file once more
            p = names[0]
        elif i == case.get('dash', -1) and dash:
            p, stdin = '-', data        # standard input among the files
        else:
            with open(p, 'wb') as fh:
                fh.write(data)
        names.append(p)
    return names, stdin


def option(case, i, value):
    """An option with one value, written in one of the usual ways."""
    o = case['opts'][i]
    if case['joined'] >> i & 1:
        return [o + '=' + value] if o.startswith('--') else [o + value]
    return [o, value]


def check(case, run=cli.run_fork):
    with cli.scratch() as d:
        ins, stdin = inputs(case, d)
        groups = [[case['opts'][0]] + ins] if ins else []
        if case['format'] != 'default':
            groups.append(option(case, 1, case['format']))
        if case['mcn'] is not None:
            p = os.path.join(d, 'make.conf')
            with open(p, 'w') as fh:
                fh.write(case['conf'].replace('@', str(case['mcn'])))
            groups.append(option(case, 2, p))
        if case['log']:
            groups.append(option(case, 3, case['log']))
        argv = sum(gen.reorder(case['order'], groups), [])
        res = run('make', argv, stdin, d)
    require(res.code == 0, 'exit code %d: %s', res.code, res.err[-800:])
    out = res.out.decode('utf-8')
    fmt = case['format'].upper()
    if fmt == 'DEFAULT':
        fmt = 'CLUSTER'
    c = dict(case, format=fmt)
    if c['stdin']:
        c['files'] = c['files'][:1]
    mk, skipped = loaded(c)
    wide = False
    if fmt in ('CLUSTER', 'INLINE'):
        want = dump_clusters(mk.make())
        wide = any(len(x.metas) > 1 for x in want)
    if fmt == 'CLUSTER':
        got, cur = [], None
        for l in lines_of(out):
            if l.startswith('\t'):
                require(cur is not None, 'a member line comes first: %r', l)
                cur[1].append(l[1:])
            else:
                cur = (l, [])
                got.append(cur)
        got = sorted((p, sorted(m)) for p, m in got)
        exp = sorted((x.pattern, sorted(x.metas)) for x in want)
    elif fmt == 'INLINE':
        got = sorted(lines_of(out))
        exp = sorted('%s\t%s' % (x.pattern, m) for x in want for m in x.metas)
    elif fmt == 'ETE':
        return check_ete(case, out, mk, skipped)
    elif fmt == 'NULL':
        got, exp = out, ''
    else:
        exp = []
        for meta, root in mk.make():
            exp += list(pformat(fmt, meta, root))
            wide = wide or root.count > 1
        got, exp = lines_of(out), exp
        if fmt == 'JSON':
            got, exp = [[json.loads(x)[k] for k in ('ptn', 'cnt')] for x in got], \
                [[json.loads(x)[k] for k in ('ptn', 'cnt')] for x in exp]
        got, exp = sorted(got), sorted(exp)
    require(got == exp, 'pattern-make %s printed %r, the library makes %r',
            fmt, brief(got, exp), brief(exp, got))
    return wide and skipped > 0, [fmt, 'stdin' if case['stdin'] else 'files',
                                  'log %s' % (case['log'] or 'default')]


def brief(a, b):
    if isinstance(a, list):
        return [x for x in a if x not in b][:4] or len(a)
    return a[:300]


def lines_of(out):
    require(out == '' or out.endswith('\n'), 'no newline at the end of the output: %r', out[-50:])
    return out.split('\n')[:-1]


def check_ete(case, out, mk, skipped):
    from .c14 import label
    total, n = 0, 0
    need = {}
    for meta, root in mk.make(combine=True):
        def walk(node, level):
            l = label(node, meta, level).strip()
            need[l] = need.get(l, 0) + 1
            for k in node.children:
                walk(k, level + 1)
        walk(root, 0)
        n += 1
    for l, k in need.items():
        require(out.count(l) >= k, 'ETE output has %r %d times, expected %d:\n%s', l,
                out.count(l), k, out[:1500])
    # every leaf and inner node is on one line: nothing else is printed
    marks = sum(out.count(c) for c in '()')
    want = sum(sum(l.count(c) for c in '()') * k for l, k in need.items())
    require(marks == want, 'ETE output has other nodes than the tree:\n%s', out[:1500])
    return skipped > 0 and n > 0, ['ETE']


def urls(r, size):
    out = gen.url_set(r, size)
    return [u for u in out if not set(u) & set('\t\r\n')]


def file_of(r, lines):
    return {'lines': lines, 'eol': r.choice(['\n', '\n', '\r\n']),
            'last': not gen.chance(r, 1, 3)}


def several_files(r, lines):
    n = 2 + r.randrange(2)
    if gen.chance(r, 1, 6):
        n += r.randrange(5)
    cuts = sorted(r.randrange(len(lines) + 1) for _ in range(n - 1))
    return [file_of(r, lines[a:b]) for a, b in zip([0] + cuts, cuts + [len(lines)])]


CONFS = ['[make]\nmin_cluster_num = @\n', '# c\n[other]\nx=1\n[make]\nmin_cluster_num=@',
         '[make]\nmin_cluster_num: @\nother = 2\n', '[make]\nMIN_Cluster_Num = @\n',
         '[make]\nn = @\nmin_cluster_num = %(n)s\n', '\n; c\n\n[make]\n  min_cluster_num  =   @  \n',
         '[DEFAULT]\nmin_cluster_num = 9\nk = @\n[make]\nmin_cluster_num = %(k)s\n',
         '[make]\nmin_cluster_num =\n  @\n[make2]\nmin_cluster_num = 7\n']
NAMES = ['', '', '', ' a b', '\u00e9', '-x', '*', '%s']


def gen_case(r, size=12):
    us = urls(r, size)
    for _ in range(r.randrange(5)):
        us.insert(r.randrange(len(us) + 1), r.choice(JUNK))
    us = [padded(r, l) for l in us]
    stdin = gen.chance(r, 1, 2)
    files = []
    if stdin or gen.chance(r, 1, 2):
        files = [file_of(r, us)]
    else:
        files = several_files(r, us)
        if gen.chance(r, 1, 8):
            files.append(dict(file_of(r, []), again=1))
    fmts = ['default', 'CLUSTER', 'cluster', 'INLINE', 'inline', 'PATTERN', 'JSON', 'json',
            'pattern', 'Pattern', 'Cluster', 'NULL', 'null', 'ETE', 'ete'] if 'ETE' in FORMATTERS else \
        ['default', 'CLUSTER', 'INLINE', 'PATTERN', 'JSON', 'NULL']
    return {'files': files, 'stdin': stdin, 'format': r.choice(fmts),
            'name': r.choice(NAMES),
            'mcn': r.choice([None, None, None, 2, 3, 4, 5, 2 + r.randrange(20)]),
            'conf': r.choice(CONFS),
            'order': r.randrange(1000), 'joined': r.randrange(16),
            'dash': r.randrange(8) if files and not any('again' in f for f in files) else -1,
            'log': r.choice(['', '', '', 'DEBUG', 'debug', 'INFO', 'ERROR', 'NOTSET', 'WARN',
                             'FATAL']),
            'opts': [r.choice(p) for p in (('-i', '--inputs'), ('-f', '--formatter'),
                                           ('-c', '--config'), ('-l', '--loglevel'))]}


def gen_process(r):
    c = gen_case(r)
    if c['format'].upper() == 'ETE':         # ete3 takes seconds to import
        c['format'] = 'CLUSTER'
    return c


def valid(case):
    return bool(case['files']) and \
        all(f['eol'] in ('\n', '\r\n') for f in case['files']) and \
        not case['files'][0].get('again') and \
        not (case['dash'] >= 0 and any('again' in f for f in case['files'])) and \
        case['order'] >= 0 and case['joined'] >= 0 and \
        (case['mcn'] is None or case['mcn'] >= 2)


def gen_big(r):
    """More lines than the interval of the progress log."""
    c = gen_case(r)
    n = 5000 + r.randrange(300)
    lines = ['http://e.com/%s/%d' % (gen.word(r, 'abc', 2), i // 2) for i in range(n)]
    c['files'] = [file_of(r, lines)]
    c['format'] = r.choice(['CLUSTER', 'JSON', 'PATTERN'])
    return c


def gen_long(r):
    c = gen_case(r)
    c['files'] = [dict(file_of(r, long_lines(r, urls(r, 6))), eol='\n')]
    if c['format'].upper() == 'ETE':
        c['format'] = 'CLUSTER'
    return c


FROZEN = ('format', 'opts', 'conf', 'log', 'name', 'joined')
STREAMS = [
    Stream('fork', gen_case, check, valid, quick=2400, thorough=60000, hyp_quick=80,
           hyp_thorough=1000, frozen=FROZEN),
    Stream('process', gen_process, lambda c: check(c, cli.run_process), valid, quick=48,
           thorough=1500, hyp_quick=0, hyp_thorough=0, frozen=FROZEN),
    Stream('long', gen_long, check, valid, quick=40, thorough=1500, hyp_quick=0,
           hyp_thorough=0, frozen=FROZEN),
    Stream('big', gen_big, check, valid, quick=8, thorough=200, hyp_quick=0,
           hyp_thorough=0, frozen=FROZEN),
]
