"""Robustness: arbitrary text."""
import json
import os

from .. import dom, gen, ref
from ..engine import VERIF, Stream
from ..sut import (REJECTED, PatternMaker, PatternMatcher, clusters, diff, dump_clusters,
                   fuzzy_digest, keys, metas, new_maker, parse, require)
from os_urlpattern.parse_utils import analyze_url, parse_url
from . import c04

ID = 'C18'
TITLE = 'Any text is accepted or cleanly rejected; rejects leave no trace'
RULE = ('Arbitrary text (random unicode, control chars, mutated and spliced URLs and '
        'patterns, up to ~150 path levels) is given to every entry point: it must '
        'return or raise a declared error (invalid char, irregular URL, invalid '
        'pattern, ValueError). Histories that mix rejected with accepted input end in '
        'the same clusters and matches as without the rejected ones. Non-trivial: '
        'some input is rejected and some accepted (histories), or is neither plain '
        'ASCII word nor empty (texts).')
ASSUMPTIONS = ['min_cluster_num >= 2', 'when several URLs are clustered, fewer than 200 '
               'path levels and sub-pieces with signs (see the known finding)',
               'text is str']

WEIRD = [' ', '\t', '\n', '\r', '\x00', '\x1f', '\x7f', '`', 'é', '中', '\u2028', '\ud800',
         '１', 'ß', '%', '%%', '//', '///', '?', '??', '#', '##', '&', '&&', '=', '==', ';',
         ';;', '[', ']', '[]', '{', '}', '{0}', '{1}', '[a-z]', '[a-z]+', '[a-z]{2}', '\\',
         '\\\\', '[\\?]', '[\\', '://', 'http://', 'http:', ':', '@', '[::1]', '+', '.', '..',
         '/.', '~', '"', "'", '<', '>', '|', '^', '*', '$', '!', '(', ')', ',', '-', '_']


def fuzz_text(r):
    k = r.randrange(9)
    if k == 0:
        return ''.join(r.choice(WEIRD) for _ in range(r.randrange(8)))
    if k == 1:
        return ''.join(chr(r.randrange(0x110000 if gen.chance(r, 1, 4) else 0x250))
                       for _ in range(r.randrange(12)))
    if k == 2:
        return gen.word(r, ref.LEGAL + ' ', r.randrange(20))
    if k == 3:
        return 'http://' + gen.word(r, ref.LEGAL, r.randrange(15))
    if k == 4:
        return '/' + gen.word(r, 'az09[]{}+\\-.?#&=/AZ', r.randrange(20))
    if k == 5 and gen.chance(r, 1, 10):
        return 'http://h/' + '/'.join(gen.word(r, 'ab1', 1 + r.randrange(2))
                                      for _ in range(r.randrange(150)))
    if k in (5, 6):
        t = gen.decorate(r, r.choice(gen.any_tails(r, 2) or ['/a']))
    else:
        t = gen.url_pattern(r, ref.ref_parse(c04.one_url(r)))
    for _ in range(r.randrange(4)):
        i = r.randrange(len(t) + 1)
        j = min(len(t), i + r.randrange(4))
        m = r.randrange(3)
        if m == 0:
            t = t[:i] + r.choice(WEIRD) + t[i:]
        elif m == 1:
            t = t[:i] + t[j:]
        else:
            t = t[:i] + r.choice(WEIRD) + t[j:]
    return t


def long_text(r):
    n = 200 + r.randrange(3000)
    if gen.chance(r, 1, 5):
        n *= 20
    unit = gen.word(r, r.choice(['a1', 'aB', 'a1B%', 'a-', 'ab.', ref.LEGAL]), 1 + r.randrange(8))
    t = (unit * n)[:n]
    for c in '/&':          # many levels: known finding deep-path
        p = t.split(c)
        t = c.join(p[:70]) + 'a'.join([''] + p[70:])
    k = r.randrange(6)
    if k < 2:
        return 'http://e.com/' + t
    if k == 2:
        return 'http://e.com/a?' + t
    if k == 3:
        return 'http://e.com/a?k=' + t + '#' + t
    if k == 4:
        return '/' + t
    return t


def gen_runs(r):
    """Components of very many letter and digit runs."""
    unit = gen.word(r, 'ab1B%', 2 + r.randrange(5))
    n = 300 + r.randrange(2500)
    body = (unit * n)[:n]
    form = r.choice(['http://e.com/%s', 'http://e.com/%s/x', 'http://e.com/a?k=%s',
                     'http://e.com/%s.html'])
    urls = []
    for i in range(2 + r.randrange(8)):
        t = body
        if gen.chance(r, 2, 3):
            j = r.randrange(n)
            t = body[:j] + r.choice('ab1B') + body[j + r.randrange(2):]
        urls.append(form % t)
    return {'urls': urls, 'mcn': 2 + r.randrange(4)}


def check_runs(case):
    cls = clusters(case['urls'], case['mcn'])
    members = sorted(m for c in cls for m in c.metas)
    require(members == sorted(set(case['urls'])), 'members of the clusters: %d of %d URLs',
            len(members), len(set(case['urls'])))
    for c in cls:
        pm = PatternMatcher()
        pm.load(c.pattern, meta='m')
        for m in c.metas:
            require(metas(pm.match(m)) == ['m'], 'URL %r... is not matched by its pattern',
                    m[:60])
    return any(len(c.metas) > 1 for c in cls), ['%d clusters' % len(cls)]


def attempt(f, *a, **kw):
    """(accepted, value)"""
    try:
        return True, f(*a, **kw)
    except REJECTED:
        return False, None


def check_text(case):
    t = case['text']
    ok_parse, _ = attempt(parse, t)
    ok_digest, _ = attempt(fuzzy_digest, t)
    require(ok_parse or not ok_digest, '%r is rejected by parse, but has a digest', t)
    mk, pm = PatternMaker(), PatternMatcher()
    ok_make, _ = attempt(mk.load, t, meta=t)
    ok_load, _ = attempt(pm.load, t, meta=t)
    ok_match, got = attempt(pm.match, t)
    ok_match2, got2 = attempt(PatternMatcher().match, t)
    is_pattern = t.startswith('/')
    require(not (ok_make and is_pattern), 'the pattern %r is accepted as a URL', t)
    require(not (ok_load and not is_pattern), 'the URL %r is accepted as a pattern', t)
    require(not (ok_match and is_pattern), 'the pattern %r is accepted by match', t)
    require((ok_make or ok_load) == ok_digest, '%r: digest accepts: %r, make: %r, '
            'matcher: %r', t, ok_digest, ok_make, ok_load)
    if not is_pattern:
        require(ok_make == ok_match == ok_match2, '%r: make accepts: %r, match: %r', t,
                ok_make, ok_match)
    cls = dump_clusters_raw(mk)
    if ok_make:
        require(len(cls) == 1, '%r gives %d clusters', t, len(cls))
        p = cls[0]
        pm = PatternMatcher()
        pm.load(p, meta='m')
        require(metas(pm.match(t)) == ['m'], 'URL %r is not matched by its own literal '
                'pattern %r', t, p)
        require(fuzzy_digest(p) == fuzzy_digest(t), 'digest of %r and of its pattern %r '
                'differ', t, p)
    else:
        require(cls == [], 'rejected %r, but clusters %r', t, cls)
    # legality is decided by the chars of the components alone
    if not is_pattern and plain(t):
        try:
            ref.ref_parse(t)
            want = True
        except (ref.Irregular, ref.BadChar):
            want = False
        require(ok_digest == want, '%r is %s, expected it to be %s', t,
                'accepted' if ok_digest else 'rejected', 'accepted' if want else 'rejected')
    return bool(t) and not t.isalnum(), ['accepted' if ok_digest else 'rejected']


def plain(t):
    """The reference splitter covers it."""
    import re
    return re.match(r'(https?|ftp)://[a-z.]+(?=[/?#]|$)', t) and \
        all(33 <= ord(c) < 127 or c in 'é中ß' for c in t)


def dump_clusters_raw(mk):
    from ..sut import pformat
    return [list(pformat('pattern', m, c))[0] for m, c in mk.make()]


def check_history(case):
    """Rejected input between accepted input is as if it had not been there."""
    mk, pm = new_maker(case['mcn']), PatternMatcher()
    clean_mk, clean_pm = new_maker(case['mcn']), PatternMatcher()
    rejected = accepted = 0
    probes = []
    for op, t in case['ops']:
        target = mk.load if op == 'make' else pm.load if op == 'load' else pm.match
        ok, got = attempt(target, t, meta=t) if op != 'match' else attempt(target, t)
        if not ok:
            rejected += 1
            continue
        accepted += 1
        if op == 'make':
            clean_mk.load(t, meta=t)
            probes.append(t)
        elif op == 'load':
            clean_pm.load(t, meta=t)
        else:
            want = metas(clean_pm.match(t))
            require(sorted(metas(got)) == sorted(want), 'match(%r) after rejected input: '
                    '%r, without it: %r', t, metas(got), want)
            probes.append(t)
    a, b = keys(dump_clusters(mk.make())), keys(dump_clusters(clean_mk.make()))
    require(a == b, 'clusters with and without the rejected URLs differ: %s', diff(a, b))
    require(len(list(mk.makers)) == len(list(clean_mk.makers)),
            'rejected input left sub makers behind')
    for t in probes:
        x, y = metas(pm.match(t)), metas(clean_pm.match(t))
        require(x == y, 'match(%r): %r, without the rejected input %r', t, x, y)
    return rejected > 0 and accepted > 1, ['rejected' if rejected else 'none rejected']


def gen_history(r):
    ops = []
    good = gen.url_set(r, 6)
    for u in good:
        ops.append(['make', u])
        if gen.chance(r, 1, 2):
            ops.append(['load', gen.url_pattern(r, ref.ref_parse(u))])
        if gen.chance(r, 1, 2):
            ops.append(['match', r.choice(good)])
        while gen.chance(r, 1, 2):
            t = fuzz_text(r)
            if '\r' in t or '\n' in t or '\t' in t:
                continue
            if gen.chance(r, 1, 3):
                # a bad neighbour of a good URL: only its last part is illegal
                t = r.choice(good) + r.choice(['`', ' x', 'é', '&', '&&x', '?&a=1', '#`'])
            ops.append([r.choice(['make', 'load', 'match']), t])
    return {'mcn': gen.mcn(r), 'ops': gen.shuffle(r, ops)}


def valid_history(case):
    return case['mcn'] >= 2 and all(len(o) == 2 and o[0] in ('make', 'load', 'match')
                                    for o in case['ops'])


DEEP = 'http://e.com/' + '/'.join(['a'] * 1200)


def known_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        entries = json.load(f)
    lines = []
    for e in entries['known']:
        if e['property'] != ID:
            continue
        if e['id'] == 'deep-path':
            try:
                clusters([DEEP])
            except RecursionError:
                lines.append(e['what'])
    return lines


STREAMS = [
    Stream('texts', lambda r: {'text': fuzz_text(r)}, check_text, quick=30000,
           thorough=1500000, hyp_quick=300, hyp_thorough=6000),
    Stream('long', lambda r: {'text': long_text(r)}, check_text, quick=300, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('runs', gen_runs, check_runs, dom.cluster_case_ok, quick=80, thorough=3000,
           hyp_quick=0, hyp_thorough=0),
    Stream('history', gen_history, check_history, valid_history, quick=3000,
           thorough=100000, hyp_quick=80, hyp_thorough=1500),
]
