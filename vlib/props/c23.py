"""Parsed URLs and patterns as values."""
import base64
import copy
import pickle

from .. import child, dom, gen, ref
from ..engine import Stream
from ..sut import (Maker, Matcher, clusters, config, diff, dump_clusters, fuzzy_digest,
                   keys, metas, new_matcher, parse, require)
from . import c04, c05

ID = 'C23'
TITLE = 'Parsed URLs and patterns are values that can be sent to other processes'
RULE = ('URL and pattern sets are parsed, some of the results used (digest, length, '
        'clustering), then copied (copy, deepcopy, pickle protocols 2 and up; in the '
        'same or in a fresh interpreter with another hash seed) and mixed with freshly '
        'parsed ones; equality, hashes, digests, clusters of low-level makers and '
        'matches of low-level matchers must be those of the originals. Non-trivial: '
        'copies and fresh values of the same text occur, and a cluster of >= 2 URLs or '
        'a match results.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'pickle protocol >= 2 (the classes have slots)']


def shape(meta, parsed):
    return (meta.path_depth, tuple(meta.query_keys), bool(meta.has_fragment),
            tuple(text_of(p) for p in parsed))


def text_of(p):
    return p.piece if hasattr(p, 'piece') else p.pattern_string


def use(meta, parsed, how):
    """Whatever is computed on demand is (or is not yet) computed before a copy."""
    if how & 1:
        fuzzy_digest(meta, parsed)
    if how & 2:
        for p in parsed:
            hash(p), str(p)
            getattr(p, 'fuzzy_rule', None) if text_of(p) else None
    if how & 4:
        for p in parsed:
            if hasattr(p, 'piece_length'):
                p.piece_length
            elif text_of(p):
                [u.is_literal() for u in p.pattern_units]


def copied(value, how):
    if how == 0:
        return copy.copy(value)
    if how == 1:
        return copy.deepcopy(value)
    if how == 2:
        meta, parsed = value
        return meta, [copy.copy(p) for p in parsed]
    return pickle.loads(pickle.dumps(value, how - 1))


def make(parsed_urls, mcn):
    groups = {}
    for u, (meta, pieces) in parsed_urls:
        d = fuzzy_digest(meta, pieces)
        if d not in groups:
            groups[d] = Maker(meta) if mcn is None else Maker(meta, config(mcn))
        groups[d].load(pieces, meta=u)
    out = []
    for m in groups.values():
        out += dump_clusters((m.url_meta, c) for c in m.make())
    return out


def match(parsed_patterns, parsed_urls):
    groups, out = {}, []
    for p, (meta, pats) in parsed_patterns:
        d = fuzzy_digest(meta, pats)
        if d not in groups:
            groups[d] = Matcher(meta)
        groups[d].load(pats, meta=p)
    for u, (meta, pieces) in parsed_urls:
        d = fuzzy_digest(meta, pieces)
        out.append(sorted(metas(groups[d].match(pieces))) if d in groups else [])
    return out


def equal_values(text, a, b):
    require(a[0] == b[0] and hash(a[0]) == hash(b[0]), 'the structure of a copy of %r is '
            'not equal to it', text)
    require(list(a[1]) == list(b[1]) and [hash(x) for x in a[1]] == [hash(x) for x in b[1]],
            'a copy of %r has not the same components (or hashes)', text)
    require(shape(*a) == shape(*b), 'a copy of %r reads %r', text, shape(*b))
    require(fuzzy_digest(*a) == fuzzy_digest(*b) == fuzzy_digest(text),
            'a copy of %r has another digest', text)


def check(case):
    urls, mcn = case['urls'], case['mcn']
    orig = [(u, parse(u)) for u in urls]
    for (u, v), h in zip(orig, case['use']):
        use(v[0], v[1], h)
    cop = [(u, copied(v, h)) for (u, v), h in zip(orig, case['copy'])]
    for (u, a), (_, b) in zip(orig, cop):
        equal_values(u, a, b)
        equal_values(u, b, parse(u))
    # equal exactly when the texts are: the components work as keys
    table = {}
    for u, (meta, pieces) in orig + cop:
        for x in pieces:
            table.setdefault(x, set()).add(x.piece)
    require(all(len(v) == 1 for v in table.values()) and
            len(table) == len({p.piece for _, v in orig for p in v[1]}),
            'components as keys: %r', sorted(map(sorted, table.values()))[:5])
    table = {}
    for u, (meta, pieces) in orig + cop:
        table.setdefault(meta, set()).add(shape(meta, ()))
        for x in pieces[:2]:
            require(x != x.piece and x != None and not x == x.piece,   # noqa: E711
                    'a component of %r equals its text', u)
            require(all((x == y) != (x != y) for y in pieces), '== and != of components '
                    'of %r', u)
    require(all(len(v) == 1 for v in table.values()) and
            len(table) == len({shape(v[0], ()) for _, v in orig}),
            'structures as keys: %r', sorted(map(sorted, table.values()))[:5])
    want = keys(clusters(urls, mcn))
    mixed = [(u, (orig, cop)[h & 1][i][1]) for i, (u, h) in enumerate(zip(urls, case['copy']))]
    fresh = [(u, parse(u)) for u in urls[::2]]
    for what, vals in (('copies', cop), ('copies and originals', mixed + fresh)):
        got = keys(make(vals, mcn))
        require(got == want, 'clusters of %s: %s', what, diff(want, got))
    return any(len(k[1]) > 1 for k in want), ['%d clusters' % min(len(want), 5)]


def gen_case(r):
    c = gen.cluster_case(r)
    c['use'] = [r.randrange(8) for _ in c['urls']]
    c['copy'] = [r.randrange(7) for _ in c['urls']]
    return c


def valid(c):
    return dom.cluster_case_ok(c) and len(c['use']) >= len(c['urls']) and \
        len(c['copy']) >= len(c['urls']) and all(0 <= h < 7 for h in c['copy'])


def check_match(case):
    pats, urls = case['patterns'], case['urls']
    orig = [(p, parse(p)) for p in pats]
    for (p, v), h in zip(orig, case['use']):
        use(v[0], v[1], h)
    if case['warm']:
        match(orig, [(u, parse(u)) for u in urls])
    cop = [(p, copied(v, h)) for (p, v), h in zip(orig, case['copy'])]
    for (p, a), (_, b) in zip(orig, cop):
        equal_values(p, a, b)
        equal_values(p, b, parse(p))
    table = {}
    for p, (meta, parts) in orig + cop:
        for x in parts:
            table.setdefault(x, set()).add(x.pattern_string)
    require(all(len(v) == 1 for v in table.values()) and
            len(table) == len({x.pattern_string for _, v in orig for x in v[1]}),
            'pattern components as keys: %r', sorted(map(sorted, table.values()))[:5])
    m = new_matcher(pats)
    want = [sorted(metas(m.match(u))) for u in urls]
    pu = [(u, parse(u)) for u in urls]
    cu = [(u, copied(parse(u), 1 + h % 6)) for u, h in zip(urls, case['copy'] + [1] * len(urls))]
    for what, a, b in (('copied patterns', cop, pu), ('copied patterns and URLs', cop, cu),
                       ('copied URLs', orig, cu)):
        got = match(a, b)
        require(got == want, 'matches with %s: %r, expected %r', what, got, want)
    return any(want), ['%d patterns' % min(len(pats), 8)]


def gen_match(r):
    pats, urls = c05.pool(r)
    pats = sorted(set(pats))
    return {'patterns': pats, 'urls': urls, 'warm': gen.chance(r, 1, 2),
            'use': [r.randrange(8) for _ in pats], 'copy': [r.randrange(7) for _ in pats]}


def valid_match(c):
    return c04.valid(c) and len(set(c['patterns'])) == len(c['patterns']) and \
        len(c['use']) >= len(c['patterns']) and \
        len(c['copy']) >= len(c['patterns']) and all(0 <= h < 7 for h in c['copy'])


def pack64(values):
    return base64.b64encode(pickle.dumps(values)).decode()


def child_job(j):
    """In the other process: pickled values and texts of the same URLs/patterns."""
    there = pickle.loads(base64.b64decode(j['pickled']))
    for t, v in zip(j.get('patterns', []) + j['urls'], there):
        equal_values(t, v, parse(t))
        here = {x: None for x in parse(t)[1]}
        require(all(x in here for x in v[1]), 'unpickled components of %r are not found '
                'as keys', t)
    if 'patterns' in j:
        n = len(j['patterns'])
        vals = list(zip(j['patterns'], there[:n]))
        urls = list(zip(j['urls'], there[n:]))
        fresh = [(u, parse(u)) for u in j['urls']]
        again = [(p, parse(p)) for p in j['patterns'][::2]]
        return [match(vals, fresh), match(vals + again, urls),
                match(again + vals, urls + fresh)]
    vals = list(zip(j['urls'], there))
    fresh = [(u, parse(u)) for u in j['urls'][::2]]
    return [[[c.pattern, sorted(c.metas), c.count] for c in make(v, j['mcn'])]
            for v in (vals, fresh + vals, vals + fresh)]


def check_child(case):
    jobs, want = [], []
    for s in case['sets']:
        vals = [parse(u) for u in s['urls']]
        for i, v in enumerate(vals):
            use(v[0], v[1], (case['hashseed'] + i) % 8)
        make(zip(s['urls'], vals), s['mcn'])
        jobs.append({'do': 'values', 'urls': s['urls'], 'mcn': s['mcn'],
                     'pickled': pack64(vals)})
        w = [list(map(list_key, keys(clusters(s['urls'], s['mcn']))))]
        want.append(w * 3)
    for s in case['pools']:
        vals = [parse(t) for t in s['patterns'] + s['urls']]
        for i, v in enumerate(vals):
            use(v[0], v[1], (case['hashseed'] + i) % 8)
        match(zip(s['patterns'], vals), [(u, parse(u)) for u in s['urls']])
        jobs.append({'do': 'values', 'urls': s['urls'], 'patterns': s['patterns'],
                     'pickled': pack64(vals)})
        m = new_matcher(s['patterns'])
        w = [sorted(metas(m.match(u))) for u in s['urls']]
        want.append([w, w, w + w])
    res = child.run(jobs, case['hashseed'])
    for j, w, got in zip(jobs, want, res):
        if 'mcn' in j:
            got = [sorted(map(list_key, g)) for g in got]
            w = [sorted(x) for x in w]
        require(got == w, 'in another process (PYTHONHASHSEED=%s), from pickled values of '
                '%r: %r, expected %r', case['hashseed'], j.get('patterns', j['urls']), got, w)
    return True, []


def list_key(k):
    return [k[0], sorted(k[1]), k[2]]


def gen_child(r):
    sets = [gen.cluster_case(r) for _ in range(12)]
    pools = []
    for _ in range(6):
        p, u = c05.pool(r)
        pools.append({'patterns': sorted(set(p)), 'urls': u})
    return {'sets': sets, 'pools': pools, 'hashseed': 1 + r.randrange(1000000)}


def valid_child(c):
    return bool(c['sets'] or c['pools']) and \
        all(dom.cluster_case_ok(s) for s in c['sets']) and \
        all(c04.valid(p) and len(set(p['patterns'])) == len(p['patterns'])
            for p in c['pools'])


STREAMS = [
    Stream('urls', gen_case, check, valid, quick=3000, thorough=100000,
           hyp_quick=160, hyp_thorough=3000),
    Stream('patterns', gen_match, check_match, valid_match, quick=1600, thorough=60000,
           hyp_quick=80, hyp_thorough=1500),
    Stream('processes', gen_child, check_child, valid_child, quick=64, thorough=1500,
           hyp_quick=0, hyp_thorough=0),
]
