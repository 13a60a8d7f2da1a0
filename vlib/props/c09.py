"""Distributed processing: one maker / matcher per fuzzy digest."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (Maker, Matcher, PatternMatcher, clusters, config, diff, dump_clusters,
                   fuzzy_digest, keys, load_all, metas, new_maker, parse, require)
from . import c05

ID = 'C09'
TITLE = 'One maker or matcher per fuzzy digest gives the same result as all in one'
RULE = ('URL sets with several structures; (a) the low-level pipeline of the README: '
        'parse, group by fuzzy digest, one Maker/Matcher per group, groups in any '
        'order; (b) the URLs split by digest over several PatternMakers; compared '
        'with a single PatternMaker/PatternMatcher. Non-trivial: >= 2 digests, and one '
        'of them has a cluster of >= 2 URLs (matching: some URL matches).')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    urls, mcn = case['urls'], case['mcn']
    whole_maker = load_all(new_maker(mcn), urls)
    whole = keys(dump_clusters(whole_maker.make()))
    groups = {}
    for u in gen.reorder(case['seed'], urls):
        meta, pieces = parse(u)
        d = fuzzy_digest(meta, pieces)
        require(fuzzy_digest(u) == d, 'the digest of %r and of its parsed form differ', u)
        if d not in groups:
            groups[d] = (meta, Maker(meta) if mcn is None else Maker(meta, config(mcn)), [])
        require(groups[d][0] == meta, 'URLs of one digest have different structures: '
                '%r %r', groups[d][0], meta)
        groups[d][1].load(pieces, meta=u)
        groups[d][2].append(u)
    low, split = [], []
    for meta, maker, members in groups.values():
        require(maker.url_meta == meta, 'a maker changed its url_meta')
        low += dump_clusters((meta, c) for c in maker.make())
        split += clusters(members, mcn)
    require(keys(low) == whole, 'one Maker per digest: %s', diff(whole, keys(low)))
    require(keys(split) == whole, 'one PatternMaker per digest: %s', diff(whole, keys(split)))
    # the sub makers of the PatternMaker
    subs = []
    n = 0
    for m in whole_maker.makers:
        n += 1
        subs += dump_clusters((m.url_meta, c) for c in m.make())
    require(keys(subs) == whole, 'iterating the sub makers: %s', diff(whole, keys(subs)))
    require(n == len(groups), '%d sub makers for %d digests', n, len(groups))
    return len(groups) > 1 and any(len(set(k[1])) > 1 for k in whole), \
        ['%d digests' % min(len(groups), 5)]


def gen_large(r):
    return gen_case(r, gen.large_case(r))


def gen_case(r, c=None):
    c = gen.cluster_case(r) if c is None else c
    if gen.chance(r, 1, 2):
        c['urls'] += gen.url_set(r)
    if c['mcn'] == 3 and gen.chance(r, 1, 2):
        c['mcn'] = None
    c['seed'] = r.randrange(1000000)
    return c


SIGNS = '-_.~!$()*,:@%'


def gen_many(r):
    """Hundreds of structures in one maker."""
    urls = []
    n = 100 + r.randrange(600)
    for i in range(n):
        comps = []
        for _ in range(1 + r.randrange(2)):
            t = gen.word(r, SIGNS, r.randrange(5)) + \
                r.choice(['', 'a', 'B', '1', 'aB', 'a1', 'B1', 'aB1'])
            comps.append(t or 'a')
        tail = r.choice(['', '', '?k=1', '?k%d=1' % (i % 7), '?a=1&b=2', '?x', '#f', '?'])
        for k in range(1 + r.randrange(4)):
            urls.append('http://e.com/' + '/'.join(comps) + r.choice(['', 'a', 'B', '1', 'z'])
                        + tail)
    return {'urls': urls, 'mcn': r.choice([None, 2, 3, 4, 6]), 'seed': r.randrange(1000000)}


def check_match(case):
    whole = PatternMatcher()
    groups = {}
    for p in case['patterns']:
        whole.load(p, meta=p)
    for p in gen.reorder(case['seed'], case['patterns']):
        meta, pp = parse(p)
        d = fuzzy_digest(meta, pp)
        if d not in groups:
            groups[d] = Matcher(meta)
        groups[d].load(pp, meta=p)
    hit = False
    for u in case['urls']:
        meta, pieces = parse(u)
        d = fuzzy_digest(meta, pieces)
        require(fuzzy_digest(u) == d, 'the digest of %r and of its parsed form differ', u)
        got = [] if d not in groups else groups[d].match(pieces)
        want = whole.match(u)
        if d in groups:
            require(groups[d].url_meta == meta, 'digest equal, url_meta not: %r %r',
                    groups[d].url_meta, meta)
        require(sorted(metas(got)) == sorted(metas(want)),
                'match(%r): one Matcher per digest %r, PatternMatcher %r',
                u, metas(got), metas(want))
        a = metas(sorted(got, reverse=True))
        b = metas(sorted(want, reverse=True))
        require(a == b, 'ranking differs for %r: %r %r', u, a, b)
        hit = hit or bool(got)
    return hit and len(groups) > 1, ['%d digests' % min(len(groups), 5)]


def gen_match(r):
    # no reordered classes here: such patterns tie in the ranking
    pats, urls = [], []
    for _ in range(2):
        p, u = c05.pool(r)
        pats += p
        urls += u
    seen, keep = set(), []
    for p in pats:
        k = canon_key(p)
        if k not in seen:
            seen.add(k)
            keep.append(p)
    return {'patterns': keep, 'urls': urls, 'seed': r.randrange(1000000)}


def canon_key(p):
    return ''.join(sorted(p))


STREAMS = [
    Stream('extreme', lambda r: gen_case(r, gen.extreme_case(r)), check, dom.cluster_case_ok, quick=200, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', lambda r: gen_case(r, gen.huge_case(r)), check, dom.cluster_case_ok, quick=12, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, dom.cluster_case_ok, quick=200, thorough=8000,
           hyp_quick=0, hyp_thorough=0),
    Stream('many', gen_many, check, dom.cluster_case_ok, quick=40, thorough=1500,
           hyp_quick=0, hyp_thorough=0),
    Stream('many-match', c05.gen_many, check_match,
           lambda c: bool(c['urls']) and c05.valid_order(dict(c, dups=[])), quick=24,
           thorough=900, hyp_quick=0, hyp_thorough=0),
    Stream('make', gen_case, check, dom.cluster_case_ok, quick=4000, thorough=120000,
           hyp_quick=160, hyp_thorough=3000),
    Stream('match', gen_match, check_match,
           lambda c: c05.valid_order({'patterns': c['patterns'], 'dups': [], 'urls': c['urls']}),
           quick=2500, thorough=80000, hyp_quick=80, hyp_thorough=1500),
]
