"""Clusters are final: stable under re-clustering, told apart by their patterns."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import clusters, metas, new_matcher, require

ID = 'C12'
TITLE = 'Clusters are stable: distinct patterns, unchanged when clustered again'
RULE = ('URL sets as for C01. Each cluster has its own pattern; clustering the '
        'members of one cluster alone, or the set after removing whole other '
        'structures, gives that cluster again; a second make on the same maker, and '
        'a combined make before it, gives the same clusters. Non-trivial: >= 2 '
        'clusters and one has >= 2 distinct URLs.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    from ..sut import dump_clusters, keys, load_all, new_maker, diff
    urls, mcn = case['urls'], case['mcn']
    maker = load_all(new_maker(mcn), urls)
    if case['combine_first']:
        for _ in maker.make(combine=True):
            pass
    cls = dump_clusters(maker.make())
    again = dump_clusters(maker.make())
    require(keys(cls) == keys(again), 'a second make() differs: %s',
            diff(keys(cls), keys(again)))
    fresh = clusters(urls, mcn)
    require(keys(cls) == keys(fresh), 'make() after combine differs: %s',
            diff(keys(cls), keys(fresh)))
    seen = {}
    for c in cls:
        require(c.pattern not in seen, 'two clusters with the pattern %r: %r and %r',
                c.pattern, seen.get(c.pattern), c.metas)
        seen[c.pattern] = c.metas
    wide = False
    for c in cls:
        if len(c.metas) > 1:
            sub = clusters(sorted(c.metas), mcn)
            require(keys(sub) == [c.key], 'clustering the members of %r again gives %r',
                    c.pattern, [s.pattern for s in sub])
            wide = True
    return wide and len(cls) > 1, dom.shape_labels(urls, cls)


def gen_case(r):
    c = gen.cluster_case(r)
    c['combine_first'] = gen.chance(r, 1, 3)
    return c


def gen_large(r):
    c = gen.large_case(r)
    c['combine_first'] = gen.chance(r, 1, 3)
    return c


STREAMS = [
    Stream('extreme', lambda r: dict(gen.extreme_case(r), combine_first=False), check, dom.cluster_case_ok, quick=200, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', lambda r: dict(gen.huge_case(r), combine_first=gen.chance(r, 1, 3)), check, dom.cluster_case_ok, quick=12, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, dom.cluster_case_ok, quick=160, thorough=6000,
           hyp_quick=0, hyp_thorough=0),
    Stream('sets', gen_case, check, dom.cluster_case_ok, quick=5000, thorough=150000,
           hyp_quick=160, hyp_thorough=3000),
]
