"""Clustering partitions the loaded URLs."""
from .. import dom, gen
from ..engine import Stream
from ..sut import clusters, load_all, new_maker, dump_clusters, require

ID = 'C01'
TITLE = 'Clustering neither loses, duplicates nor invents a URL'
RULE = ('URL sets from templates (1-3 structures, up to ~36 URLs each, all legal '
        'chars, duplicates, several hosts/params) and from small vocabularies, '
        'min_cluster_num 2-8 and the default; non-trivial: some cluster has >= 2 '
        'members and there are >= 2 clusters.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    urls = case['urls']
    loaded = set(urls)
    mk = load_all(new_maker(case['mcn']), urls)
    cls = dump_clusters(mk.make())
    seen = {}
    for i, c in enumerate(cls):
        require(c.metas, 'a cluster without members: %r', c.pattern)
        for m in c.metas:
            require(m in loaded, 'invented member %r in %r', m, c.pattern)
            require(m not in seen, '%r reported twice: in %r and %r', m,
                    cls[seen.get(m, 0)].pattern, c.pattern)
            seen[m] = i
    lost = [u for u in urls if u not in seen]
    require(not lost, 'lost: %r', lost[:5])
    # URLs which are the same apart from host/params share a cluster
    by_ident = {}
    for u, s in dom.structs(urls).items():
        by_ident.setdefault(s.ident, set()).add(seen[u])
    for ident, at in by_ident.items():
        require(len(at) == 1, 'the same URL path is in %d clusters: %r', len(at), ident)
    n = len(set(urls))
    labels = dom.shape_labels(urls, cls)
    return (len(cls) > 1 and any(len(c.metas) > 1 for c in cls),
            labels + (['duplicates'] if n < len(urls) else []))


def gen_case(r):
    c = gen.cluster_case(r)
    if c['mcn'] == 3 and gen.chance(r, 1, 2):
        c['mcn'] = None
    return c


def gen_large(r):
    return gen.large_case(r)


STREAMS = [
    Stream('extreme', gen.extreme_case, check, dom.cluster_case_ok, quick=300, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', gen.huge_case, check, dom.cluster_case_ok, quick=16, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('sets', gen_case, check, dom.cluster_case_ok, quick=12000, thorough=400000,
           hyp_quick=240, hyp_thorough=4000),
    Stream('large', gen_large, check, dom.cluster_case_ok, quick=400, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
]
