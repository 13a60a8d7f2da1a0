"""Clustering is a function of the set of URLs."""
from .. import child, dom, gen, ref
from ..engine import Stream
from ..sut import clusters, dump_clusters, keys, new_maker, require

ID = 'C08'
TITLE = 'Clusters depend only on the set of URLs, not on order, repeats or host'
RULE = ('URL sets as for C01; the clusters of the set are compared with those of a '
        'permutation with repetitions, of the same paths under other schemes, hosts '
        'and ;params, and of a fresh interpreter with another hash seed. Non-trivial: '
        'some cluster generalises >= 2 distinct URLs.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def by_ident(cls, ids):
    """{(pattern, frozenset of ident numbers)} + counts; metas are URLs."""
    return sorted((c.pattern, tuple(sorted(set(ids[m] for m in c.metas))), c.count)
                  for c in cls)


def check(case):
    urls = case['urls']
    idents = {}
    ids = {}
    for u in urls:
        ids[u] = idents.setdefault(ref.ref_parse(u).ident, len(idents))
    base = clusters(urls, case['mcn'])
    want = by_ident(base, ids)
    again = gen.reorder(case['seed'], urls + [u for u in case['dups'] if u in ids])
    got = by_ident(clusters(again, case['mcn']), ids)
    require(got == want, 'clusters depend on order or repeats: %r vs %r', want, got)
    # other hosts
    moved = []
    for i, u in enumerate(urls):
        s = ref.ref_parse(u)
        v = case['hosts'][i % len(case['hosts'])] + s.text
        if case['params']:
            cut = min([k for k in (v.find('?'), v.find('#')) if k >= 0] or [len(v)])
            v = v[:cut] + case['params'] + v[cut:]
        if not dom.url_ok(v) or ref.ref_parse(v).ident != s.ident:
            v = u
        ids[v] = ids[u]
        moved.append(v)
    got = by_ident(clusters(moved, case['mcn']), ids)
    require(got == want, 'clusters depend on scheme, host or params: %r vs %r', want, got)
    return any(len(w[1]) > 1 for w in want), dom.shape_labels(urls, base)


def gen_large(r):
    return gen_case(r, gen.large_case(r))


def gen_case(r, c=None):
    c = gen.cluster_case(r) if c is None else c
    c['seed'] = r.randrange(1000000)
    c['dups'] = [r.choice(c['urls']) for _ in range(r.randrange(5))] if c['urls'] else []
    c['hosts'] = [r.choice(gen.SCHEMES) + r.choice(gen.HOSTS)
                  for _ in range(3)]
    c['params'] = r.choice(['', '', ';' + r.choice(gen.PARAMS)])
    return c


def check_hashseed(case):
    jobs = [{'do': 'clusters', 'urls': c['urls'], 'mcn': c['mcn']} for c in case['sets']]
    res = child.run(jobs, case['hashseed'])
    nontrivial = False
    for c, there in zip(case['sets'], res):
        here = keys(clusters(c['urls'], c['mcn']))
        there = sorted((p, tuple(m), n) for p, m, n in there)
        require(here == there, 'clusters of %r differ with PYTHONHASHSEED=%s: %r vs %r',
                c['urls'], case['hashseed'], here, there)
        nontrivial = nontrivial or any(len(k[1]) > 1 for k in here)
    return nontrivial, []


def gen_hashseed(r):
    return {'sets': [gen.cluster_case(r) for _ in range(40)],
            'hashseed': 1 + r.randrange(1000000)}


def valid(c):
    return dom.cluster_case_ok(c) and c['hosts'] and \
        all(dom.url_ok(h + '/') for h in c['hosts']) and c['params'][:1] in ('', ';')


STREAMS = [
    Stream('extreme', lambda r: gen_case(r, gen.extreme_case(r)), check, valid, quick=200, thorough=12000,
           hyp_quick=0, hyp_thorough=0, frozen=('hosts', 'params')),
    Stream('huge', lambda r: gen_case(r, gen.huge_case(r)), check, valid, quick=12, thorough=300,
           hyp_quick=0, hyp_thorough=0,
           frozen=('hosts', 'params')),
    Stream('large', gen_large, check, valid, quick=200, thorough=8000,
           hyp_quick=0, hyp_thorough=0, frozen=('hosts', 'params')),
    Stream('sets', gen_case, check, valid,
           quick=5000, thorough=150000, hyp_quick=160, hyp_thorough=3000,
           frozen=('hosts', 'params')),
    Stream('hashseed', gen_hashseed, check_hashseed,
           lambda c: bool(c['sets']) and all(dom.cluster_case_ok(x) for x in c['sets']),
           quick=48, thorough=1200, hyp_quick=0, hyp_thorough=0),
]
