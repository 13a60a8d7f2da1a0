"""Histories of a maker."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (REJECTED, clusters, diff, dump_clusters, keys, new_maker, parse, pformat,
                   require)

ID = 'C21'
TITLE = 'Clustering reflects all URLs loaded so far, whatever was done before'
RULE = ('Histories over two makers: load, reload, rejected load, make, combined make, '
        'abandoned make, formatting; after each make the clusters must be those of a '
        'fresh maker with the URLs loaded so far. Non-trivial: some make follows loads '
        'that follow an earlier make, and the clusters differ between them.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    makers = [new_maker(m) for m in case['mcn']]
    urls = [[] for _ in makers]
    idents = [set() for _ in makers]
    last = [None for _ in makers]
    nontrivial = False
    labels = set()
    for op in case['ops']:
        i = op[1] % len(makers)
        mk = makers[i]
        labels.add(op[0])
        if op[0] == 'load':
            ident = ref.ref_parse(op[2]).ident
            new = ident not in idents[i]
            idents[i].add(ident)
            _, is_new = mk.load(op[2], meta=op[2])
            require(is_new == new, 'load(%r): is_new=%r', op[2], is_new)
            urls[i].append(op[2])
        elif op[0] == 'bad':
            try:
                mk.load(op[2], meta=op[2])
            except REJECTED:
                continue
            require(False, '%r is accepted', op[2])
        elif op[0] == 'combine':
            for meta, root in mk.make(combine=True):
                list(pformat('null', meta, root))
        elif op[0] == 'abandon':
            for meta, root in mk.make():
                list(pformat('cluster', meta, root))
                break
        elif op[0] == 'make':
            got = keys(dump_clusters(mk.make()))
            want = keys(clusters(urls[i], case['mcn'][i]))
            require(got == want, 'after this history the maker gives other clusters than '
                    'a fresh one: %s', diff(got, want))
            if last[i] is not None and last[i] != got:
                nontrivial = True
            last[i] = got
    return nontrivial, sorted(labels)


def gen_large(r):
    return gen_case(r, [gen.large_case(r)['urls'] for _ in range(1 + r.randrange(2))])


def gen_case(r, pools=None):
    n = 1 + r.randrange(2)
    pools = [gen.url_set(r, 14) for _ in range(n)] if pools is None else pools
    n = len(pools)
    if n == 2 and gen.chance(r, 1, 2):
        pools[1] = gen.shuffle(r, pools[0])
    ops = []
    for i, p in enumerate(pools):
        for u in p:
            ops.append(['load', i, u])
    k = len(ops)
    for _ in range(3 + r.randrange(3)):
        op = r.choice(['make', 'make', 'combine', 'abandon', 'bad'])
        o = [op, r.randrange(n)]
        if op == 'bad':
            o.append(r.choice(['http://e.com/`', 'http://e.com', '/a', 'http://e.com/a?&',
                               'http://e.com/é/a']))
        ops.insert(r.randrange(len(ops) + 1), o)
    for i in range(n):
        ops.append(['make', i])
    return {'mcn': [gen.mcn(r) for _ in range(n)], 'ops': ops}


def valid(case):
    return bool(case['mcn']) and all(m >= 2 for m in case['mcn']) and \
        all(len(o) == (3 if o[0] in ('load', 'bad') else 2) and
            (o[0] != 'load' or dom.url_ok(o[2])) and
            (o[0] != 'bad' or o[2] in ('http://e.com/`', 'http://e.com', '/a',
                                       'http://e.com/a?&', 'http://e.com/é/a'))
            and o[0] in ('load', 'bad', 'make', 'combine', 'abandon')
            for o in case['ops'])


STREAMS = [
    Stream('extreme', lambda r: gen_case(r, [gen.extreme_case(r)["urls"]]), check, valid, quick=150, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', lambda r: gen_case(r, [gen.huge_case(r)['urls']]), check, valid, quick=12, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, valid, quick=100, thorough=4000,
           hyp_quick=0, hyp_thorough=0),
    Stream('history', gen_case, check, valid, quick=4000, thorough=120000,
           hyp_quick=160, hyp_thorough=3000),
]
