"""Counts and metas."""
import json

from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (dump_clusters, new_maker, pformat, require)

ID = 'C13'
TITLE = 'Counts, newness and metas of clusters and combined trees add up'
RULE = ('URL sets as for C01 loaded with metas (none, one, several per URL, shared, '
        'non-string); oracle: a dict of distinct URLs and their metas. Combined trees '
        'must list every cluster once with its count, inner counts being the sums. '
        'Non-trivial: duplicates or several metas for one URL, and a cluster of >= 2 '
        'distinct URLs.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'metas are hashable']


def leaves(root):
    """[(pattern strings, count)], checking the sums on the way."""
    out = []

    def walk(node, prefix):
        kids = list(node.children)
        if prefix is None:
            here = ()
        else:
            here = prefix + (str(node.value),)
        if not kids:
            out.append((here, node.count))
            return
        total = sum(k.count for k in kids)
        require(node.count == total, 'combined tree: node %r counts %d, its children %d',
                str(node.value), node.count, total)
        for k in kids:
            walk(k, here)
    walk(root, None)
    return out


def check(case):
    loads, mcn = case['loads'], case['mcn']
    mk = new_maker(mcn)
    seen, st = {}, {}
    dup = multi = False
    for u, meta in loads:
        if isinstance(meta, list):
            meta = tuple(meta)
        s = st[u] = ref.ref_parse(u)
        node, is_new = mk.load(u, meta=meta)
        require(is_new == (s.ident not in seen), 'load(%r): is_new=%r', u, is_new)
        dup = dup or not is_new
        ms = seen.setdefault(s.ident, set())
        if meta is not None:
            ms.add(meta)
        multi = multi or len(ms) > 1
    by_sig = {}
    sample = {}
    for u, s in st.items():
        by_sig.setdefault(s.signature, set()).add(s.ident)
        sample[s.ident] = s
    # one cluster at a time, read through the formatters
    expected = {}
    for i, ms in seen.items():
        for m in ms:
            expected.setdefault(str(m), set()).add(i)
    total = 0
    clusters, wide = {}, False
    for meta, c in mk.make():
        lines = list(pformat('cluster', meta, c))
        js = json.loads(list(pformat('json', meta, c))[0])
        require(js['ptn'] == lines[0], 'json %r, cluster %r', js, lines[0])
        total += js['cnt']
        clusters.setdefault((tuple(meta), lines[0]), []).append((js['cnt'], sorted(lines[1:])))
        wide = wide or js['cnt'] > 1
    require(total == len(seen), 'counts add up to %d, loaded %d distinct URLs',
            total, len(seen))
    # members by the independent strict matcher: which URLs belong to a cluster
    for (meta, pattern), entries in clusters.items():
        require(len(entries) == 1, 'pattern %r is made twice', pattern)
    owner = {}
    alike = {}
    for k in clusters:
        alike.setdefault(k[0], []).append(k)
    for i, s in sample.items():
        meta = (len(s.path), s.norm_keys, s.fragment is not None)
        fit = [k for k in alike.get(meta, ()) if ref.url_matches(k[1], s)]
        require(fit, 'no cluster for %r', s.text)
        owner[i] = fit
    for k, [(cnt, lines)] in clusters.items():
        sure = [i for i in owner if owner[i] == [k]]
        maybe = [i for i in owner if k in owner[i]]
        require(len(sure) <= cnt <= len(maybe), 'pattern %r counts %d, but between %d '
                'and %d distinct URLs can be its members', k[1], cnt, len(sure), len(maybe))
        if len(sure) == len(maybe):
            # one line per meta object of each URL
            want = sorted('\t' + str(m) for i in sure for m in seen[i])
            require(lines == want, 'pattern %r: metas %r, expected %r', k[1], lines, want)
    # combined
    roots = list(mk.make(combine=True))
    require(len(roots) == len(by_sig), '%d combined trees for %d structures',
            len(roots), len(by_sig))
    combined = []
    for meta, root in roots:
        ls = leaves(root)
        require(root.count == sum(n for _, n in ls), 'combined root counts %d', root.count)
        for pats, n in ls:
            s = ref.Struct(pats[:meta.path_depth], (), (), None)
            t = '/' + '/'.join(pats[:meta.path_depth])
            q = len(meta.query_keys)
            if q:
                t += '[\\?]' + '&'.join(
                    k + v for k, v in zip(meta.query_keys,
                                          pats[meta.path_depth:meta.path_depth + q]))
            if meta.has_fragment:
                t += '#' + pats[meta.path_depth + q]
            combined.append(((tuple(meta), t), n))
    require(sorted(combined, key=repr) ==
            sorted(((k, v[0][0]) for k, v in clusters.items()), key=repr),
            'combined tree lists %r, clusters are %r', sorted(combined, key=repr)[:6],
            sorted(clusters.items(), key=repr)[:6])
    return (dup or multi) and wide, (['duplicates'] if dup else []) + \
        (['several metas'] if multi else [])


def gen_huge(r):
    c = gen.huge_case(r)
    c['urls'] = c['urls'][:1000]
    return gen_case(r, c)


def gen_large(r):
    return gen_case(r, gen.large_case(r))


def gen_case(r, c=None):
    c = gen.cluster_case(r) if c is None else c
    loads = []
    pool = ['m', 'n', 1, 2, 'x y', '', '1']
    if gen.chance(r, 1, 4):
        pool = [0, -1, 1.5, '0', '\u00e9\u4e2d', 'x' * 300, ['a', 1], [], 'None', '/a', 10 ** 20,
                "('a', 1)", '1.5']
    style = r.randrange(4)
    for u in c['urls']:
        meta = u
        if style == 0:
            meta = None
        elif style == 1:
            meta = r.choice(pool)
        elif style == 2 and gen.chance(r, 1, 3):
            meta = None
        loads.append([u, meta])
        while gen.chance(r, 1, 6):
            loads.append([r.choice(c['urls']), r.choice(pool + [None])])
    return {'mcn': c['mcn'], 'loads': gen.shuffle(r, loads)}


def gen_many(r):
    """Hundreds of metas for one URL, hundreds of times the same."""
    c = gen_case(r)
    u = r.choice(c['loads'])[0]
    n = 200 + r.randrange(r.choice([400, 5000]))
    c['loads'] += [[u, r.choice(['m', 'n%d' % i, i])] for i in range(n)]
    return c


def valid(case):
    return case['mcn'] >= 2 and case['loads'] and \
        all(len(l) == 2 and dom.url_ok(l[0]) for l in case['loads'])


STREAMS = [
    Stream('metas', gen_many, check, valid, quick=80, thorough=3000, hyp_quick=0,
           hyp_thorough=0),
    Stream('extreme', lambda r: gen_case(r, gen.extreme_case(r)), check, valid, quick=200, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', gen_huge, check, valid, quick=16, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, valid, quick=200, thorough=8000,
           hyp_quick=0, hyp_thorough=0),
    Stream('sets', gen_case, check, valid, quick=6000, thorough=200000,
           hyp_quick=200, hyp_thorough=3000),
]
