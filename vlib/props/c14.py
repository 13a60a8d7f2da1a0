"""Formatters agree with each other and with the clusters."""
import json

from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (FORMATTERS, load_all, new_maker, pformat, require)

ID = 'C14'
TITLE = 'All output formats describe the same clusters'
RULE = ('URL sets as for C01; for every cluster the PATTERN, CLUSTER, INLINE, JSON and '
        'NULL formats (format names in any letter case) are compared with each other '
        'and with the structure of the URLs; ETE output is compared with an '
        'independent rendering of the combined tree. Non-trivial: a cluster with >= 2 '
        'members (make) or a tree with >= 2 leaves (ete).')
ASSUMPTIONS = ['ete3 is installed for the ETE format; without it only its absence is allowed']

NAMES = ('PATTERN', 'CLUSTER', 'INLINE', 'JSON', 'NULL')


def fmt(case, name, meta, root):
    style = case['style']
    name = name.lower() if style == 0 else name.capitalize() if style == 1 else name
    return list(pformat(name, meta, root))


def check(case):
    urls = case['urls']
    if case['shared']:
        return check_shared(case)
    mk = load_all(new_maker(case['mcn']), urls)
    st = dom.structs(urls)
    wide = False
    seen = []
    made = list(mk.make())
    interleaved(case, made)
    for meta, root in made:
        out = {n: fmt(case, n, meta, root) for n in NAMES}
        require(len(out['PATTERN']) == 1, 'PATTERN gave %r', out['PATTERN'])
        p = out['PATTERN'][0]
        require(out['CLUSTER'][:1] == [p], 'CLUSTER heads %r, PATTERN %r',
                out['CLUSTER'][:1], p)
        members = []
        for l in out['CLUSTER'][1:]:
            require(l[:1] == '\t', 'CLUSTER member line %r', l)
            members.append(l[1:])
        require(members, 'no members for %r', p)
        inline = []
        for l in out['INLINE']:
            head, tab, m = l.partition('\t')
            require(head == p and tab, 'INLINE line %r for the pattern %r', l, p)
            inline.append(m)
        require(sorted(inline) == sorted(members), 'INLINE members %r, CLUSTER %r',
                inline, members)
        require(len(out['JSON']) == 1, 'JSON gave %r', out['JSON'])
        js = json.loads(out['JSON'][0])
        require(js == {'ptn': p, 'cnt': js.get('cnt')}, 'JSON gave %r for %r', js, p)
        idents = {st[m].ident for m in members}
        require(js['cnt'] == len(idents), 'JSON counts %r, members %d', js['cnt'], len(idents))
        require(out['NULL'] == [], 'NULL gave %r', out['NULL'])
        for n in NAMES:
            require(fmt(case, n, meta, root) == out[n] or
                    sorted(fmt(case, n, meta, root)) == sorted(out[n]),
                    'formatting twice with %s differs', n)
        # the pattern has the structure of its members
        for m in members:
            q, s = ref.split_pattern(p), st[m]
            require((len(q.path), q.keys, q.fragment is not None) ==
                    (len(s.path), s.norm_keys, s.fragment is not None),
                    'pattern %r and member %r have different structures', p, m)
        wide = wide or len(members) > 1
        seen += members
    require(sorted(seen) == sorted(set(urls)), 'members of all clusters: %r', seen)
    return wide, dom.shape_labels(urls, [])


def interleaved(case, made):
    """The records of several clusters, drawn in turn."""
    made = made[:6]
    for n in NAMES:
        its = [pformat(n, meta, root) for meta, root in made]
        outs = [[] for _ in its]
        open_ = list(range(len(its)))
        while open_:
            for i in list(open_):
                try:
                    outs[i].append(next(its[i]))
                except StopIteration:
                    open_.remove(i)
        for (meta, root), out in zip(made, outs):
            want = list(pformat(n, meta, root))
            require(sorted(out) == sorted(want), '%s of several clusters in turn gave %r, '
                    'one after the other %r', n, out, want)


def check_shared(case):
    """URLs with the same metadata, several ones or none."""
    urls = case['urls']
    mk = new_maker(case['mcn'])
    for i, u in enumerate(urls):
        mk.load(u, meta=[None, 'm', 'n', i, 0][(i * case['shared']) % 5])
    wide = False
    for meta, root in mk.make():
        out = {n: fmt(case, n, meta, root) for n in NAMES}
        require(len(out['PATTERN']) == 1, 'PATTERN gave %r', out['PATTERN'])
        p = out['PATTERN'][0]
        require(out['CLUSTER'][:1] == [p], 'CLUSTER heads %r', out['CLUSTER'][:1])
        a = sorted(p + l for l in out['CLUSTER'][1:])
        require(a == sorted(out['INLINE']), 'CLUSTER members of %r: %r, INLINE: %r',
                p, a, out['INLINE'])
        js = [json.loads(l) for l in out['JSON']]
        require(len(js) == 1 and js[0]['ptn'] == p, 'JSON gave %r for %r', js, p)
        require(out['NULL'] == [], 'NULL gave %r', out['NULL'])
        wide = wide or len(a) > 1
    return wide, ['shared metadata']


def label(node, meta, level):
    n, q = meta.path_depth, len(meta.query_keys)
    sep = key = ''
    if n < level <= n + q:
        sep = '[\\?]' if level == n + 1 else '&'
        key = meta.query_keys[level - n - 1]
    elif level == n + q + 1:
        sep = '#'
    return ' %s%s%s(%d) ' % (sep, key, node.value, node.count)


def check_ete(case):
    try:
        import ete3
    except ImportError:
        require('ETE' not in FORMATTERS, 'ETE is offered without ete3')
        return False, ['no ete3']
    require('ETE' in FORMATTERS, 'the ETE format is missing')
    urls = case['urls']
    mk = load_all(new_maker(case['mcn']), urls)
    st = dom.structs(urls)
    patterns = []
    for meta, root in mk.make():
        patterns.append((tuple(meta), fmt(case, 'PATTERN', meta, root)[0],
                         json.loads(fmt(case, 'JSON', meta, root)[0])['cnt']))
    nontrivial = False
    got = []
    for meta, root in mk.make(combine=True):
        out = fmt(case, 'ETE', meta, root)
        require(len(out) == 1, 'ETE gave %d records', len(out))

        def build(node, level):
            t = ete3.Tree(name=label(node, meta, level))
            for k in node.children:
                t.add_child(build(k, level + 1))
            return t

        def walk(node, path):
            kids = list(node.children)
            if not kids:
                got.append((tuple(meta), path_text(meta, path), node.count))
            for k in kids:
                walk(k, path + [str(k.value)])
        walk(root, [])
        want = build(root, 0).get_ascii(show_internal=True)
        require(out[0] == want, 'ETE output:\n%s\nexpected:\n%s', out[0], want)
        nontrivial = nontrivial or len(list(root.children)) > 1
    require(sorted(got) == sorted(patterns), 'ETE tree has %r, clusters are %r',
            sorted(got)[:5], sorted(patterns)[:5])
    return nontrivial, []


def path_text(meta, pats):
    n, q = meta.path_depth, len(meta.query_keys)
    t = '/' + '/'.join(pats[:n])
    if q:
        t += '[\\?]' + '&'.join(k + v for k, v in zip(meta.query_keys, pats[n:n + q]))
    if meta.has_fragment:
        t += '#' + pats[n + q]
    return t


def gen_large(r):
    return gen_case(r, gen.large_case(r))


def gen_case(r, c=None):
    c = gen.cluster_case(r) if c is None else c
    c['style'] = r.randrange(3)
    c['shared'] = (0, 0, 0, 1, 2)[r.randrange(5)]
    return c


STREAMS = [
    Stream('extreme', lambda r: gen_case(r, gen.extreme_case(r)), check, dom.cluster_case_ok, quick=200, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', lambda r: gen_case(r, gen.huge_case(r)), check, dom.cluster_case_ok, quick=12, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, dom.cluster_case_ok, quick=160, thorough=6000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge-ete', lambda r: gen_case(r, gen.huge_case(r, (1, 1, 5))), check_ete,
           dom.cluster_case_ok, quick=16, thorough=200, hyp_quick=0, hyp_thorough=0),
    Stream('large-ete', gen_large, check_ete, dom.cluster_case_ok, quick=80,
           thorough=3000, hyp_quick=0, hyp_thorough=0),
    Stream('formats', gen_case, check, dom.cluster_case_ok, quick=5000, thorough=150000,
           hyp_quick=160, hyp_thorough=3000),
    Stream('ete', gen_case, check_ete, dom.cluster_case_ok, quick=1200, thorough=40000,
           hyp_quick=40, hyp_thorough=500),
]
