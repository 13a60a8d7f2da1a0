"""No generalisation without enough evidence."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import clusters, require

ID = 'C10'
TITLE = 'Patterns stay literal below the configured minimum cluster size'
RULE = ('URL sets as for C01 with min_cluster_num 2-40 and the default 3; every '
        'cluster with fewer distinct URLs than the minimum must be one URL with its '
        'literal pattern. Non-trivial: literal and generalised clusters in one set, or '
        'a set one URL below the minimum.')
ASSUMPTIONS = ['min_cluster_num >= 2']


def check(case):
    urls = case['urls']
    n = 3 if case['mcn'] is None else case['mcn']
    cls = clusters(urls, case['mcn'])
    st = dom.structs(urls)
    per_sig = {}
    for s in st.values():
        per_sig.setdefault(s.signature, set()).add(s.ident)
    lit = wide = False
    for c in cls:
        idents = {st[m].ident for m in c.metas}
        s = st[c.metas[0]]
        if len(idents) < n:
            require(len(idents) == 1 and c.pattern == s.literal_pattern,
                    '%d distinct URLs (minimum %d) were generalised to %r: %r',
                    len(idents), n, c.pattern, sorted(c.metas)[:5])
        if c.pattern != s.literal_pattern:
            wide = True
        else:
            lit = True
            require(len(idents) == 1, '%d distinct URLs under the literal pattern %r',
                    len(idents), c.pattern)
        if len(per_sig[s.signature]) < n:
            require(c.pattern == s.literal_pattern, 'only %d URLs have this structure '
                    '(minimum %d), but %r', len(per_sig[s.signature]), n, c.pattern)
    border = any(len(v) == n - 1 and n > 2 for v in per_sig.values())
    return (lit and wide) or border, \
        (['mixed'] if lit and wide else []) + (['border'] if border else [])


def gen_large(r):
    c = gen.large_case(r)
    c['mcn'] = (None, 2, 3, 5, 8, 13, 30, 60, 100)[r.randrange(9)]
    return c


def gen_case(r):
    c = gen.cluster_case(r)
    c['mcn'] = (None, 2, 2, 3, 4, 5, 6, 9, 20, 40)[r.randrange(10)]
    return c


STREAMS = [
    Stream('extreme', gen.extreme_case, check, dom.cluster_case_ok, quick=300, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', gen.huge_case, check, dom.cluster_case_ok, quick=16, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('sets', gen_case, check, dom.cluster_case_ok, quick=8000, thorough=250000,
           hyp_quick=240, hyp_thorough=4000),
    Stream('large', gen_large, check, dom.cluster_case_ok, quick=240, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
]
