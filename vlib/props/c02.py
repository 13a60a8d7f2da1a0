"""The pattern of a cluster is a regex which matches each of its URLs."""
import re

from .. import dom, gen
from ..engine import Stream
from ..sut import clusters, fail, parse, require

ID = 'C02'
TITLE = 'Every cluster pattern is a regex matching all URLs of the cluster'
RULE = ('URL sets as for C01; each pattern is compiled with re and full-matched '
        'against the path/query/fragment text of each member; non-trivial: a '
        'generalised pattern with >= 2 members was matched.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    urls = case['urls']
    st = dom.structs(urls)
    cls = clusters(urls, case['mcn'])
    nontrivial = False
    for c in cls:
        try:
            rx = re.compile(c.pattern)
        except re.error as e:
            fail('pattern %r is not a regex: %s', c.pattern, e)
        parts = parse(c.pattern)[1]
        for i, m in enumerate(c.metas):
            if i < 3:
                for x, t in zip(parts, st[m].components):
                    require(x.match(t), 'component %r of the pattern %r does not match %r '
                            'of the member %r', x.pattern_string, c.pattern, t, m)
                    require(not x.match(t + '`'), 'component %r of the pattern %r matches '
                            '%r', x.pattern_string, c.pattern, t + '`')
            text = st[m].text
            require(rx.fullmatch(text), 'pattern %r does not match member %r (%r)',
                    c.pattern, m, text)
        if len(set(st[m].ident for m in c.metas)) > 1:
            nontrivial = True
    return nontrivial, dom.shape_labels(urls, cls)


STREAMS = [
    Stream('extreme', gen.extreme_case, check, dom.cluster_case_ok, quick=300, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', gen.huge_case, check, dom.cluster_case_ok, quick=16, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('sets', gen.cluster_case, check, dom.cluster_case_ok,
           quick=12000, thorough=400000, hyp_quick=240, hyp_thorough=4000),
    Stream('large', gen.large_case, check, dom.cluster_case_ok, quick=240, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
]
