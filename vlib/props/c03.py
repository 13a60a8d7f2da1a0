"""Round trip: patterns made from URLs match those URLs again."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (REJECTED, PatternMatcher, clusters, fail, metas, require)

ID = 'C03'
TITLE = 'Patterns made from URLs load into the matcher and match those URLs'
RULE = ('URL sets as for C01; all made patterns are loaded into one PatternMatcher, '
        'each URL is matched; non-trivial: some cluster of >= 2 distinct URLs was '
        'matched back.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    urls = case['urls']
    cls = clusters(urls, case['mcn'])
    pm = PatternMatcher()
    for c in cls:
        try:
            pm.load(c.pattern, meta=c.pattern)
        except REJECTED as e:
            fail('made pattern %r is rejected by the matcher: %r', c.pattern, e)
    nontrivial = False
    st = dom.structs(urls)
    labels = dom.shape_labels(urls, cls)
    for c in cls:
        solo = PatternMatcher()
        solo.load(c.pattern, meta=c.pattern)
        for m in c.metas:
            got = metas(pm.match(m))
            require(c.pattern in got, 'URL %r is not matched by the pattern %r made '
                    'from it (matched: %r)', m, c.pattern, got)
            require(metas(solo.match(m)) == [c.pattern],
                    'URL %r is not matched by its pattern %r loaded alone', m, c.pattern)
            if len(got) > 1:
                labels.append('several patterns match')
        if len(set(st[m].ident for m in c.metas)) > 1:
            nontrivial = True
    return nontrivial, sorted(set(labels))


STREAMS = [
    Stream('extreme', gen.extreme_case, check, dom.cluster_case_ok, quick=300, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', gen.huge_case, check, dom.cluster_case_ok, quick=16, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('sets', gen.cluster_case, check, dom.cluster_case_ok,
           quick=8000, thorough=250000, hyp_quick=240, hyp_thorough=4000),
    Stream('large', gen.large_case, check, dom.cluster_case_ok, quick=240, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
]
