"""Best match."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import metas, new_matcher, require
from . import c04, c05

ID = 'C06'
TITLE = 'The best match is the most specific pattern, whatever the load order'
RULE = ('Several canonical patterns that match one URL are loaded in two orders; the '
        'results are sorted as the README says. Oracle: an independent ranking (the '
        'rightmost differing component decides; literal > split by runs > mixed '
        'split > last-dot split > fixed length > wildcard; then the sub-pieces from '
        'the right, literal > fixed > wildcard). Non-trivial: >= 3 patterns match.')
ASSUMPTIONS = ['patterns are of the forms that clustering produces']


def check(case):
    u = case['url']
    results = []
    for pats in (case['patterns'], gen.reorder(case['seed'], case['patterns'])):
        res = new_matcher(pats).match(u)
        results.append(metas(sorted(res, reverse=True)))
        best = metas([max(res)])[0] if res else None
        require(not res or best == results[-1][0], 'max() and sorted() disagree')
    a, b = results
    require(sorted(a) == sorted(set(case['patterns'])),
            'matched patterns: %r, loaded: %r', a, case['patterns'])
    require(a == b, 'the ranking depends on the load order: %r vs %r', a, b)
    for i in range(len(a)):
        for j in range(i + 1, len(a)):
            require(ref.better(a[j], a[i]) is not True,
                    'for URL %r, %r is ranked above the more specific %r', u, a[i], a[j])
    return len(a) >= 3, ['%d matched' % min(len(a), 6)]


def gen_large(r):
    return gen_case(r, 20 + r.randrange(60))


def gen_case(r, n=None):
    base = c04.one_url(r)
    s = ref.ref_parse(base)
    pats = []
    for _ in range(2 + r.randrange(6) if n is None else n):
        if pats and gen.chance(r, 1, 2):
            # change one or two components of an earlier one
            comps = list(r.choice(pats))
            for _ in range(1 + r.randrange(2)):
                i = r.randrange(len(comps))
                comps[i] = gen.component_pattern(r, s.components[i], i == len(s.path) - 1)
        else:
            comps = [gen.component_pattern(r, c, i == len(s.path) - 1)
                     for i, c in enumerate(s.components)]
        if comps not in pats:
            pats.append(comps)
    pats = [s.url_pattern(c) for c in pats]
    return {'url': base, 'patterns': pats, 'seed': r.randrange(1000)}


def valid(case):
    if not dom.url_ok(case['url']) or not case['patterns'] or \
            len(set(case['patterns'])) != len(case['patterns']):
        return False
    s = ref.ref_parse(case['url'])
    return c04.valid({'patterns': case['patterns'], 'urls': [case['url']]}) and \
        all(ref.url_matches(p, s) for p in case['patterns'])


STREAMS = [
    Stream('large', gen_large, check, valid, quick=240, thorough=8000,
           hyp_quick=0, hyp_thorough=0),
    Stream('rank', gen_case, check, valid, quick=36000, thorough=1000000,
           hyp_quick=240, hyp_thorough=4000),
]
