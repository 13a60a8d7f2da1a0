"""Fuzzy digest."""
from .. import child, dom, gen, ref
from ..engine import Stream
from ..sut import clusters, fuzzy_digest, parse, require
from . import c04

ID = 'C07'
TITLE = 'Equal fuzzy digests mean the same structure and character spaces'
RULE = ('Pools of URLs and canonical patterns with near-identical structure (keys, '
        'key order, depth, fragment, single chars changed); all pairs are compared: '
        'digests are equal iff the independently computed (structure, char spaces per '
        'component) are equal. A second stream compares with fresh interpreters under '
        'other hash seeds. Non-trivial: the pool has equal and unequal pairs.')
ASSUMPTIONS = []


def pattern_signature(p):
    q = ref.split_pattern(p)
    sp = []
    for c in q.components:
        rules = set()
        for u in ref.parse_component(c):
            rules |= u.rules
        sp.append(frozenset(rules))
    return ((len(q.path), q.keys, q.fragment is not None), tuple(sp))


def url_signature(u):
    s = ref.ref_parse(u)
    return ((len(s.path), s.norm_keys, s.fragment is not None),
            tuple(ref.spaces(c) for c in s.components))


def check(case):
    sig_to_dig, dig_to_sig = {}, {}
    n = 0
    for u in case['urls']:
        n += one(u, url_signature(u), sig_to_dig, dig_to_sig)
    for p in case['patterns']:
        n += one(p, pattern_signature(p), sig_to_dig, dig_to_sig)
    return len(sig_to_dig) > 1 and n > len(sig_to_dig), \
        ['patterns' if case['patterns'] else 'urls only']


def one(text, sig, sig_to_dig, dig_to_sig):
    d = fuzzy_digest(text)
    require(isinstance(d, str) and d, 'digest of %r is %r', text, d)
    require(d == fuzzy_digest(text), 'digest of %r changes between calls', text)
    require(d == fuzzy_digest(*parse(text)), 'digest of %r and of its parsed form differ', text)
    other = sig_to_dig.setdefault(sig, (d, text))
    require(other[0] == d, 'same structure and char spaces, but different digests: '
            '%r and %r', other[1], text)
    prev = dig_to_sig.setdefault(d, (sig, text))
    require(prev[0] == sig, 'equal digests, but different structure or char spaces: '
            '%r and %r', prev[1], text)
    return 1


def gen_case(r):
    urls = []
    for _ in range(1 + r.randrange(2)):
        u = c04.one_url(r)
        urls.append(u)
        for _ in range(8):
            b = r.choice(urls)
            v = gen.perturb(r, b) if gen.chance(r, 2, 3) else \
                gen.variant(r, ref.ref_parse(b), gen.chance(r, 1, 2))
            if dom.url_ok(v):
                urls.append(v)
    pats = []
    for u in urls:
        if gen.chance(r, 1, 2):
            p = gen.url_pattern(r, ref.ref_parse(u))
            pats.append(gen.permute_classes(r, p) if gen.chance(r, 1, 3) else p)
    return {'urls': urls, 'patterns': pats}


def valid(case):
    return (not case['patterns'] or
            c04.valid({'patterns': case['patterns'], 'urls': ['http://e.com/a']})) \
        and all(dom.url_ok(u) for u in case['urls'])


def check_made(case):
    """Digest of a made pattern == digest of each member."""
    multi = False
    for c in clusters(case['urls'], case['mcn']):
        d = fuzzy_digest(c.pattern)
        for m in c.metas:
            require(fuzzy_digest(m) == d, 'the made pattern %r and its member %r have '
                    'different digests', c.pattern, m)
        multi = multi or len(c.metas) > 1
    return multi, []


def check_processes(case):
    texts = case['texts']
    here = [fuzzy_digest(t) for t in texts]
    there = child.run([{'do': 'digests', 'texts': texts}], case['hashseed'])[0]
    for t, a, b in zip(texts, here, there):
        require(a == b, 'digest of %r differs between processes: %s %s', t, a, b)
    return len(set(here)) > 1, []


def gen_processes(r):
    texts = []
    for _ in range(25):
        c = gen_case(r)
        texts += c['urls'] + c['patterns']
    return {'texts': texts, 'hashseed': 1 + r.randrange(100000)}


STREAMS = [
    Stream('pool', gen_case, check, valid, quick=6000, thorough=150000,
           hyp_quick=160, hyp_thorough=2500),
    Stream('made-extreme', gen.extreme_case, check_made, dom.cluster_case_ok, quick=150,
           thorough=8000, hyp_quick=0, hyp_thorough=0),
    Stream('pool-extreme', lambda r: {'urls': gen.extreme_case(r)['urls'], 'patterns': []},
           check, valid, quick=300, thorough=12000, hyp_quick=0, hyp_thorough=0),
    Stream('made', gen.cluster_case, check_made, dom.cluster_case_ok, quick=2500,
           thorough=80000, hyp_quick=80, hyp_thorough=1000),
    Stream('processes', gen_processes, check_processes,
           lambda c: bool(c['texts']) and all(dom.url_ok(t) for t in c['texts'] if t[:1] != '/'),
           quick=48, thorough=600, hyp_quick=0, hyp_thorough=0),
]
