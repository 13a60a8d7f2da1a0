"""Strict matching semantics."""
import re

from .. import dom, gen, ref
from ..engine import Stream
from ..sut import REJECTED, metas, new_matcher, require

ID = 'C04'
TITLE = 'A pattern matches exactly the URLs its strict semantics allow'
RULE = ('A URL, canonical patterns abstracted from it (literal, fixed length or '
        'wildcard; whole, per run, mixed or last-dot split; char spaces in any order '
        'inside a class), and near-miss URLs (chars, lengths, order and structure changed). Each '
        '(pattern, URL) is decided by the SUT and by an independent matcher. '
        'Non-trivial: at least one of the pairs matches with a non-literal unit and '
        'one with the same fuzzy digest does not match.')
ASSUMPTIONS = ['patterns are of the forms that clustering produces, up to the order '
               'of the char spaces within one class']


def check(case):
    pats, urls = case['patterns'], case['urls']
    st = dom.structs(urls)
    for p in pats:
        m = new_matcher([p])
        canon = ref_canon(p)
        for u, s in st.items():
            got = metas(m.match(u))
            want = [p] if ref.url_matches(canon, s) else []
            require(got == want, 'pattern %r against URL %r: matched %r, expected %r',
                    p, u, got, want)
            if got:
                # README: a pattern is a normal regex for path+query+fragment
                require(re.match('^(?:%s)$' % p, s.text),
                        'matched, but not as a regex: %r vs %r', p, s.text)
    # all of them in one matcher, each URL after all others
    m = new_matcher(pats)
    us = list(st.items())
    for u, s in us + us[::-1]:
        got = sorted(metas(m.match(u)))
        want = sorted(p for p in set(pats) if ref.url_matches(ref_canon(p), s))
        require(got == want, 'URL %r against the patterns %r: matched %r, expected %r',
                u, pats, got, want)
    labels = set()
    hit = miss = False
    for p in pats:
        sig = {ref.url_matches(ref_canon(p), s) for s in st.values()}
        if True in sig and ('a-z' in p or 'A-Z' in p or '0-9' in p or ']+' in p):
            hit = True
        if False in sig:
            miss = True
        labels.update(('wildcard' if ']+' in p else 'no wildcard',
                       'query' if '[\\?]' in p else 'no query'))
    return hit and miss, sorted(labels)


def ref_canon(p):
    return p            # class_rules() is order independent


def one_url(r):
    if gen.chance(r, 1, 100):
        u = r.choice(gen.extreme_case(r)['urls'])
        if len(u) < 6000 and dom.url_ok(u):
            return u
    for _ in range(4):
        u = r.choice(gen.any_tails(r, 3))
        u = 'http://e.com' + u
        if dom.url_ok(u):
            return u
    return 'http://e.com/a1-b2.html'


def gen_case(r):
    base = one_url(r)
    s = ref.ref_parse(base)
    pats = []
    for _ in range(1 + r.randrange(4) + (r.randrange(6) if gen.chance(r, 1, 5) else 0)):
        p = gen.url_pattern(r, s)
        if gen.chance(r, 1, 4):
            p = gen.permute_classes(r, p)
        pats.append(p)
    urls = [base]
    for _ in range(6):
        u = gen.variant(r, s, not gen.chance(r, 1, 4))
        if dom.url_ok(u):
            urls.append(u)
            if gen.chance(r, 1, 2):
                u = gen.variant(r, ref.ref_parse(u))
                if dom.url_ok(u):
                    urls.append(u)
    for _ in range(2):
        u = gen.perturb(r, base)
        if dom.url_ok(u):
            urls.append(u)
            if gen.chance(r, 1, 3):
                pats.append(gen.url_pattern(r, ref.ref_parse(u)))
    return {'patterns': pats, 'urls': urls}


def valid(case):
    if not case['patterns'] or not dom.urls_ok(case['urls']):
        return False
    for p in case['patterns']:
        if not p.startswith('/'):
            return False
        q = ref.split_pattern(p)
        for i, c in enumerate(q.components):
            if not canonical_component(c, i == len(q.path) - 1):
                return False
    return True


def canonical_component(c, last_path):
    try:
        units = ref.parse_component(c)
    except (ValueError, KeyError):
        return False
    for a, b in zip(units, units[1:]):
        # adjacent units of one segmentation never share a char space
        if a.rules & b.rules:
            return False
        if a.rules <= ref.MIXABLE and b.rules <= ref.MIXABLE and \
                (len(a.rules) > 1 or len(b.rules) > 1):
            return False
    for u in units:
        if len(units) > 1 and len(u.rules) > 1 and not u.rules <= ref.MIXABLE:
            if not last_path or u is not units[0] or len(units) < 2 or \
                    units[1].rules != {ref.DOT} or \
                    any(x.kind != 'L' for x in units[1:]) or \
                    any(not x.rules <= ref.MAJOR for x in units[2:]):
                return False
        if u.kind == 'L' and u.text != ref.literal(u.raw):
            return False
        if u.num is not None and u.num < len(u.rules):
            return False
    return True


def check_sound(case):
    """Any accepted pattern: what it matches, it also matches as a regex and with
    exactly its char spaces; matching never crashes."""
    p, urls = case['pattern'], case['urls']
    try:
        m = new_matcher([p])
    except REJECTED:
        return False, ['rejected']
    st = dom.structs(urls)
    hit = False
    for u, s in st.items():
        got = metas(m.match(u))
        require(got in ([], [p]), 'pattern %r loaded alone gave %r', p, got)
        if got:
            hit = True
            require(re.match('^(?:%s)$' % p, s.text),
                    'URL %r matched, but not as a regex: %r', u, p)
            q = ref.split_pattern(p)
            require((len(q.path), q.keys, q.fragment is not None) ==
                    (len(s.path), s.norm_keys, s.fragment is not None),
                    'URL %r of another structure matched %r', u, p)
            for pc, uc in zip(q.components, s.components):
                rules = set()
                for x in ref.parse_component(pc):
                    rules |= x.rules
                require(rules == ref.spaces(uc), 'component %r uses other char spaces '
                        'than %r, but matched (pattern %r)', uc, pc, p)
    return hit, ['matched' if hit else 'accepted, no match']


def gen_sound(r):
    base = one_url(r)
    s = ref.ref_parse(base)
    comps = []
    for t in s.components:
        rs = ref.seg_runs(t)
        segs, i = [], 0
        while i < len(rs):
            j = min(len(rs), i + 1 + (0, 0, 0, 1, 1, 2, 9)[r.randrange(7)])
            raw = ''.join(x for x, _ in rs[i:j])
            segs.append((raw, ref.klass(ref.spaces(raw))))
            i = j
        c = gen.abstract_segs(r, segs)
        if c and gen.chance(r, 1, 6):
            k = r.randrange(len(c) + 1)
            c = c[:k] + r.choice(['a', '1', '[a-z]', '[0-9]+', '[0-9a-z]{2}', '[\\.]']) + c[k:]
        comps.append(c)
    urls = [base]
    for _ in range(5):
        u = gen.variant(r, s, not gen.chance(r, 1, 4))
        if dom.url_ok(u):
            urls.append(u)
    return {'pattern': s.url_pattern(comps), 'urls': urls}


STREAMS = [
    Stream('soundness', gen_sound, check_sound,
           lambda c: c['pattern'].startswith('/') and dom.urls_ok(c['urls']),
           quick=8000, thorough=300000, hyp_quick=160, hyp_thorough=3000),
    Stream('semantics', gen_case, check, valid, quick=16000, thorough=500000,
           hyp_quick=240, hyp_thorough=4000),
]
