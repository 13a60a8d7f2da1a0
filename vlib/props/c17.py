"""Pattern strings."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (InvalidPatternException, PatternMatcher, metas, parse, require)
from os_urlpattern.parse_utils import (analyze_url_pattern_string, pack,
                                       parse_pattern_string)
from os_urlpattern.pattern import Pattern, PatternUnit
from . import c04

ID = 'C17'
TITLE = 'Pattern strings parse exactly and malformed ones are rejected'
RULE = ('Canonical URL patterns over all legal chars: parsing gives structure, '
        'components and units back (parse/pack round trip, char spaces, number, '
        'literal or not). Corrupted patterns of known kinds must raise '
        'InvalidPatternException and leave a loaded matcher as it was. Non-trivial: a '
        'pattern with >= 3 units, or a rejected corruption.')
ASSUMPTIONS = ['patterns are of the forms that clustering produces, up to the order '
               'of the char spaces within one class']


def check(case):
    p = case['pattern']
    want = ref.split_pattern(p)
    meta, comps = analyze_url_pattern_string(p)
    require((meta.path_depth, tuple(meta.query_keys), meta.has_fragment) ==
            (len(want.path), want.keys, want.fragment is not None),
            '%r: structure %r, expected %r', p, meta, want.shape)
    require(tuple(comps) == want.components, '%r: components %r, expected %r', p, comps,
            want.components)
    require(pack(meta, comps) == p, '%r is packed to %r', p, pack(meta, comps))
    meta2, parsed = parse(p)
    require(meta2 == meta and tuple(str(x) for x in parsed) == want.components,
            'parse(%r): %r %r', p, meta2, parsed)
    require(pack(meta2, parsed) == p, '%r is packed to %r', p, pack(meta2, parsed))
    total = 0
    for c, sut_p in zip(want.components, parsed):
        units = ref.parse_component(c)
        texts = [u.text for u in units] or ['']
        require(list(parse_pattern_string(c)) == texts, '%r: units %r, expected %r', c,
                parse_pattern_string(c), texts)
        pat = Pattern(c)
        got = pat.pattern_units
        require([u.pattern_unit_string for u in got] == texts, '%r: units %r', c, got)
        rules = set()
        for g, u in zip(got, units):
            num = -1 if u.num is None else u.num
            require(set(g.rules) == u.rules and g.num == num and
                    g.is_literal() == (u.kind == 'L'),
                    'unit %r: char spaces %r, number %r, literal %r; expected %r %r %r',
                    u.text, g.rules, g.num, g.is_literal(), u.rules, num, u.kind == 'L')
            require(g.fuzzy_rule == ref.klass(u.rules), 'unit %r: %r', u.text, g.fuzzy_rule)
            one = PatternUnit(u.text)
            require((set(one.rules), one.num) == (u.rules, num), 'unit %r alone', u.text)
            rules |= u.rules
        require(pat.fuzzy_rule == ref.klass(rules), '%r: char spaces %r', c, pat.fuzzy_rule)
        require(sut_p.fuzzy_rule == pat.fuzzy_rule, '%r: %r', c, sut_p.fuzzy_rule)
        require(Pattern(c) == pat and hash(Pattern(c)) == hash(pat) and str(pat) == c,
                'Pattern(%r) is not equal to itself', c)
        total += len(units)
    return total >= 3, ['query' if want.keys else 'no query']


def gen_pattern(r):
    s = ref.ref_parse(c04.one_url(r))
    p = gen.url_pattern(r, s)
    return gen.permute_classes(r, p) if gen.chance(r, 1, 3) else p


def gen_long(r):
    """Long components, many units, many components."""
    n = 3 + r.randrange(r.choice([30, 300, 2500]))
    k = r.randrange(4)
    if k == 0:
        t = ''.join(r.choice(['[0-9]+', 'a', '[\\-]', '[A-Z]{%d}' % (2 + i % 120), 'Bc', '[\\\\]+'])
                    for i in range(n))
        t = t.replace(']+[', ']+a[')
        return r.choice(['/' + t, '/x/' + t, '/x[\\?]k=' + t, '/x#' + t])
    if k == 1:
        return '/' + gen.word(r, gen.LOW + gen.DIG, 3 * n) + r.choice(['', '[0-9]+', '#a', '/b'])
    if k == 2:
        return '/' + '/'.join(r.choice(['[0-9]+', 'a', '[\\-]']) for _ in range(n)) + '/z'
    return '/a[\\?]' + '&'.join('k%d=%s' % (i, r.choice(['[0-9]+', 'a', '', '[\\-]']))
                                for i in range(n))


# -- corruptions: the component is no pattern any more -------------------------
def corrupt(r, kind):
    a = r.choice(['', 'abc', '[0-9]+', 'x1', '[a-z]{3}', '[%]'])
    b = r.choice(['', 'z', '[0-9]{2}', '[\\.]html', '[A-Z]+'])
    if kind == 'no closing bracket':
        return a + r.choice(['[', '[a-z', '[0-9a-z', '[\\]', '[\\.', '[\\\\\\]'])
    if kind == 'no closing brace':
        return a + '[a-z]{' + r.choice(['', '3', '12'])
    if kind == 'bad number':
        return a + '[a-z]{' + r.choice(['', 'x', '-1', '1,2', '+', '3a', '1.5', ' 3',
                                      '\u00b2', '\u0663', '\uff13', '1_0', '0x3', '3 ', '1\u0662',
                                      '}', '{3']) + '}' + b
    if kind == 'zero':
        return a + '[' + r.choice(['a-z', '0-9', '\\.', '0-9a-z']) + ']{' + \
            r.choice(['0', '00']) + '}' + b
    if kind == 'number too small':
        return a + r.choice(['[0-9a-z]', '[0-9A-Za-z]{2}', '[\\-a-z]', '[0-9A-Z]{1}',
                             '[%0-9A-Za-z]{3}', '[_\\-]']) + b
    if kind == 'unknown char space':
        return a + '[' + r.choice(['a-f', '0-5', 'abc', 'a', 'z-a', 'A-z', '.', '?', '\\d',
                                   '\\w', '\\a', '0-9a-', '^a-z', '-', '\\%', '(',
                                   '\u00e9', 'a-z ', '\\', '0-9\\', 'a-zA', 'a-z0', '\\s\\.',
                                   '\u0660-\u0669', 'a-z|A-Z', 'a-z-']) + ']' + \
            r.choice(['', '+', '{9}']) + b
    if kind == 'bare sign':
        # '/', '?', '#', '&' and '=' may separate components
        a = a.replace('[%]', 'q')            # '[%]+' would be a pattern
        return a + r.choice('%_@;:,<>~.+\\"\'(){}*$^|!-]') + b
    if kind == 'illegal char':
        return a + r.choice(' \t`\x00é中\u0663\u00b2\uff41') + b
    raise ValueError(kind)


CORRUPTIONS = ['no closing bracket', 'no closing brace', 'bad number', 'zero',
               'number too small', 'unknown char space', 'bare sign', 'illegal char']


def check_corrupt(case):
    pm = PatternMatcher()
    good = case['good']
    for g in good:
        pm.load(g, meta=g)
    before = [metas(pm.match(u)) for u in case['urls']]
    p = case['pattern']
    for f in (lambda x: pm.load(x, meta=x), parse):
        try:
            f(p)
        except InvalidPatternException:
            continue
        require(False, '%r (%s) is accepted as a pattern', p, case['kind'])
    after = [metas(pm.match(u)) for u in case['urls']]
    require(before == after, 'a rejected pattern changed the matches: %r %r', before, after)
    return True, [case['kind']]


def gen_corrupt(r):
    kind = r.choice(CORRUPTIONS)
    base = c04.one_url(r)
    s = ref.ref_parse(base)
    comps = [gen.component_pattern(r, c, i == len(s.path) - 1)
             for i, c in enumerate(s.components)]
    good = [s.url_pattern(comps)]
    i = r.randrange(len(comps))
    q = i - len(s.path)
    if 0 <= q < len(s.keys) and not s.keys[q].endswith('='):
        i = len(s.path) - 1
    comps[i] = corrupt(r, kind)
    return {'kind': kind, 'pattern': s.url_pattern(comps), 'good': good, 'urls': [base]}


STREAMS = [
    Stream('parse', lambda r: {'pattern': gen_pattern(r)}, check,
           lambda c: c['pattern'][:1] == '/' and
           c04.valid({'patterns': [c['pattern']], 'urls': ['http://e.com/a']}),
           quick=70000, thorough=8000000, hyp_quick=300, hyp_thorough=5000),
    Stream('long', lambda r: {'pattern': gen_long(r)}, check,
           lambda c: c['pattern'][:1] == '/' and
           c04.valid({'patterns': [c['pattern']], 'urls': ['http://e.com/a']}),
           quick=800, thorough=30000, hyp_quick=0, hyp_thorough=0),
    Stream('corrupt', gen_corrupt, check_corrupt, lambda c: False, quick=30000,
           thorough=800000, hyp_quick=160, hyp_thorough=2000),
]
