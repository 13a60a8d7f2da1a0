"""URL structure."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (IrregularURLException, InvalidCharException, PatternMaker, fuzzy_digest,
                   parse, require)
from os_urlpattern.parse_utils import (analyze_url, filter_useless, pack,
                                       parse_query_string, parse_url)

ID = 'C15'
TITLE = 'A URL is decomposed into path levels, query keys/values and fragment'
RULE = ('URLs assembled from chosen scheme, host, path segments (empty ones and '
        'trailing slash incl.), ;params, query parts (valued, value-less, key-less, '
        'bare "?") and fragment (bare "#" incl.); the decomposition must give back '
        'what went in. Non-trivial: at least two of query, fragment, params, empty '
        'segment are present.')
ASSUMPTIONS = ['blanks and control chars only as tabs and line breaks inside a URL, which '
               'must be rejected or ignored (the URL splitter of the standard library '
               'drops them)']


def check(case):
    url = assemble(case)
    segs = [s for s in case['path'][:-1] if s] + case['path'][-1:]
    query, frag = case['query'], case['fragment']
    r = parse_url(url)
    if query is None:
        require(r.query is None, '%r: query is %r, there is none', url, r.query)
    else:
        require(r.query == '&'.join(query), '%r: query is %r, expected %r', url, r.query,
                '&'.join(query))
    require(r.fragment == frag, '%r: fragment is %r, expected %r', url, r.fragment, frag)
    keys, values = [], []
    bad = False
    if query is not None:
        if query == ['']:
            keys, values = [''], ['']
        elif '' in query:
            bad = True
        elif len(query) == 1 and '=' not in query[0]:
            keys, values = [''], [query[0]]
        else:
            for q in query:
                k, eq, v = q.partition('=')
                keys.append(k + eq)
                values.append(v)
    if bad:
        for f in (analyze_url, parse, fuzzy_digest, PatternMaker().load):
            try:
                got = f(url)
            except IrregularURLException:
                continue
            require(False, '%r has an empty query part, but is accepted: %r', url, got)
        return True, ['empty query part']
    meta, pieces = analyze_url(url)
    require(meta.path_depth == len(segs), '%r: %d path levels, expected %d', url,
            meta.path_depth, len(segs))
    require(tuple(meta.query_keys) == tuple(ref.norm_key(k) for k in keys),
            '%r: query keys %r, expected %r', url, meta.query_keys, keys)
    require(meta.has_fragment == (frag is not None), '%r: has_fragment=%r', url,
            meta.has_fragment)
    want = segs + values + ([frag] if frag is not None else [])
    require(list(pieces) == want, '%r: pieces %r, expected %r', url, pieces, want)
    require(meta.depth == len(want), '%r: depth %r', url, meta.depth)
    meta2, parsed = parse(url)
    require(meta2 == meta, 'parse() and analyze_url() differ for %r', url)
    require([p.piece for p in parsed] == [ref.literal(w) for w in want],
            '%r: parsed pieces %r, expected the literals of %r', url,
            [p.piece for p in parsed], want)
    # and packing the literal pieces gives the literal pattern
    s = ref.Struct(segs, keys, values, frag)
    require(pack(meta, [p.piece for p in parsed]) == s.literal_pattern,
            '%r packs to %r, expected %r', url, pack(meta, [p.piece for p in parsed]),
            s.literal_pattern)
    feats = [f for f, on in (('query', query is not None), ('fragment', frag is not None),
                             ('params', case['params'] is not None),
                             ('empty segment', '' in case['path'])) if on]
    return len(feats) > 1, feats


def check_breaks(case):
    """Tabs and line breaks in a URL are rejected or make no difference."""
    url = assemble(case)
    try:
        meta, parsed = parse(url)
        want = meta, [p.piece for p in parsed]
    except (IrregularURLException, InvalidCharException) as e:
        want = type(e)
    t = url
    for at, c in case['breaks']:
        at = min(at, len(t))
        t = t[:at] + c + t[at:]
    try:
        meta, parsed = parse(t)
        got = meta, [p.piece for p in parsed]
    except InvalidCharException:
        return want is not InvalidCharException, ['rejected']
    except IrregularURLException as e:
        got = type(e)
    require(got == want, '%r is parsed as %r, but %r as %r', t, got, url, want)
    return len(case['breaks']) > 0, ['ignored']


def gen_breaks(r):
    case = gen_case(r)
    n = len(assemble(case))
    case['breaks'] = [[n - r.randrange(n) if gen.chance(r, 1, 2) else
                       max(0, n - r.randrange(min(n, 6))), r.choice('\t\t\n\r')]
                      for _ in range(1 + r.randrange(3))]
    return case


def valid_breaks(case):
    return valid(case) and all(len(b) == 2 and b[0] > 0 and b[1] in '\t\n\r' and
                               len(b[1]) == 1 for b in case['breaks'])


def assemble(case):
    u = case['prefix'] + '/' + '/'.join(case['path'])
    if case['params'] is not None:
        u += ';' + case['params']
    if case['query'] is not None:
        u += '?' + '&'.join(case['query'])
    if case['fragment'] is not None:
        u += '#' + case['fragment']
    return u


def text(r, signs, lo=0):
    k = r.randrange(10)
    if k == 0 and not lo:
        return ''
    if k <= 4:
        n = gen.size(r, 4)
        return gen.word(r, r.choice(gen.ALPHABETS), n)
    return gen.word(r, gen.LOW[:3] + 'AB01' + signs, 1 + r.randrange(6))


def gen_case(r):
    depth = 1 + r.randrange(4)
    if gen.chance(r, 1, 200):
        depth += r.randrange(300)
    path = [text(r, gen.PATH_SIGNS + ';') for _ in range(depth - 1)] + \
        [text(r, gen.PATH_SIGNS)]
    k = r.randrange(6)
    query = None
    if k == 1:
        query = ['']
    elif k == 2:
        query = [text(r, gen.VALUE_SIGNS.replace('=', ''), 1)]
    elif k >= 3:
        query = []
        n = 1 + r.randrange(4)
        if gen.chance(r, 1, 150):
            n += r.randrange(400)
        for _ in range(n):
            q = text(r, gen.KEY_SIGNS)
            if not gen.chance(r, 1, 5):
                q += '=' + text(r, gen.VALUE_SIGNS)
            elif not gen.chance(r, 1, 6):
                q = q or 'k'
            query.append(q)
    frag = None
    if gen.chance(r, 1, 3):
        frag = text(r, gen.FRAG_SIGNS)
    prefix = r.choice(gen.SCHEMES) + r.choice(gen.HOSTS)
    if gen.chance(r, 1, 6):
        prefix = 'e.com'
    return {'prefix': prefix, 'path': path,
            'params': r.choice([None, None, r.choice(gen.PARAMS)]),
            'query': query, 'fragment': frag}


def valid(case):
    if not case['path'] or not dom.url_ok(case['prefix'] + '/a'):
        return False
    for i, s in enumerate(case['path']):
        if not ref.legal(s) or set(s) & set('/?#') or \
                (i == len(case['path']) - 1 and ';' in s):
            return False
    if case['params'] is not None and set(case['params']) & set('/?#'):
        return False
    q = case['query']
    if q is not None and (not q or any(not ref.legal(x) or set(x) & set('&#') for x in q)):
        return False
    f = case['fragment']
    return f is None or ref.legal(f)


STREAMS = [
    Stream('assembled', gen_case, check, valid, quick=150000, thorough=4000000,
           hyp_quick=300, hyp_thorough=5000),
    Stream('breaks', gen_breaks, check_breaks, valid_breaks, quick=30000, thorough=600000,
           hyp_quick=100, hyp_thorough=2000),
]
