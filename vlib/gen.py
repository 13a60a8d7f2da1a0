"""Generators.  Every function takes a random.Random-like source `r`.

The source is either random.Random(seed) (volume engine) or the Random that
Hypothesis hands out (`st.randoms`), whose draws Hypothesis records and
shrinks.  Only randrange/choice/random are used.
"""
from . import ref

LOW, UP, DIG = ref.LOWER, ref.UPPER, ref.DIGIT
BASE_SIGNS = '%_@:,=<>~.+\\"\'()[]{}*$^|!-&'
PATH_SIGNS = BASE_SIGNS                     # ';' is added off the last segment
VALUE_SIGNS = BASE_SIGNS.replace('&', '') + ';/?'
FRAG_SIGNS = BASE_SIGNS + ';/?#'
KEY_SIGNS = BASE_SIGNS.replace('&', '').replace('=', '') + ';/?'
SIGNS = {'p': PATH_SIGNS + ';', 'l': PATH_SIGNS, 'q': VALUE_SIGNS,
         'f': FRAG_SIGNS}
COMMON_SIGNS = '-_.%'
ALPHABETS = [LOW, UP, DIG, LOW + DIG, UP + DIG, LOW + UP, LOW + UP + DIG,
             LOW + DIG + '%', UP + DIG + '%', 'ab', '01', 'ab01', 'aA', 'aA0',
             'a1%']
EXTS = ['html', 'x' * 20, 'tar.gz', 'a-b', 'v2.0.1', '%E4', 'B', '7',
        'html', 'htm', 'mp4', '7z', 'php', 'HTML', 'Mp3', 'm3u8', 'a1b2c3',
        'JPG', '', 'x_y']
HOSTS = ['e.com', 'www.example.com:8080', 'user:pw@h.org', '[::1]:80',
         'xn--fsq.cn', 'A.B', '', 'localhost', '10.0.0.1:81', 'e.com.', 'm\u00fcnchen.de',
         'a_b-c.d', 'h' * 70 + '.com', ':80', 'u@', 'e.com;x', 'a=b&c', '%41']
SCHEMES = ['http://', 'https://', 'ftp://', 'HTTP://', 'HttpS://', 'sftp://', 'rtsp://']
# they are ignored, so that they may hold any char
PARAMS = ['', 'p', 'a=1;b', 'x,y', '\u00e9', '`', 'a b', '[]', '&', '%', ';;', 'A' * 80]


def chance(r, num, den):
    return r.randrange(den) < num


def word(r, alphabet, n):
    if n <= 0:
        return ''
    base = len(alphabet)
    x = r.randrange(base ** n)
    out = []
    for _ in range(n):
        x, d = divmod(x, base)
        out.append(alphabet[d])
    return ''.join(out)


def sign(r, kind):
    return r.choice(COMMON_SIGNS) if chance(r, 1, 3) else r.choice(SIGNS[kind])


def any_char(r, kind):
    k = r.randrange(5)
    if k == 4:
        return sign(r, kind)
    return r.choice((LOW, UP, DIG, LOW)[k])


# -- slots: one slot yields the values of one component over a template ------
def size(r, usual):
    """Mostly 1..usual, now and then two or three digits."""
    k = r.randrange(256)
    if k < 240:
        return 1 + r.randrange(usual)
    if k < 250:
        return 8 + r.randrange(16)
    if k < 252:
        return 24 + r.randrange(66)
    if k < 255:
        return 90 + r.randrange(60)
    return 150 + r.randrange(150)


def sub_slot(r):
    """Values of a sub-piece."""
    al = r.choice(ALPHABETS)
    n = size(r, 5)
    k = r.randrange(5)
    if k == 0:
        c = word(r, al, n)
        return lambda: c
    if k == 1:
        return lambda: word(r, al, n)
    if k == 2:
        return lambda: word(r, al, 1 + r.randrange(n + 2))
    if k == 3:
        pool = [word(r, al, 1 + r.randrange(n)) for _ in range(1 + r.randrange(4))]
        return lambda: r.choice(pool)
    pool = [word(r, al, n) for _ in range(2 + r.randrange(2))]
    return lambda: pool[0] if chance(r, 3, 4) else r.choice(pool)


def slot(r, kind):
    """kind: p path, l last path, q query value, f fragment."""
    k = r.randrange(13)
    if k <= 1:
        c = word(r, r.choice(ALPHABETS), 1 + r.randrange(4))
        return lambda: c
    if k <= 4:
        return sub_slot(r)
    if k == 5:
        subs = [sub_slot(r) for _ in range(2 + r.randrange(2))]
        return lambda: ''.join(s() for s in subs)
    if k in (6, 7):
        subs = [sub_slot(r)]
        for _ in range(1 + r.randrange(3)):
            sg = sign(r, kind)
            rep = chance(r, 1, 6)
            subs.append((lambda sg=sg: sg * size(r, 3)) if rep
                        else (lambda sg=sg: sg))
            subs.append(sub_slot(r))
        return lambda: ''.join(s() for s in subs)
    if k in (8, 9):
        head = slot(r, kind) if chance(r, 1, 2) else sub_slot(r)
        exts = [r.choice(EXTS) for _ in range(1 + r.randrange(3))]
        if chance(r, 1, 4):
            al = r.choice(ALPHABETS)
            n = 1 + r.randrange(4)
            return lambda: head() + '.' + word(r, al, n)
        return lambda: head() + '.' + r.choice(exts)
    if k == 10:
        sg = sign(r, kind)
        return lambda: sg * size(r, 4)
    if k == 11:
        al = r.choice(ALPHABETS) + sign(r, kind) + sign(r, kind)
        n = 2 + r.randrange(7)
        if chance(r, 1, 2):
            return lambda: word(r, al, n)
        return lambda: word(r, al, 1 + r.randrange(n))
    return lambda: ''


def key(r):
    k = word(r, r.choice([LOW, LOW, LOW + DIG, UP, 'ab']), 1 + r.randrange(2))
    if chance(r, 1, 4):
        s = r.choice(KEY_SIGNS)
        k = r.choice([k + s, s + k, k + s * 2 + 'x', s * 3, k + '[]'])
    return k


def template(r, max_depth=3):
    depth = 1 + r.randrange(max_depth)
    if chance(r, 1, 40):
        depth = 4 + r.randrange(12)
        if chance(r, 1, 8):
            depth += r.randrange(50)
    path = [slot(r, 'p') for _ in range(depth - 1)] + [slot(r, 'l')]
    nq = (0, 0, 0, 0, 1, 1, 2, 3)[r.randrange(8)]
    style = r.randrange(8)
    if chance(r, 1, 40):
        nq = 4 + r.randrange(12)
        if chance(r, 1, 8):
            nq += r.randrange(50)
    keys = []
    if nq == 1 and style == 0:
        keys = [None]                         # key-less: ?value
    elif nq == 1 and style == 1:
        keys = ['']                           # bare '?'
    else:
        for _ in range(nq):
            kk = key(r)
            keys.append(kk + '=' if nq < 2 or not chance(r, 1, 5) else kk)
    vals = [slot(r, 'q') for _ in keys]
    frag = slot(r, 'f') if chance(r, 1, 5) else None
    if chance(r, 1, 30):
        frag = lambda: ''

    def one():
        u = '/' + '/'.join(p() for p in path)
        if keys:
            if keys[0] is None:
                u += '?' + (vals[0]().replace('=', '') or 'v')
            else:
                u += '?' + '&'.join(k + v() if k.endswith('=') else k
                                    for k, v in zip(keys, vals))
        if frag is not None:
            u += '#' + frag()
        return u
    return one


def decorate(r, tail):
    """tail ('/path?query#frag') -> full URL with scheme/host (+params)."""
    k = r.randrange(12)
    if k < 8:
        return 'http://e.com' + tail
    if k == 8:
        return r.choice(SCHEMES) + r.choice(HOSTS) + tail
    if k == 9:
        return 'e.com' + tail
    if k == 10:
        return 'http://' + r.choice(HOSTS) + tail
    return 'http://e.com' + with_params(r, tail)


def with_params(r, tail):
    head, sep, rest = cut_query(tail)
    return head + ';' + r.choice(PARAMS + ['jsessionid=1']) + sep + rest


def tails(r, size=12, max_depth=3):
    out = []
    for _ in range((1, 1, 2, 2, 3)[r.randrange(5)]):
        t = template(r, max_depth)
        n = 1 + r.randrange(size)
        for _ in range(n):
            out.append(t())
    return out


MICRO_VOCABS = [
    ['a', 'b', 'c', 'ab', 'bc', 'abc', 'd'],
    ['1', '2', '12', '23', '123', '3'],
    ['a1', 'b2', 'c3', 'a12', 'ab1', '1a', '2b', 'a1b', 'b2c'],
    ['a-1', 'b-2', 'c-3', 'a-b', 'b-c', 'a--1', 'ab-12', 'a-22'],
    ['a.html', 'b.html', 'c.htm', 'ab.htm', 'a1.html', 'b2.html', '1a.htm',
     'c3.mp4', 'd4.mp4', 'e5.mp4', 'ee5.mp4'],
    ['a1b2', 'b2c3', '1a2b', 'aa11', 'a1bb', 'ab12c', 'a1b2c3', 'b1c2d3'],
    ['a1-b2', '1a-2b', 'a1b-c2', 'ab-c2', 'a1-b', 'c3-d4', 'a1b2-c3', 'a1b2c3-d4'],
    ['a_1.html', 'b_2.html', 'a1_b.html', '1_a.html', 'c_3.htm', 'a_1.mp4',
     'b_2.mp4', '2_b.mp4', 'a_b_1.mp4'],
    ['x.', 'y.', 'z.', 'a_1.', 'b_2.', '1_a.', '..', '.a', '.b', '.c', '..a'],
    ['-', '--', '---', '----'],
    ['%E4', '%BD%A0', 'E4%', '%A0%E5', 'A%1', '%%', '%', '%E4_%BD', '%E5_%A5'],
    ['a\\b', 'c\\d', '\\', '\\\\', 'ab\\c', 'a\\\\b', '[a]', '[b]', '[ab]',
     '{1}', '{2}', ']a[', ']b['],
    ['a1.m3u8', 'b2.m3u8', 'c3.m3u8', 'a1.x1y2', 'b2.y1z2', '1a.z1x2'],
    ['AbC1_x9', 'AbC1_y8', 'AbC1_9z', 'AbC1_x99', 'Ab1_x9', 'aBc1_x9', 'XyZ2_x9'],
]


def micro_tails(r, size=10):
    depth = 1 + r.randrange(3)
    vocs = [r.choice(MICRO_VOCABS) for _ in range(depth)]
    nq = (0, 0, 1)[r.randrange(3)]
    qv = r.choice(MICRO_VOCABS) if nq else None
    narrow = [v if chance(r, 1, 2) else v[:1 + r.randrange(len(v))] for v in vocs]
    out = []
    for _ in range(1 + r.randrange(size)):
        u = '/' + '/'.join(r.choice(v) for v in narrow)
        if qv:
            u += '?k=' + r.choice(qv).replace('&', '')
        out.append(u)
    return out


def tree_tails(r, size=12, depth=None, wide=4, limit=None):
    """Correlated levels: every value has values of its own below it.

    The sub-trees are drawn per parent, or shared between parents, so that the
    levels agree for some of the URLs only.
    """
    depth = 2 + r.randrange(3) if depth is None else depth
    nq = (0, 0, 1, 2)[r.randrange(4)]
    kinds_ = ['p'] * (depth - 1) + ['l'] + ['q'] * nq
    keys = [chr(97 + i) + '=' for i in range(nq)]
    slots = [[values(r, k) for _ in range(2)] for k in kinds_]
    shared = {}

    def grow(i):
        if i == len(kinds_):
            return [[]]
        if i in shared and chance(r, 1, 2):
            return shared[i]
        vals = r.choice(slots[i])
        out = []
        for _ in range(1 + r.randrange(wide)):
            if limit and len(out) >= limit:
                break
            v = vals()
            for rest in grow(i + 1):
                out.append([v] + rest)
        shared[i] = out
        return out
    comps = grow(0)
    if len(comps) > size * 3:
        comps = shuffle(r, comps)[:size * 3]
    return [ref.Struct(c[:depth], keys, c[depth:], None).text for c in comps]


def values(r, kind):
    """Values from a small vocabulary or a slot."""
    if chance(r, 1, 2):
        v = r.choice(MICRO_VOCABS)
        return lambda: r.choice(v).replace('&', '')
    return slot(r, kind)


def shift_border(r, tail):
    """Move the border between two path segments: /ab/c -> /a/bc."""
    head, sep, rest = cut_query(tail)
    segs = head.split('/')[1:]
    if len(segs) < 2:
        return tail
    i = r.randrange(len(segs) - 1)
    t = segs[i] + segs[i + 1]
    if len(t) < 2:
        return tail
    c = 1 + r.randrange(len(t) - 1)
    segs[i:i + 2] = [t[:c], t[c:]]
    return '/' + '/'.join(segs) + sep + rest


def cut_query(tail):
    i = min([i for i in (tail.find('?'), tail.find('#')) if i >= 0] or [len(tail)])
    return tail[:i], tail[i:i + 1], tail[i + 1:]


ARRANGED_EXTS = ['.html', '.html', '.mp4', '.m3u8', '.tar.gz', '.JPG', '.a1b', '.x1y2', '.Ab', '', '', '.',
        '.%E4', '-x', '.h-l']


def arranged_tails(r, size=12):
    """The same few runs in other orders, so that only their char spaces agree."""
    toks = [r.choice(['a', 'b', 'xy', '1', '22', 'A', 'QR', '%', '%E4'])] + \
        [r.choice(['a', 'bc', '1', '22', 'A', '-', '_', '.', '-', '%', '--', '~', '!'])
         for _ in range(1 + r.randrange(3))]
    exts = [r.choice(ARRANGED_EXTS) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    dirs = ['/' + r.choice(['a', 'b', 'c1', '1']) for _ in range(r.randrange(3))] or ['']
    where = r.choice(['l', 'l', 'l', 'm', 'q', 'f'])
    tail = r.choice(['', '', '', '?x', '?k=1', '#f', '?', '#'])
    out = []
    for _ in range(3 + r.randrange(size)):
        ts = shuffle(r, toks)
        while chance(r, 1, 3):
            ts.insert(r.randrange(len(ts) + 1), r.choice(toks))
        t = ''.join(ts) + r.choice(exts)
        d = r.choice(dirs)
        out.append(d + {'l': '/' + t + tail, 'm': '/' + t + '/x' + tail, 'q': '/x?k=' + t,
                        'f': '/x#' + t}[where])
    return out


def any_tails(r, size=12):
    k = r.randrange(11)
    if k == 10:
        out = arranged_tails(r, size)
    elif k <= 2:
        out = micro_tails(r)
    elif k == 7:
        out = tails(r, size * 3, 2)
    elif k >= 8:
        out = tree_tails(r, size)
    else:
        out = tails(r, size)
    if chance(r, 1, 12):
        n = 1 + r.randrange(3)
        out += [shift_border(r, r.choice(out)) for _ in range(n)]
    if chance(r, 1, 40):
        # few URLs of the same structure, so that they stay literal
        t = r.choice(out)
        out = [t] + [shift_border(r, t) for _ in range(1 + r.randrange(3))]
    if chance(r, 1, 40):
        # a long common beginning or end
        c = word(r, r.choice(ALPHABETS[:8]), 100 + r.randrange(200))
        if len(ref.runs(c)) > 100:
            c = r.choice(['a', 'b2', 'Q-']) * 50
        out = ['/' + c + t for t in out] if chance(r, 1, 2) else \
            [t + c if '#' in t or '?' not in t else t for t in out]
    if chance(r, 1, 8):
        # the same in front of or behind the path of all of them
        k = r.randrange(3)
        c = r.choice(['/a', '/b1', '/1', '/', '/x-y', '/A.b', '/a/1']) if k < 2 else \
            r.choice(['?x', '?', '#', '#f', '?k', '?k=', '?a=1&b', '?=1', '?k=1#', '?#', '?x#f',
                      '?x.html', '?k=1&l=2&m=3', '#a-1.html'])
        out = [common_part(t, c, k) for t in out]
    return out


def common_part(tail, c, where):
    head, sep, rest = cut_query(tail)
    if where == 0:
        return c.rstrip('/') + tail
    if where == 1:
        return head + c + sep + rest
    return tail + c if not sep else tail


def mcn(r):
    if chance(r, 1, 24):
        return 6 + r.randrange(20)
    return (3, 3, 3, 3, 2, 4, 5, 8)[r.randrange(8)]


def url_set(r, size=12, plain=False):
    ts = any_tails(r, size)
    us = ['http://e.com' + t for t in ts] if plain else [decorate(r, t) for t in ts]
    if us and chance(r, 1, 3):
        us += [r.choice(us) for _ in range(1 + r.randrange(3))]
    return us


def cluster_case(r, size=12, plain=False):
    return {'mcn': mcn(r), 'urls': url_set(r, size, plain)}


def large_tails(r):
    """Some hundred URLs: long value lists, wide trees, or many structures."""
    k = r.randrange(4)
    if k == 0:
        return tree_tails(r, 60 + r.randrange(80), wide=9)
    if k == 1:
        out = []
        for _ in range(15 + r.randrange(30)):
            t = template(r)
            out += [t() for _ in range(1 + r.randrange(9))]
        return out
    if k == 2:
        # a grid: all combinations of long value lists
        lists = [[v() for _ in range(2 + r.randrange(14))]
                 for v in [values(r, 'p') for _ in range(1 + r.randrange(2))] +
                 [values(r, 'l')]]
        out = ['']
        for vs in lists:
            out = [o + '/' + v for o in out for v in vs]
        return shuffle(r, out)[:300]
    out = []
    for _ in range(1 + r.randrange(3)):
        t = template(r)
        out += [t() for _ in range(60 + r.randrange(140))]
    return out


def large_mcn(r):
    return (3, 3, 2, 5, 8, 10, 16, 30)[r.randrange(8)]


def large_case(r):
    return {'mcn': large_mcn(r), 'urls': ['http://e.com' + t for t in large_tails(r)]}


def stretched(s, f, kind):
    """Struct s with every letter, digit or sign of its components written f times."""
    def up(t):
        return ''.join(c * f if (c.isalpha(), c.isdigit(), not c.isalnum())[kind] else c
                       for c in t)
    return ref.Struct([up(c) for c in s.path], s.keys, [up(c) for c in s.values],
                      None if s.fragment is None else up(s.fragment))


def extreme_case(r):
    """Few URLs, but long components, long runs, many runs, deep paths or many keys."""
    c = cluster_case(r, 8, plain=True)
    ss = [ref.ref_parse(u) for u in c['urls']]
    k = r.randrange(7)
    if k == 6:                            # the same long runs in other orders
        f = r.choice([5, 30, 95, 250, 1000, 9995, 65530]) + r.randrange(12)
        runs = [r.choice('-_.~%@') * f] + [r.choice(['a', '1', 'B', '-', 'bc', '22'])
                                           for _ in range(2 + r.randrange(2))]
        out = []
        for s in ss:
            t = ''.join(shuffle(r, list(runs)))
            if chance(r, 1, 6):
                t += r.choice('a1B')
            out.append(ref.Struct(list(s.path[:r.randrange(2)]) + [t], s.keys, s.values,
                                  s.fragment))
        ss = out
    elif k <= 1:
        kind = r.choice([0, 0, 1, 2])
        f = 2 + r.randrange(r.choice([30, 300, 2500]))
        if kind and chance(r, 1, 3):
            f = 9990 + r.randrange(60)
        ss = [stretched(s, f, kind) for s in ss]
        if chance(r, 1, 3):               # another length next to it
            ss += [stretched(ref.ref_parse(u), f + 1, kind) for u in c['urls'][:r.randrange(4)]]
    elif k == 2:                          # many runs
        t = r.choice(['a1', '-a', '%C4', 'Aa1', '1.', '-_', 'ab12-']) * (5 + r.randrange(45))
        if chance(r, 1, 2):
            ss = [ref.Struct([t + x for x in s.path], s.keys, s.values, s.fragment) for s in ss]
        else:
            ss = [ref.Struct([x + t for x in s.path], s.keys, s.values, s.fragment) for s in ss]
    elif k == 3:                          # deep
        ps = [word(r, r.choice(ALPHABETS[:8]), 1 + r.randrange(4))
              for _ in range(5 + r.randrange(r.choice([60, 60, 130])))]
        i = r.randrange(len(ps))
        if chance(r, 1, 2):
            ss = [ref.Struct(ps + list(s.path), s.keys, s.values, s.fragment) for s in ss]
        else:
            ss = [ref.Struct(ps[:i] + list(s.path[:1]) + ps[i:] + list(s.path), s.keys, s.values,
                             s.fragment) for s in ss]
    elif k == 4:                          # many keys
        n = 5 + r.randrange(r.choice([60, 60, 130]))
        ks = shuffle(r, ['k%d=' % i for i in range(n)])
        i = r.randrange(n)
        v = word(r, r.choice(ALPHABETS[:8]), 1 + r.randrange(4))
        out = []
        for s in ss:
            vs = [v] * n
            vs[i] = (s.path[0] or 'x').replace('&', '')
            if chance(r, 1, 4):           # the same keys in another order
                ks = [ks[1], ks[0]] + ks[2:]
            out.append(ref.Struct(s.path, ks + list(s.keys), vs + list(s.values), s.fragment))
        ss = out
    else:                                 # a common long literal somewhere
        t = word(r, r.choice(ALPHABETS[:8]), 300 + r.randrange(5000))
        ss = [ref.Struct(list(s.path[:1]) + [t] + list(s.path[1:]), s.keys, s.values, s.fragment)
              for s in ss]
    return {'mcn': c['mcn'], 'urls': ['http://e.com' + s.text for s in ss
                                      if regular(s) and shallow(s)] or c['urls']}


MAX_LEVELS = 150      # of path or sub-pieces: the code recurses once (or more) per level


def shallow(s):
    return len(s.components) <= MAX_LEVELS and \
        all(len(ref.runs(c)) <= MAX_LEVELS for c in s.components)


def regular(s):
    try:
        return ref.ref_parse('http://e.com' + s.text).ident == s.ident
    except (ref.Irregular, ref.BadChar):
        return False


def unequal_parts(r, n, mcn):
    """One large part and some others, about as many as the minimum."""
    depth = 1 + r.randrange(2)
    out = []
    names = [word(r, LOW, 1 + r.randrange(4)) for _ in range(max(2, mcn + r.randrange(3) - 1))]
    form = r.randrange(5)
    for i, name in enumerate(names):
        size = n if i == 0 else r.choice([1, 2, mcn - 1, mcn, mcn + 1, n // 50, n // 15, n // 8,
                                          n // 4, n // 2])
        for _ in range(size):
            x = r.randrange(10 * n)
            tail = ['%d' % x, '%06d' % x, 'a%d-b' % x, '%d.html' % x,
                    word(r, LOW, 4 if i == 0 else r.choice([4, 4, 5, 6]))][form]
            out.append('/' + '/'.join([name] * depth) + '/' + tail)
    return out


def huge_case(r, kinds=(0, 1, 2, 3, 4, 5, 5)):
    """Thousands of URLs, as in real use."""
    n = 1000 + r.randrange(4000)
    k = r.choice(kinds)
    mcn = r.choice([3, 2, 5, 10])
    if k == 0:                            # a small minimum, long lists of all kinds
        ts = [template(r) for _ in range(1 + r.randrange(4))]
        out = [r.choice(ts)() for _ in range(n // 4)]
    elif k == 1:                          # numbered items under a few names
        names = [word(r, LOW, 2 + r.randrange(6)) for _ in range(1 + r.randrange(40))]
        ext = r.choice(['', '.html', '/', '?page=1', '?id=7&x=y', '#c'])
        out = ['/%s/%d%s' % (r.choice(names), r.randrange(n * 3), ext) for _ in range(n)]
    elif k == 2:                          # nothing reaches the minimum
        out = ['/%s%d' % (word(r, LOW, 1 + r.randrange(3)), r.randrange(100000))
               for _ in range(n // 2)]
        mcn = n
    elif k == 3:                          # a wide tree
        out = tree_tails(r, n // 4, r.randrange(2) + 2, wide=12, limit=3000)
    elif k == 5:
        out = unequal_parts(r, n // 2, mcn)
    else:                                 # many structures
        out = []
        while len(out) < n // 2:
            t = template(r)
            out += [t() for _ in range(1 + r.randrange(30))]
    if chance(r, 1, 3):
        out += [r.choice(out) for _ in range(n // 10)]
    return {'mcn': mcn, 'urls': ['http://e.com' + t for t in out]}


def shuffle(r, seq):
    seq = list(seq)
    for i in range(len(seq) - 1, 0, -1):
        j = r.randrange(i + 1)
        seq[i], seq[j] = seq[j], seq[i]
    return seq


# -- canonical patterns ---------------------------------------------------------
def abstract_segs(r, segs):
    out = []
    for raw, space in segs:
        k = r.randrange(3)
        if k == 0 or not raw:
            out.append(ref.literal(raw))
        elif k == 1:
            out.append(ref.unit(space, len(raw)))
        else:
            out.append(ref.unit(space, None))
    return ''.join(out)


def component_pattern(r, text, last_path):
    """A pattern of the kinds the clustering produces, matching text."""
    if text == '':
        return ''
    k = r.randrange(7)
    if k == 0:
        return ref.literal(text)
    if k == 1:
        return ref.unit(ref.klass(ref.spaces(text)), len(text))
    if k == 2:
        return ref.unit(ref.klass(ref.spaces(text)), None)
    if k in (3, 4):
        return abstract_segs(r, ref.seg_runs(text))
    if k == 5 or not last_path:
        return abstract_segs(r, ref.seg_mixed(text))
    segs = ref.seg_dot(text)
    if len(segs) == 1:
        return abstract_segs(r, segs)
    # the clustering keeps what follows the dot literal
    return abstract_segs(r, segs[:-1]) + ref.literal(segs[-1][0])


def url_pattern(r, struct):
    n = len(struct.path)
    return struct.url_pattern([component_pattern(r, c, i == n - 1)
                               for i, c in enumerate(struct.components)])


# -- mutations -----------------------------------------------------------------
def same_space_char(r, c):
    for al in (LOW, UP, DIG):
        if c in al:
            return r.choice(al)
    return c


def mutate_text(r, t, kind, keep_spaces=True):
    """A near miss of a component text."""
    chars = list(t)
    if not chars:
        return t if keep_spaces else word(r, r.choice(ALPHABETS), 1)
    k = r.randrange(8)
    i = r.randrange(len(chars))
    if k <= 1:
        chars[i] = same_space_char(r, chars[i])
    elif k == 2:
        chars.insert(i, chars[i])
    elif k == 3 and len(chars) > 1:
        del chars[i]
    elif k == 4 and len(chars) > 1:
        j = r.randrange(len(chars))
        chars[i], chars[j] = chars[j], chars[i]
    elif k == 5:
        chars = shuffle(r, chars)
    elif k == 6:
        chars = [same_space_char(r, c) for c in chars]
    elif not keep_spaces:
        chars[i] = any_char(r, kind)
    else:
        chars.insert(r.randrange(len(chars) + 1), r.choice(chars))
    return ''.join(chars)


def kinds(struct):
    n = len(struct.path)
    return ['p'] * (n - 1) + ['l'] + ['q'] * len(struct.keys) + \
        (['f'] if struct.fragment is not None else [])


def rebuild(struct, comps, host='http://e.com'):
    """URL text from the shape of struct and other component texts."""
    n, q = len(struct.path), len(struct.keys)
    return host + ref.Struct(comps[:n], struct.keys, comps[n:n + q],
                             None if struct.fragment is None else comps[n + q]).text


def variant(r, struct, keep_spaces=True):
    comps = list(struct.components)
    ks = kinds(struct)
    for _ in range(1 + r.randrange(2)):
        i = r.randrange(len(comps))
        if ks[i] == 'q' and not struct.keys[i - len(struct.path)].endswith('='):
            if comps[i] == '':
                continue
            comps[i] = mutate_text(r, comps[i], ks[i], keep_spaces).replace('=', '') or 'v'
            continue
        comps[i] = mutate_text(r, comps[i], ks[i], keep_spaces)
    return rebuild(struct, comps)


def perturb(r, u):
    """A URL with a slightly different structure."""
    s = ref.ref_parse(u)
    path, keys, vals = list(s.path), list(s.keys), list(s.values)
    frag = s.fragment
    k = r.randrange(12)
    if k == 0:
        i = r.randrange(len(path) + 1)
        path.insert(i, r.choice(path))
    elif k == 1 and len(path) > 1:
        del path[r.randrange(len(path))]
    elif k == 2:
        frag = None if frag is not None else r.choice(['', 'top', path[-1]])
    elif k == 3 and len(keys) > 1:
        i, j = r.randrange(len(keys)), r.randrange(len(keys))
        keys[i], keys[j] = keys[j], keys[i]
        vals[i], vals[j] = vals[j], vals[i]
    elif k == 4:
        keys, vals = keys + ['k='], vals + ['1']
    elif k == 5 and keys:
        i = r.randrange(len(keys))
        keys[i] = key(r) + '='
    elif k == 6 and len(keys) > 1:
        i = r.randrange(len(keys))
        del keys[i], vals[i]
    elif k == 7 and len(path) > 1:
        # move the border between two segments
        i = r.randrange(len(path) - 1)
        a = path[i] + path[i + 1]
        c = r.randrange(len(a) + 1)
        path[i:i + 2] = [a[:c], a[c:]]
    elif k == 8 and not keys:
        keys, vals = [''], ['']               # a bare '?'
    elif k == 9:
        frag = '' if frag is None else None
    elif k == 10 and keys:
        # value-less <-> keyed, key-less <-> keyed
        i = r.randrange(len(keys))
        if keys[i].endswith('='):
            keys[i], vals[i] = keys[i][:-1], ''
            if len(keys) == 1:
                keys, vals = [''], [keys[0]]
        elif keys[i]:
            keys[i] += '='
        elif vals[i]:
            keys[i], vals[i] = vals[i].replace('=', '') + '=', ''
    elif k == 11 and keys:
        keys, vals = [], []
    else:
        i = r.randrange(len(path))
        path[i] = mutate_text(r, path[i], 'l', False)
    return 'http://e.com' + ref.Struct(path, keys, vals, frag).text


def permute_classes(r, pattern):
    """Reorder the char spaces inside the classes of a canonical pattern."""
    import re

    def f(m):
        rules = ref.class_rules(m.group(1))
        return '[' + ''.join(shuffle(r, rules)) + ']'
    head, sep, rest = pattern.partition('[\\?]')
    g = lambda s: re.sub(r'\[((?:\\.|[^\]\\])*)\]', f, s)
    return g(head) + sep + g(rest)


def reorder(seed, seq):
    """A permutation that is a function of the seed and the length."""
    import random
    return shuffle(random.Random(seed), seq)
