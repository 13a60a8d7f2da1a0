"""Independent reference model of os-urlpattern's observable semantics.

Nothing in this file imports the code under test.  It is written from the
README (URL structure, character space, order, mix, URL pattern, strict
matching) and from the documented behaviour of the public functions.
"""
import re
import string

# --------------------------------------------------------------------------
# Character space
# --------------------------------------------------------------------------
LOWER = string.ascii_lowercase
UPPER = string.ascii_uppercase
DIGIT = string.digits
PLAIN_SIGNS = '%&_@#;:,=<>~/'
ESCAPED_SIGNS = '.+\\"\'()[]{}*$^?|!-'
SIGNS = PLAIN_SIGNS + ESCAPED_SIGNS
LEGAL = LOWER + UPPER + DIGIT + SIGNS

SPACE = {}
for _c in LOWER:
    SPACE[_c] = 'a-z'
for _c in UPPER:
    SPACE[_c] = 'A-Z'
for _c in DIGIT:
    SPACE[_c] = '0-9'
for _c in PLAIN_SIGNS:
    SPACE[_c] = _c
for _c in ESCAPED_SIGNS:
    SPACE[_c] = '\\' + _c
MAJOR = frozenset(['a-z', 'A-Z', '0-9'])
MIXABLE = frozenset(['a-z', 'A-Z', '0-9', '%'])
DOT = '\\.'


def legal(text):
    return all(c in SPACE for c in text)


def spaces(text):
    """Set of the character spaces which are used by text."""
    return frozenset(SPACE[c] for c in text)


def runs(text):
    """Maximal runs of one character space: [(raw, space)]."""
    out = []
    for c in text:
        s = SPACE[c]
        if out and out[-1][1] == s:
            out[-1][0].append(c)
        else:
            out.append([[c], s])
    return [(''.join(a), s) for a, s in out]


def klass(rules):
    return ''.join(sorted(rules))


def unit(rules, n):
    """[rules], [rules]{n} or [rules]+ (n is None)."""
    k = rules if isinstance(rules, str) else klass(rules)
    if n is None:
        return '[%s]+' % k
    return '[%s]' % k if n == 1 else '[%s]{%d}' % (k, n)


def literal(text):
    """The literal pattern of a raw text."""
    return ''.join(raw if s in MAJOR else unit(s, len(raw)) for raw, s in runs(text))


# --------------------------------------------------------------------------
# URL structure
# --------------------------------------------------------------------------
class Irregular(Exception):
    pass


class BadChar(Exception):
    pass


PARAM_SCHEMES = frozenset(['', 'ftp', 'http', 'https', 'rtsp', 'rtsps', 'sip',
                           'sips', 'shttp', 'mms', 'sftp', 'tel', 'hdl',
                           'prospero', 'rtspu'])


def split_query(query):
    """(keys, values) of a query text; None means no query at all."""
    if query is None:
        return (), ()
    if query == '':
        return ('',), ('',)
    parts = query.split('&')
    if '' in parts:
        raise Irregular(query)
    if len(parts) == 1 and '=' not in query:
        return ('',), (query,)
    keys, values = [], []
    for p in parts:
        k, eq, v = p.partition('=')
        keys.append(k + eq)
        values.append(v)
    return tuple(keys), tuple(values)


def split_path(path):
    segs = path.split('/')[1:]
    if not segs:
        raise Irregular(path)
    return tuple([s for s in segs[:-1] if s] + segs[-1:])


class Struct(object):
    """Structure + raw components of one URL."""
    __slots__ = ('path', 'keys', 'values', 'fragment')

    def __init__(self, path, keys, values, fragment):
        self.path, self.keys, self.values, self.fragment = \
            tuple(path), tuple(keys), tuple(values), fragment

    @property
    def shape(self):
        return (len(self.path), self.keys, self.fragment is not None)

    @property
    def components(self):
        return self.path + self.values + \
            (() if self.fragment is None else (self.fragment,))

    @property
    def norm_keys(self):
        return tuple(norm_key(k) for k in self.keys)

    @property
    def signature(self):
        """What the fuzzy digest must be a function of (and injective on)."""
        return (self.shape, tuple(spaces(c) for c in self.components))

    @property
    def ident(self):
        """Two URLs with equal ident are the same URL for clustering."""
        return (self.shape, self.components)

    @property
    def text(self):
        """path + query + fragment text which the URL pattern must match."""
        t = '/' + '/'.join(self.path)
        if self.keys:
            t += '?' + '&'.join(k + v for k, v in zip(self.keys, self.values))
        if self.fragment is not None:
            t += '#' + self.fragment
        return t

    def url_pattern(self, patterns):
        n, q = len(self.path), len(self.keys)
        t = '/' + '/'.join(patterns[:n])
        if self.keys:
            t += '[\\?]' + '&'.join(
                k + p for k, p in zip(self.norm_keys, patterns[n:n + q]))
        if self.fragment is not None:
            t += '#' + patterns[n + q]
        return t

    @property
    def literal_pattern(self):
        return self.url_pattern([literal(c) for c in self.components])

    def check_chars(self):
        for t in self.keys + self.components:
            if not legal(t):
                raise BadChar(t)


def norm_key(key):
    if key.endswith('='):
        return literal(key[:-1]) + '='
    return literal(key)


def split_url(url):
    """Reference URL splitter.

    Domain: URLs without blanks/control chars, scheme '' or a [a-z]+ scheme
    followed by '://', and a well formed netloc.
    """
    m = re.match(r'([a-zA-Z][a-zA-Z0-9+.\-]*)://', url)
    scheme = ''
    rest = url
    if m:
        scheme = m.group(1).lower()
        rest = url[m.end():]
        cut = min([i for i in (rest.find(c) for c in '/?#') if i >= 0] or [len(rest)])
        rest = rest[cut:]
    rest, sharp, fragment = rest.partition('#')
    fragment = fragment if sharp else None
    path, qm, query = rest.partition('?')
    query = query if qm else None
    if scheme in PARAM_SCHEMES:
        head, slash, last = path.rpartition('/')
        path = head + slash + last.partition(';')[0]
    segs = split_path(path)
    keys, values = split_query(query)
    return Struct(segs, keys, values, fragment)


def ref_parse(url):
    s = split_url(url)
    s.check_chars()
    return s


# --------------------------------------------------------------------------
# URL patterns
# --------------------------------------------------------------------------
class Unit(object):
    """One pattern unit. kind: 'L' literal, 'N' fixed length, 'W' wildcard."""
    __slots__ = ('text', 'kind', 'rules', 'num', 'raw')

    def __init__(self, text, kind, rules, num, raw):
        self.text, self.kind, self.rules, self.num, self.raw = \
            text, kind, frozenset(rules), num, raw


_RULES = sorted(set(SPACE.values()), key=len, reverse=True)


def class_rules(body):
    out, i = [], 0
    while i < len(body):
        for r in _RULES:
            if body.startswith(r, i):
                out.append(r)
                i += len(r)
                break
        else:
            raise ValueError(body)
    return out


_UNIT = re.compile(r'\[((?:\\.|[^\]\\])*)\](\+|\{(\d+)\})?|([a-z]+|[A-Z]+|[0-9]+)')


def parse_component(pattern):
    """Units of a canonical component pattern."""
    units, i = [], 0
    while i < len(pattern):
        m = _UNIT.match(pattern, i)
        if not m:
            raise ValueError(pattern)
        i = m.end()
        if m.group(4) is not None:
            t = m.group(4)
            units.append(Unit(t, 'L', [SPACE[t[0]]], len(t), t))
            continue
        rules = class_rules(m.group(1))
        if m.group(2) == '+':
            units.append(Unit(m.group(0), 'W', rules, None, None))
            continue
        n = int(m.group(3)) if m.group(3) else 1
        if len(set(rules)) == 1 and rules[0] not in MAJOR:
            units.append(Unit(m.group(0), 'L', rules, n, rules[0][-1] * n))
        else:
            units.append(Unit(m.group(0), 'N', rules, n, None))
    return units


def unit_matches(u, seg):
    if u.kind == 'L':
        return seg == u.raw
    if not seg or spaces(seg) != u.rules:
        return False
    return u.kind == 'W' or len(seg) == u.num


def component_matches(pattern, text):
    """Strict matching: whole sub-pieces, exactly the unit's char spaces."""
    units = parse_component(pattern)
    if not units:
        return text == ''
    bounds = [0]
    for raw, _ in runs(text):
        bounds.append(bounds[-1] + len(raw))
    ok = {0}
    for u in units:
        nxt = set()
        for b in ok:
            for e in bounds:
                if e > b and unit_matches(u, text[b:e]):
                    nxt.add(e)
        ok = nxt
        if not ok:
            return False
    return len(text) in ok


def split_pattern(url_pattern):
    """Split a canonical URL pattern into a Struct of component patterns."""
    rest, sharp, fragment = url_pattern.partition('#')
    fragment = fragment if sharp else None
    path, qm, query = rest.partition('[\\?]')
    query = query if qm else None
    keys, values = split_query(query)
    return Struct(split_path(path), keys, values, fragment)


def url_matches(url_pattern, struct):
    """Strict match of a canonical URL pattern against a Struct."""
    p = split_pattern(url_pattern)
    if (len(p.path), p.keys, p.fragment is not None) != \
            (len(struct.path), struct.norm_keys, struct.fragment is not None):
        return False
    return all(component_matches(a, b)
               for a, b in zip(p.components, struct.components))


# --------------------------------------------------------------------------
# Segmentations ("views") of a component
# --------------------------------------------------------------------------
def seg_runs(text):
    return runs(text)


def seg_mixed(text):
    """Consecutive letters, digits and '%' are joined."""
    out = []
    for raw, s in runs(text):
        if s in MIXABLE:
            if out and out[-1][2]:
                out[-1][0] += raw
                out[-1][1].add(s)
            else:
                out.append([raw, {s}, True])
        else:
            out.append([raw, {s}, False])
    return [(raw, klass(s)) for raw, s, _ in out]


def seg_dot(text):
    """Split around the last dot, if what follows is a short extension."""
    rs = runs(text)
    at = None
    for back in range(min(3, len(rs))):
        if rs[len(rs) - 1 - back][1] == DOT:
            at = len(rs) - 1 - back
            break
    if at is None or any(s not in MAJOR for _, s in rs[at + 1:]):
        return [(text, klass(spaces(text)))]
    head = ''.join(raw for raw, _ in rs[:at])
    out = [(head, klass(spaces(head))), rs[at]]
    ext = ''.join(raw for raw, _ in rs[at + 1:])
    if ext:
        out.append((ext, klass(spaces(ext))))
    return out


def view_of(segs):
    return '/'.join(s for _, s in segs)


# --------------------------------------------------------------------------
# Clustering
# --------------------------------------------------------------------------
def undecided(total, biggest, n):
    """Neither side of a data set dominates enough to keep them apart."""
    if total < n:
        return False
    rest = total - biggest
    if biggest >= n and rest >= n:
        return True
    return abs(biggest - rest) < n - 1


class Clusterer(object):
    """Slow, functional model of the clustering of same-digest URLs.

    A data set is a dict {tuple of component texts: count}.
    """

    def __init__(self, min_num):
        self.n = min_num

    # -- one position -----------------------------------------------------
    def generalize(self, counts, atomic, last_path):
        """{text: (count, space)} -> {text: pattern} at one position.

        atomic: the texts are sub-pieces and are never divided.
        """
        n = self.n
        pattern = {t: literal(t) for t in counts}
        total = sum(c for c, _ in counts.values())
        if len(counts) < n and \
                not undecided(total, max(c for c, _ in counts.values()), n):
            return pattern
        lengths = {}   # length -> texts
        queues = {'runs': {}, 'mixed': {}, 'dot': {}}

        def to_length(t):
            lengths.setdefault(len(t), []).append(t)

        def enqueue(stage, t, segs):
            queues[stage].setdefault(view_of(segs), []).append((t, segs))

        for t in counts:
            rs = seg_runs(t)
            if atomic or len(rs) <= 1 and t != '':
                to_length(t)
                continue
            if t == '':
                enqueue('runs', t, rs)
                continue
            stage, segs = 'runs', rs
            if len(rs) == 3 and last_path:
                ds = seg_dot(t)
                if view_of(ds) == view_of(rs):
                    stage, segs = 'dot', ds
            elif len(rs) > 3:
                ms = seg_mixed(t)
                if len(ms) == 1:
                    to_length(t)
                    continue
                if len(rs) - len(ms) >= n:
                    stage, segs = 'mixed', ms
                    if len(ms) == 3 and last_path:
                        ds = seg_dot(t)
                        if view_of(ds) == view_of(ms):
                            stage, segs = 'dot', ds
            enqueue(stage, t, segs)

        def forward_runs(t, segs):
            ms = seg_mixed(t)
            if view_of(segs) == view_of(ms):
                ds = seg_dot(t)
                if last_path and len(ds) > 1:
                    enqueue('dot', t, ds)
                else:
                    to_length(t)
            elif len(ms) == 1:
                to_length(t)
            else:
                ds = seg_dot(t)
                if len(ms) == 3 and last_path and view_of(ds) == view_of(ms):
                    enqueue('dot', t, ds)
                else:
                    enqueue('mixed', t, ms)

        def forward_mixed(t, segs):
            ds = seg_dot(t)
            if last_path and len(ds) > 1:
                enqueue('dot', t, ds)
            else:
                to_length(t)

        def forward_dot(t, segs):
            to_length(t)

        for stage, forward in (('runs', forward_runs), ('mixed', forward_mixed),
                               ('dot', forward_dot)):
            for bucket in queues[stage].values():
                size = sum(counts[t][0] for t, _ in bucket)
                if size < n:
                    for t, segs in bucket:
                        forward(t, segs)
                    continue
                data, back, space = {}, {}, [s for _, s in bucket[0][1]]
                for t, segs in bucket:
                    key = tuple(raw for raw, _ in segs)
                    data[key] = counts[t][0]
                    back[key] = (t, segs)
                for pats, members in self.cluster(data, atomic=space,
                                                  path_depth=len(space),
                                                  keep_last=(stage == 'dot')):
                    if sum(members.values()) < n:
                        for key in members:
                            forward(*back[key])
                    else:
                        for key in members:
                            pattern[back[key][0]] = ''.join(pats)

        if not lengths:
            return pattern
        size = {l: sum(counts[t][0] for t in ts) for l, ts in lengths.items()}

        def as_cluster(l):
            ts = lengths[l]
            if len(ts) < n:
                if size[l] < n:
                    return False
                return undecided(size[l], max(counts[t][0] for t in ts), n)
            return True

        fixed = [l for l in lengths if as_cluster(l)]
        for l in fixed:
            for t in lengths[l]:
                pattern[t] = unit(counts[t][1], l)
        total, biggest = sum(size.values()), max(size.values())
        if len(lengths) >= n or undecided(total, biggest, n):
            # same decision again for the wildcard
            if len(lengths) >= n or (total >= n and undecided(total, biggest, n)):
                for ts in lengths.values():
                    for t in ts:
                        pattern[t] = unit(counts[t][1], None)
        return pattern

    # -- all positions ------------------------------------------------------
    def assign(self, data, atomic, path_depth, keep_last):
        depth = len(next(iter(data)))
        groups = [((), data)]
        for level in range(depth):
            nxt = []
            for prefix, members in groups:
                counts = {}
                for key, c in members.items():
                    t = key[level]
                    space = atomic[level] if atomic else klass(spaces(t))
                    counts[t] = (counts.get(t, (0,))[0] + c, space)
                if keep_last and level == depth - 1:
                    pats = {t: literal(t) for t in counts}
                else:
                    pats = self.generalize(counts, bool(atomic),
                                           level == path_depth - 1)
                split = {}
                for key, c in members.items():
                    split.setdefault(pats[key[level]], {})[key] = c
                for p, sub in split.items():
                    nxt.append((prefix + (p,), sub))
            groups = nxt
        return groups

    def cluster(self, data, path_depth, atomic=None, keep_last=False):
        groups = self.assign(data, atomic, path_depth, keep_last)
        if len(groups) == 1:
            return groups
        out = []
        for _, members in groups:
            out.extend(self.cluster(members, path_depth, atomic, keep_last))
        return out


def ref_clusters(structs, min_num):
    """[(url pattern, set of idents)] of the structs (any digests)."""
    by_sig = {}
    for s in structs:
        by_sig.setdefault(s.signature, {})[s.ident] = s
    out = []
    for members in by_sig.values():
        sample = next(iter(members.values()))
        data = {s.components: 1 for s in members.values()}
        idents = {s.components: s.ident for s in members.values()}
        for pats, keys in Clusterer(min_num).cluster(data, len(sample.path)):
            out.append((sample.url_pattern(pats), frozenset(idents[k] for k in keys)))
    return out


# --------------------------------------------------------------------------
# Ranking of patterns that match the same URL
# --------------------------------------------------------------------------
LITERAL, RUNS, MIXED, DOTTED, FIXED, WILD = range(6)


def component_kinds(pattern, last_path):
    """(set of admissible kinds of the component pattern, unit kinds from right)."""
    units = parse_component(pattern)
    tail = tuple({'L': 0, 'N': 1, 'W': 2}[u.kind] for u in reversed(units))
    if all(u.kind == 'L' for u in units):
        return {LITERAL}, tail
    if len(units) == 1:
        return {FIXED if units[0].kind == 'N' else WILD}, tail
    wide = [u for u in units if u.kind != 'L' and len(u.rules) > 1]
    if any(not u.rules <= MIXABLE for u in wide):
        return {DOTTED}, tail
    kind = {MIXED if wide else RUNS}
    if last_path and units[1].rules == {DOT}:
        # head.ext: the runs, the mixed and the last-dot split coincide
        kind.add(DOTTED)
    return kind, tail


def better(p, q):
    """True: p ranks above q; False: below; None: not decided (or equal)."""
    a, b = split_pattern(p), split_pattern(q)
    for i in reversed(range(len(a.components))):
        x, y = a.components[i], b.components[i]
        if x == y:
            continue
        last = i == len(a.path) - 1
        (kx, tx), (ky, ty) = component_kinds(x, last), component_kinds(y, last)
        if max(kx) < min(ky):
            return True
        if max(ky) < min(kx):
            return False
        if kx == ky and (len(tx) == len(ty) or len(kx) == 1):
            # the units from the right; nothing is said if one is the end of the other
            n = min(len(tx), len(ty))
            if tx[:n] != ty[:n]:
                return tx[:n] < ty[:n]
        return None
    return None
