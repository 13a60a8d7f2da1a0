"""Matches do not depend on which other patterns are loaded."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import (PatternMatcher, fuzzy_digest, metas, new_matcher, parse, require)
from . import c04

ID = 'C05'
TITLE = 'Loaded patterns match independently of each other, with their own meta'
RULE = ('Many canonical patterns (incl. overlapping ones, ones differing only in one '
        'component, same-length classes with their char spaces in another order) in '
        'one matcher: a history of load / reload / match operations against a model '
        'that keeps {pattern: last non-None meta} and asks one matcher per pattern. '
        'Non-trivial: some URL is matched by >= 2 loaded patterns and some loaded '
        'pattern does not match it.')
ASSUMPTIONS = ['patterns are of the forms that clustering produces, up to the order '
               'of the char spaces within one class']


def check(case):
    pm = PatternMatcher()
    model = {}
    solo = {}
    nontrivial = False
    labels = set()
    kept = []
    for n_op, op in enumerate(case['ops']):
        if op[0] == 'load':
            _, p, meta = op
            _, is_new = pm.load(p, meta=meta)
            require(is_new == (p not in model), 'load(%r): is_new is %r, but the '
                    'pattern was %s', p, is_new, 'loaded' if p in model else 'not loaded')
            if p in model:
                labels.add('reload')
            if meta is not None or p not in model:
                model[p] = meta
            if p not in solo:
                solo[p] = PatternMatcher()
                solo[p].load(p, meta='x')
        else:
            u = op[1]
            res = pm.match(u)
            got = sorted(repr(m) for m in metas(res))
            hits = [p for p in model if solo[p].match(u)]
            want = sorted(repr(model[p]) for p in hits)
            require(got == want, 'match(%r) with %d loaded patterns gave %r, '
                    'one at a time: %r', u, len(model), got, want)
            require(len(set(id(n) for n in res)) == len(res),
                    'match(%r) reports a node twice', u)
            if len(hits) >= 2:
                labels.add('several match')
                if len(hits) < len(model):
                    nontrivial = True
            labels.add('match')
            # the answer is the caller's: changing it must not change later answers,
            # and later operations must not change it
            if n_op % 2:
                kept.append((u, res, list(res)))
            elif isinstance(res, list):
                del res[:]
    for u, res, copy in kept:
        require(len(res) == len(copy) and all(a is b for a, b in zip(res, copy)),
                'the answer to match(%r) was changed by a later operation', u)
    return nontrivial, sorted(labels)


def pool(r):
    """Patterns and URLs which have a lot in common."""
    pats, urls = [], []
    for _ in range(1 + r.randrange(2)):
        base = c04.one_url(r)
        s = ref.ref_parse(base)
        family = [base]
        for _ in range(3):
            u = gen.variant(r, s)
            if dom.url_ok(u):
                family.append(u)
        u = gen.perturb(r, base)
        if dom.url_ok(u):
            family.append(u)
        for u in family:
            x = ref.ref_parse(u)
            for _ in range(1 + r.randrange(3)):
                pats.append(gen.url_pattern(r, x))
        urls += family
    # recombine components of patterns of the same structure
    split = [ref.split_pattern(p) for p in pats]
    for _ in range(4):
        a, b = r.choice(split), r.choice(split)
        if (len(a.path), a.keys, a.fragment is None) == \
                (len(b.path), b.keys, b.fragment is None):
            comps = [x if gen.chance(r, 1, 2) else y
                     for x, y in zip(a.components, b.components)]
            n, q = len(a.path), len(a.keys)
            t = '/' + '/'.join(comps[:n])
            if a.keys:
                t += '[\\?]' + '&'.join(k + v for k, v in zip(a.keys, comps[n:n + q]))
            if a.fragment is not None:
                t += '#' + comps[n + q]
            pats.append(t)
    for p in list(pats):
        if gen.chance(r, 1, 5):
            pats.append(gen.permute_classes(r, p))
    return pats, urls


def gen_large(r):
    pats, urls = [], []
    for _ in range(8 + r.randrange(8)):
        p, u = pool(r)
        pats += p
        urls += u
    # many patterns of one kind: the same classes in other orders
    for _ in range(2):
        p = r.choice(pats)
        for _ in range(r.randrange(60)):
            pats.append(gen.permute_classes(r, p))
    if gen.chance(r, 1, 2):
        t = gen.word(r, 'aA0_', 6 + r.randrange(3)) + 'aA0_'
        u = 'http://e.com/' + t + r.choice(['', '/x', '?k=v'])
        s = ref.ref_parse(u)
        comps = [gen.component_pattern(r, c, False) for c in s.components]
        comps[0] = '[0-9A-Z_a-z]' + r.choice(['+', '{%d}' % len(t)])
        urls.append(u)
        for _ in range(30):
            pats.append(gen.permute_classes(r, s.url_pattern(comps)))
    return gen_case(r, (pats, urls))


def gen_case(r, pats_urls=None):
    pats, urls = pool(r) if pats_urls is None else pats_urls
    ops = []
    todo = gen.shuffle(r, pats)
    while todo:
        p = todo.pop()
        meta = p
        if gen.chance(r, 1, 6):
            meta = r.choice([None, 'm1', 'm2', 0, '', False, ['l'], {'k': 1}])
        ops.append(['load', p, meta])
        if gen.chance(r, 1, 8):
            q = r.choice(pats)
            ops.append(['load', q, r.choice([None, 'again', q, 0, '', []])])
        if gen.chance(r, 1, 3):
            ops.append(['match', r.choice(urls)])
    for u in urls:
        ops.append(['match', u])
    return {'ops': ops}


def valid(case):
    for op in case['ops']:
        if op[0] == 'load':
            if not c04.valid({'patterns': [op[1]], 'urls': ['http://e.com/a']}):
                return False
        elif not dom.url_ok(op[1]):
            return False
    return True


def check_order(case):
    """Two load orders (with repetitions) give the same matches."""
    a, b = new_matcher(case['patterns']), new_matcher(
        gen.reorder(case['seed'], case['patterns'] + case['dups']))
    multi = False
    for u in case['urls']:
        x, y = sorted(metas(a.match(u))), sorted(metas(b.match(u)))
        require(x == y, 'match(%r) depends on the load order: %r vs %r', u, x, y)
        multi = multi or len(x) > 1
    return multi, []


def gen_order(r):
    pats, urls = pool(r)
    dups = [r.choice(pats) for _ in range(r.randrange(3))]
    return {'patterns': pats, 'dups': dups, 'seed': r.randrange(1000), 'urls': urls}


def valid_order(case):
    return set(case['patterns']) >= set(case['dups']) and \
        c04.valid({'patterns': case['patterns'], 'urls': case['urls']})


SIGNS = '-_.~!$()*,:@%'


def gen_many(r):
    """Hundreds of structures, or hundreds of patterns of a structure, in one matcher."""
    urls, pats = [], []
    n = 100 + r.randrange(1100)
    k = r.randrange(5)
    if k == 0:                            # every length at one place
        head = r.choice(['', 'a/', 'x1/y/'])
        al, sp = r.choice([(gen.LOW, 'a-z'), (gen.DIG, '0-9'), (gen.UP, 'A-Z')])
        tail = r.choice(['', '/z', '?k=v', '#f', '.html', '-1'])
        for i in gen.shuffle(r, range(1, n // 3)):
            urls.append('http://e.com/' + head + gen.word(r, al, i) + tail)
            pats.append('/%s[%s]%s' % (head, sp, '{%d}' % i if i > 1 else '') +
                        tail.replace('?', '[\\?]').replace('.', '[\\.]').replace('-', '[\\-]'))
        pats.append('/%s[%s]+' % (head, sp) +
                    tail.replace('?', '[\\?]').replace('.', '[\\.]').replace('-', '[\\-]'))
    elif k <= 2:
        for i in range(n):
            comps = []
            for _ in range(1 + r.randrange(2)):
                t = gen.word(r, SIGNS, r.randrange(5)) + \
                    r.choice(['', 'a', 'B', '1', 'aB', 'a1', 'B1', 'aB1'])
                comps.append(t or 'a')
            tail = r.choice(['', '', '?k=1', '?k%d=1' % i, '?k%d=1' % (i % 7), '?a=1&b=2',
                             '?x', '#f', '?'])
            urls.append('http://e.com/' + '/'.join(comps) + tail)
            pats.append(gen.url_pattern(r, ref.ref_parse(urls[-1])))
    else:
        head = r.choice(['', 'a/', 'x1/y/'])
        al = r.choice([gen.LOW, gen.DIG, gen.LOW + gen.DIG, gen.LOW + '-', gen.LOW + gen.DIG + '.'])
        tail = r.choice(['', '/z', '?k=v', '?page=2&x=1', '#f'])
        for i in range(n):
            urls.append('http://e.com/' + head + gen.word(r, al, 1 + r.randrange(6)) + tail)
            pats.append(gen.url_pattern(r, ref.ref_parse(urls[-1])))
    last = urls[-1]
    for u in gen.shuffle(r, urls)[:60]:
        pats.append(ref.ref_parse(u).url_pattern(
            [ref.literal(c) for c in ref.ref_parse(u).components]))
    return {'patterns': pats, 'seed': r.randrange(1000000),
            'urls': gen.shuffle(r, urls)[:60] + urls[:3] + [last]}


def shape(s):
    return len(s.path), tuple(s.keys), s.fragment is None


def check_many(case):
    pm = PatternMatcher()
    groups, seen = {}, set()
    for p in case['patterns']:
        _, is_new = pm.load(p, meta=p)
        require(is_new == (p not in seen), 'load(%r): is_new is %r', p, is_new)
        if p not in seen:
            groups.setdefault(shape(ref.split_pattern(p)), []).append(p)
        seen.add(p)
    several = False
    for u in case['urls']:
        s = ref.ref_parse(u)
        # as patterns: the keys of a structure are written as in patterns
        like = shape(ref.split_pattern(s.url_pattern([ref.literal(c) for c in s.components])))
        want = sorted(p for p in groups.get(like, ()) if ref.url_matches(p, s))
        got = sorted(metas(pm.match(u)))
        require(got == want, 'match(%r) with %d patterns gave %r, expected %r', u, len(seen),
                got[:6], want[:6])
        several = several or len(got) > 1
    return several, ['%d00 patterns' % (len(seen) // 100)]


STREAMS = [
    Stream('many', gen_many, check_many,
           lambda c: bool(c['urls']) and valid_order(dict(c, dups=[])), quick=64, thorough=1200,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, valid, quick=64, thorough=2500,
           hyp_quick=0, hyp_thorough=0),
    Stream('history', gen_case, check, valid, quick=5000, thorough=150000,
           hyp_quick=160, hyp_thorough=3000),
    Stream('order', gen_order, check_order, valid_order, quick=4000, thorough=100000,
           hyp_quick=0, hyp_thorough=1000),
]
