"""How URLs are generalised."""
from .. import dom, gen, ref
from ..engine import Stream
from ..sut import clusters, require

ID = 'C11'
TITLE = 'Positions generalise to the narrowest form the minimum cluster size allows'
RULE = ('(a) URL sets as for C01 against an independent functional clusterer: same '
        'members, same patterns; (b) closed-form families whose expected pattern is '
        'known by construction (one length, many lengths, equal order of runs, '
        'mixed order, extension after the last dot, dominant value). Non-trivial: '
        '(a) >= 2 patterns, one of them generalised; (b) every case.')
ASSUMPTIONS = ['min_cluster_num >= 2', 'URLs are regular and use legal chars only']


def check(case):
    urls = case['urls']
    n = 3 if case['mcn'] is None else case['mcn']
    st = dom.structs(urls)
    cls = clusters(urls, case['mcn'])
    got = sorted((c.pattern, sorted({repr(st[m].ident) for m in c.metas})) for c in cls)
    want = sorted((p, sorted(repr(i) for i in ids))
                  for p, ids in ref.ref_clusters(list(st.values()), n))
    require([g[0] for g in got] == [w[0] for w in want],
            'patterns: %r, expected %r', [g[0] for g in got], [w[0] for w in want])
    require(got == want, 'members: %r, expected %r', got, want)
    return len(got) > 1 and any(len(g[1]) > 1 for g in got), dom.shape_labels(urls, cls)


def check_family(case):
    cls = clusters(case['urls'], case['mcn'])
    got = sorted(set(c.pattern for c in cls))
    require(got == sorted(case['want']), '%s: patterns %r, expected %r',
            case['family'], got, case['want'])
    return True, [case['family']]


def distinct(r, make, n, tries=400):
    out = []
    for _ in range(tries):
        v = make()
        if v not in out:
            out.append(v)
            if len(out) == n:
                break
    return out


CLS = [(gen.LOW, 'a-z'), (gen.UP, 'A-Z'), (gen.DIG, '0-9')]


def gen_family(r):
    n = (None, 2, 3, 4, 5, 6)[r.randrange(6)]
    m = 3 if n is None else n
    fam = r.randrange(7)
    al, sp = r.choice(CLS)
    extra = r.randrange(4)
    ext = r.choice(['html', 'php', 'mp4', 'JPG'])
    if fam == 0:
        k = 2 + r.randrange(6 if gen.chance(r, 15, 16) else 3000)
        vals = distinct(r, lambda: gen.word(r, al, k), m + extra)
        want, name = ['[%s]{%d}' % (sp, k)], 'one length'
    elif fam == 1:
        ks = gen.shuffle(r, range(1, 12))[:m]
        vals = [gen.word(r, al, k) for k in ks]
        want, name = ['[%s]+' % sp], 'many lengths'
    elif fam == 2:
        # letters then digits, every sub-piece varies: per run, fixed lengths
        a, b = 2 + r.randrange(3), 2 + r.randrange(3)
        vals, x, y = [], distinct(r, lambda: gen.word(r, gen.LOW, a), m + extra), \
            distinct(r, lambda: gen.word(r, gen.DIG, b), m + extra)
        vals = ['%s%s' % p for p in zip(x, y)]
        want, name = ['[a-z]{%d}[0-9]{%d}' % (a, b)], 'equal order of runs'
    elif fam == 3:
        # one sub-piece constant: it stays literal
        c = gen.word(r, gen.LOW, 1 + r.randrange(4))
        s = r.choice('-_,~')
        b = 2 + r.randrange(4)
        x = distinct(r, lambda: gen.word(r, gen.DIG, b), m + extra)
        vals = [c + s + v for v in x]
        want, name = [c + ref.literal(s) + '[0-9]{%d}' % b], 'constant sub-piece'
    elif fam == 4:
        # all orders differ and fewer than the minimum share one: mixed
        k = 2 * (m + 1)
        vals = []
        for i in range(m):
            # another number of runs for every value
            t = ['1' if j <= 2 * i and j % 2 else 'a' for j in range(k)]
            t[-1] = '1'
            vals.append(''.join(t))
        want, name = ['[0-9a-z]{%d}' % k], 'mixed order'
    elif fam == 5:
        b = 2 + r.randrange(4)
        x = distinct(r, lambda: gen.word(r, al, b), m + extra)
        vals = [v + '.' + ext for v in x]
        want, name = ['[%s]{%d}[\\.]%s' % (sp, b, ext)], 'extension'
    else:
        # below the minimum: literal
        k = 2 + r.randrange(5)
        vals = distinct(r, lambda: gen.word(r, al, k), m - 1)
        want, name = sorted(vals), 'below the minimum'
    if len(vals) < (m if fam != 6 else m - 1):
        vals = [gen.word(r, 'a', i + 1) for i in range(m)]
        want, name = ['[a-z]+'], 'many lengths'
    # put the position into a constant environment
    pos = r.randrange(3) if name != 'extension' else 1
    pre = r.choice(['/x', '/x/y1', '/p-q/1'])
    post = r.choice(['', '#t']) if name == 'extension' else \
        r.choice(['', '?k=v', '?k=v&z=1', '#t'])
    if pos == 0:
        pat = lambda p: ref.ref_parse('http://e.com' + pre + '/@/z' + post) \
            .literal_pattern.replace('[@]', p)
        mk = lambda v: pre + '/' + v + '/z' + post
    elif pos == 1:
        pat = lambda p: ref.ref_parse('http://e.com' + pre + '/@' + post) \
            .literal_pattern.replace('[@]', p)
        mk = lambda v: pre + '/' + v + post
    else:
        pat = lambda p: ref.ref_parse('http://e.com' + pre + '/z?w=@&k=1') \
            .literal_pattern.replace('[@]', p)
        mk = lambda v: pre + '/z?w=' + v + '&k=1'
    urls = gen.shuffle(r, ['http://e.com' + mk(v) for v in vals])
    return {'family': name, 'mcn': n, 'urls': urls, 'want': [pat(w) for w in want]}


def gen_case(r):
    c = gen.cluster_case(r)
    if c['mcn'] == 3 and gen.chance(r, 1, 2):
        c['mcn'] = None
    return c


def gen_dense(r):
    """Few structures, many URLs per structure, small value pools."""
    c = {'mcn': gen.mcn(r), 'urls': []}
    pos = [r.choice(gen.MICRO_VOCABS) for _ in range(1 + r.randrange(3))]
    for _ in range(10 + r.randrange(40)):
        c['urls'].append('http://e.com/' + '/'.join(r.choice(v) for v in pos))
    return c


def gen_large(r):
    return gen.large_case(r)


STREAMS = [
    Stream('extreme', gen.extreme_case, check, dom.cluster_case_ok, quick=900, thorough=12000,
           hyp_quick=0, hyp_thorough=0),
    Stream('huge', gen.huge_case, check, dom.cluster_case_ok, quick=16, thorough=300,
           hyp_quick=0, hyp_thorough=0),
    Stream('large', gen_large, check, dom.cluster_case_ok, quick=400, thorough=15000,
           hyp_quick=0, hyp_thorough=0),
    Stream('reference', gen_case, check, dom.cluster_case_ok, quick=9000,
           thorough=300000, hyp_quick=240, hyp_thorough=4000),
    Stream('dense', gen_dense, check, dom.cluster_case_ok, quick=3000,
           thorough=100000, hyp_quick=0, hyp_thorough=1000),
    Stream('families', gen_family, check_family, lambda c: False, quick=6000,
           thorough=100000, hyp_quick=80, hyp_thorough=1000),
]
