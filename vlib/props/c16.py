"""Decomposition of one component into sub-pieces; literal patterns."""
import re

from .. import dom, gen, ref
from ..engine import Stream
from ..sut import InvalidCharException, require
from os_urlpattern.parse_utils import PieceParser, normalize
from os_urlpattern import parse_utils
from os_urlpattern.pattern import Pattern

mix = getattr(parse_utils, 'mix', None)       # not covered by the repository's tests

ID = 'C16'
TITLE = 'Components split losslessly into runs; literal patterns match only them'
RULE = ('Texts over all legal chars (random, and built from runs up to 150 chars); '
        'oracle: independent run splitter. A literal pattern is matched against the '
        'text and against mutants of it. Illegal chars must be rejected. Non-trivial: '
        '>= 3 runs and a sign.')
ASSUMPTIONS = []


def check(case):
    t = case['text']
    parser = PieceParser()
    if case['warm'] is not None:         # a parser can be used again
        try:
            parser.parse(case['warm'])
        except InvalidCharException:
            pass
    if not ref.legal(t):
        for f in (parser.parse, normalize):
            try:
                got = f(t)
            except InvalidCharException:
                continue
            require(False, '%r has an illegal char, but is accepted: %r', t, got)
        return True, ['illegal']
    rs = ref.runs(t)
    p = parser.parse(t)
    require(list(p.rules) == [s for _, s in rs], '%r: char spaces %r, expected %r', t,
            p.rules, [s for _, s in rs])
    require(list(p.pieces) == [ref.literal(raw) for raw, _ in rs],
            '%r: sub-pieces %r', t, p.pieces)
    lit = ref.literal(t)
    require(p.piece == lit, '%r: literal pattern %r, expected %r', t, p.piece, lit)
    require(p.piece_length == len(t), '%r: length %r, expected %d', t, p.piece_length, len(t))
    require(p.fuzzy_rule == ref.klass(ref.spaces(t)), '%r: all char spaces %r', t, p.fuzzy_rule)
    q = PieceParser().parse(t)
    require(p == q and hash(p) == hash(q), 'two parses of %r are not equal', t)
    n = normalize(t)
    require(n == lit, 'normalize(%r) = %r, expected %r', t, n, lit)
    if mix is not None:
        mp, mr = mix(p.pieces, p.rules)
        ms = ref.seg_mixed(t)
        require(list(mp) == [ref.literal(raw) for raw, _ in ms] and
                list(mr) == [s for _, s in ms], 'mix of %r: %r %r, expected %r', t, mp,
                mr, ms)
    rx = re.compile(lit)
    pat = Pattern(lit)
    for x in [t] + case['mutants']:
        want = x == t
        require(bool(rx.fullmatch(x)) == want, 'literal pattern %r as a regex %s %r', lit,
                'does not match' if want else 'matches', x)
        require(pat.match(x) == want, 'literal pattern %r %s %r', lit,
                'does not match' if want else 'matches', x)
    for x in case['mutants']:
        if ref.legal(x):
            y = PieceParser().parse(x)
            require((y == p) == (x == t), '%r and %r: equal=%r', x, t, y == p)
    return len(rs) >= 3 and lit != t, ['runs %d' % min(len(rs), 6)]


ILLEGAL = ' \t\n`\x00\x7féß中１ａ\ud800\u2028'


def gen_case(r):
    k = r.randrange(6)
    if k <= 1:
        al = ref.LEGAL
        t = gen.word(r, al, r.randrange(14))
    elif k == 2:
        t = gen.word(r, 'ab01AB%' + gen.sign(r, 'f') + '[]\\{}', r.randrange(12))
    elif k == 3:
        t = ''.join(r.choice(ref.LEGAL) * gen.size(r, 12) for _ in range(r.randrange(6)))
    elif k == 4:
        t = gen.slot(r, 'f')()
    else:
        t = gen.word(r, gen.LOW + gen.DIG + '-_.', r.randrange(40))
    if gen.chance(r, 1, 12):
        i = r.randrange(len(t) + 1)
        t = t[:i] + r.choice(ILLEGAL) + t[i:]
    mutants = []
    for _ in range(5):
        x = gen.mutate_text(r, t, 'f', gen.chance(r, 1, 2)) if t else r.choice(ref.LEGAL)
        mutants.append(x)
    if len(t) > 1:
        mutants += [t[:-1], t + t[-1], t[1:]]
    if gen.chance(r, 1, 4):              # any other text: also one with other chars
        c = r.choice(ILLEGAL + '\n\r')
        mutants.append(r.choice([t + c, c + t, t[:1] + c + t[1:]]))
    warm = gen.word(r, ref.LEGAL + ' ', 5) if gen.chance(r, 1, 4) else None
    return {'text': t, 'mutants': mutants, 'warm': warm}


STREAMS = [
    Stream('texts', gen_case, check, quick=120000, thorough=3000000,
           hyp_quick=300, hyp_thorough=5000),
]
