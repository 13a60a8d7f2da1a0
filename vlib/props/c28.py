"""Counted trees, bags and other containers of utils."""
from os_urlpattern.utils import Bag, TreeNode, build_tree, dump_tree, pick

from .. import gen
from ..engine import Stream
from ..sut import require

ID = 'C28'
TITLE = 'Counted trees and bags hold exactly what was put into them'
RULE = ('Histories of build_tree with keys, values, counts and metas from small pools '
        '(shared prefixes, one sequence a prefix of another) against a dictionary of '
        'prefixes; nested bags with repetitions and shared inner bags against plain sets. '
        'Non-trivial: trees with a shared prefix and >= 2 leaves; bags with an inner bag.')
ASSUMPTIONS = ['sequences of at least one item']


def check(case):
    root = TreeNode(case['root'])
    count, value, meta = {(): 0}, {(): case['root']}, {(): None}
    order = {(): []}
    for seq, n, m in case['builds']:
        key = ()
        new = False
        count[key] += n
        for k, v in seq:
            parent, key = key, key + (k,)
            new = key not in count
            if new:
                count[key], value[key], meta[key], order[key] = 0, v, None, []
                order[parent].append(key)
            count[key] += n
        if m is not None:
            meta[key] = m
        kvs = [tuple(kv) for kv in seq]
        if case['iterate']:
            kvs = iter(kvs)
        kw = {}
        if n != 1:
            kw['count'] = n
        if m is not None:
            kw['meta'] = m
        node, is_new = build_tree(root, kvs, **kw)
        require(is_new == new, 'build_tree(%r): is_new is %r', seq, is_new)
        require(node.count == count[key] and node.value == value[key] and node.meta == meta[key],
                'build_tree(%r) returned the node (%r, %r, %r)', seq, node.value, node.count,
                node.meta)
        require(node.level == len(key), 'build_tree(%r): level %r', seq, node.level)
    # the whole tree, by its nodes
    seen = 0
    stack = [((), root)]
    while stack:
        key, node = stack.pop()
        seen += 1
        kids = list(node.children)
        require((node.value, node.count, node.meta, node.level, node.leaf()) ==
                (value[key], count[key], meta[key], len(key), not order[key]),
                'node %r: %r', key, (node.value, node.count, node.meta, node.level, node.leaf()))
        require(len(kids) == len(order[key]), 'node %r has %d children', key, len(kids))
        # children by value and count (values may be shared): match through the parents
        by = {}
        for k in order[key]:
            by.setdefault((value[k], count[k]), []).append(k)
        if all(len(v) == 1 for v in by.values()):
            for kid in kids:
                k = by.get((kid.value, kid.count))
                require(k is not None, 'node %r has a child %r %r', key, kid.value, kid.count)
                stack.append((k[0], kid))
    # the paths
    paths = []
    for nodes in dump_tree(root):
        require(nodes[0] is root and nodes[-1].leaf(), 'dump_tree gave a path %r',
                [n.value for n in nodes])
        for a, b in zip(nodes, nodes[1:]):
            require(any(b is x for x in a.children), 'dump_tree: %r is not below %r', b.value,
                    a.value)
        paths.append([(repr(n.value), n.count) for n in nodes])
    want = []
    for key in order:
        if not order[key]:
            want.append([(repr(value[key[:i]]), count[key[:i]]) for i in range(len(key) + 1)])
    require(sorted(paths) == sorted(want), 'dump_tree: %r, expected %r', sorted(paths)[:5],
            sorted(want)[:5])
    return len(want) > 1 and any(len(v) > 1 for v in order.values()), \
        ['%d leaves' % min(9, len(want))]


def gen_case(r):
    keys = r.choice([['a', 'b'], [1, 2, '1'], ['x', '', 'xx', 0], ['p%d' % i for i in range(12)]])
    own = gen.chance(r, 1, 2)
    builds = []
    for _ in range(1 + r.randrange(12)):
        seq = []
        for _ in range(1 + r.randrange(5)):
            k = r.choice(keys)
            seq.append([k, k if own else r.choice(['u', 'v', k])])
        builds.append([seq, r.choice([1, 1, 1, 2, 5, 0, 1000, -1, -3]),
                       r.choice([None, None, 'm', 'n', 0, ''])])
    return {'root': r.choice(['root', '', 0]), 'builds': builds, 'iterate': gen.chance(r, 1, 4)}


def valid(case):
    return all(b[0] and all(len(kv) == 2 for kv in b[0]) for b in case['builds'])


# -- bags ------------------------------------------------------------------------------
def check_bag(case):
    """case: list of adds; an int adds this earlier bag, another value itself."""
    bags = [Bag() for _ in range(case['bags'])]
    models = [[] for _ in bags]
    for b, item in case['adds']:
        if isinstance(item, int):
            bags[b].add(bags[item])
            if ('bag', item) not in models[b]:
                models[b].append(('bag', item))
        else:
            bags[b].add(item)
            if ('item', item) not in models[b]:
                models[b].append(('item', item))

    def flat(i):
        out = []
        for k, x in models[i]:
            out += flat(x) if k == 'bag' else [x]
        return out
    for i, bag in enumerate(bags):
        require(len(bag) == len(models[i]), 'bag %d: len %d of %r', i, len(bag), models[i])
        got = sorted('bag%d' % [x is y for y in bags].index(True) if isinstance(x, Bag)
                     else 'item' + x for x in bag)
        want = sorted('%s%s' % x for x in models[i])
        require(got == want, 'bag %d: iterates %r, expected %r', i, got, want)
        every = sorted(bag.iter_all())
        require(every == sorted(flat(i)), 'bag %d: iter_all %r, expected %r', i, every,
                sorted(flat(i)))
        if models[i] and all(flat(j) or not models[j] for j in range(len(bags))) and \
                not any(k == 'bag' and not models[x] for m in models for k, x in m):
            require(bag.pick() in flat(i), 'bag %d: pick %r', i, bag.pick())
        if models[i]:
            p = pick(bag)
            require(any(p is x for x in bag), 'pick gave %r', p)
    return any(k == 'bag' for m in models for k, _ in m), []


def gen_bag(r):
    n = 1 + r.randrange(5)
    adds = []
    for _ in range(r.randrange(16)):
        b = r.randrange(n)
        if b and gen.chance(r, 1, 3):
            adds.append([b, r.randrange(b)])
        else:
            adds.append([b, r.choice(['a', 'b', 'c', '', 'aa'])])
    return {'bags': n, 'adds': adds}


def valid_bag(case):
    return case['bags'] >= 1 and all(
        0 <= b < case['bags'] and (not isinstance(i, int) or 0 <= i < b) for b, i in case['adds'])


STREAMS = [
    Stream('trees', gen_case, check, valid, quick=20000, thorough=600000, hyp_quick=300,
           hyp_thorough=5000, frozen=('root',)),
    Stream('bags', gen_bag, check_bag, valid_bag, quick=20000, thorough=600000, hyp_quick=200,
           hyp_thorough=3000),
]
