"""Access to the code under test, always from /repo/src's working tree."""
import os
import sys
import warnings

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
# never read a stale .pyc of /repo: look them up in a place with none
sys.pycache_prefix = '/nonexistent-pycache'
sys.path.insert(0, REPO_SRC)
if os.path.isdir(VENV_SITE) and VENV_SITE not in sys.path and \
        not os.environ.get('VERIF_NO_VENV'):
    sys.path.append(VENV_SITE)        # ete3 and psutil (optional extras)
warnings.simplefilter('ignore')

import os_urlpattern  # noqa: E402
assert os.path.realpath(os_urlpattern.__file__).startswith(
    os.path.realpath(REPO_SRC)), os_urlpattern.__file__

from os_urlpattern.config import get_default_config  # noqa: E402
from os_urlpattern.exceptions import (InvalidCharException,  # noqa: E402
                                      InvalidPatternException,
                                      IrregularURLException)
from os_urlpattern.formatter import FORMATTERS, pformat  # noqa: E402
from os_urlpattern.parser import fuzzy_digest, parse  # noqa: E402
from os_urlpattern.pattern_maker import Maker, PatternMaker  # noqa: E402
from os_urlpattern.pattern_matcher import Matcher, PatternMatcher  # noqa: E402

REJECTED = (InvalidCharException, InvalidPatternException,
            IrregularURLException, ValueError)


class Violation(Exception):
    """The property does not hold for the case."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def config(mcn):
    """mcn None: the library's default configuration."""
    if mcn is None:
        return None
    c = get_default_config()
    c.set('make', 'min_cluster_num', str(mcn))
    return c


def new_maker(mcn):
    return PatternMaker() if mcn is None else PatternMaker(config(mcn))


def load_all(maker, urls, metas=None):
    for i, u in enumerate(urls):
        maker.load(u, meta=u if metas is None else metas[i])
    return maker


class Cluster(object):
    __slots__ = ('pattern', 'metas', 'count')

    def __init__(self, pattern, metas, count):
        self.pattern, self.metas, self.count = pattern, metas, count

    @property
    def key(self):
        return (self.pattern, tuple(sorted(self.metas)), self.count)


def dump_clusters(pairs):
    """pairs: iterable of (url_meta, clustered) -> [Cluster].

    Read through the public formatters only, before the next cluster is made.
    """
    import json
    out = []
    for url_meta, clustered in pairs:
        lines = list(pformat('cluster', url_meta, clustered))
        js = [json.loads(x) for x in pformat('json', url_meta, clustered)]
        require(lines and len(js) == 1,
                'cluster formatter gave %d lines, json formatter %d', len(lines), len(js))
        metas = []
        for l in lines[1:]:
            require(l.startswith('\t'), 'cluster member line without tab: %r', l)
            metas.append(l[1:])
        out.append(Cluster(lines[0], metas, js[0]['cnt']))
    return out


def clusters(urls, mcn=3, metas=None):
    return dump_clusters(load_all(new_maker(mcn), urls, metas).make())


def keys(cls):
    return sorted(c.key for c in cls)


def diff(a, b):
    """Short description of two sorted key lists which differ."""
    only_a = [x for x in a if x not in b][:3]
    only_b = [x for x in b if x not in a][:3]
    return 'only in first: %r; only in second: %r' % (only_a, only_b)


def new_matcher(patterns):
    m = PatternMatcher()
    for p in patterns:
        m.load(p, meta=p)
    return m


def metas(nodes):
    return [n.meta for n in nodes]
