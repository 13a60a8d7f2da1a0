"""Domain predicates and case helpers shared by the properties."""
import re

from . import ref
from .gen import HOSTS

_PREFIX = re.compile(r'(?:(?:https?|ftp|HTTP|HttpS|sftp|rtsp)://(?:%s)|e\.com)(?=/)'
                     % '|'.join(re.escape(h) for h in HOSTS + ['host%d.net' % i for i in range(10)]))


def url_ok(u):
    """In the generators' domain: known host, legal chars, regular."""
    if not _PREFIX.match(u):
        return False
    try:
        ref.ref_parse(u)
    except (ref.Irregular, ref.BadChar):
        return False
    return True


def urls_ok(urls):
    return bool(urls) and all(url_ok(u) for u in urls)


def cluster_case_ok(case):
    return (case.get('mcn') is None or case['mcn'] >= 2) and urls_ok(case['urls'])


def structs(urls):
    return {u: ref.ref_parse(u) for u in urls}


def one_per_ident(urls):
    """URLs with different ident only (first one wins)."""
    out, seen = [], set()
    for u in urls:
        i = ref.ref_parse(u).ident
        if i not in seen:
            seen.add(i)
            out.append(u)
    return out


def shape_labels(urls, clusters):
    """Classification of what a clustering case exercised."""
    labels = []
    for c in clusters:
        p = c.pattern
        if ']+' in p:
            labels.append('wildcard')
        if re.search(r'(a-z|A-Z|0-9)[^\]]*\](\{\d+\})?(?!\+)', p):
            labels.append('fixed length')
        if '\\\\' in p:
            labels.append('backslash')
    if any(len(c.metas) > 1 for c in clusters):
        labels.append('multi-member cluster')
    if len(clusters) > 1:
        labels.append('several clusters')
    if any('?' in u for u in urls):
        labels.append('query')
    if any('#' in u for u in urls):
        labels.append('fragment')
    return sorted(set(labels))
