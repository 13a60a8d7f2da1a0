"""Concrete shrinking of JSON-like cases (greedy delta debugging)."""
import time


def _lists(case, path=()):
    if isinstance(case, dict):
        for k in case:
            for x in _lists(case[k], path + (k,)):
                yield x
    elif isinstance(case, list):
        yield path
        for i, v in enumerate(case):
            for x in _lists(v, path + (i,)):
                yield x


def _strings(case, path=()):
    if isinstance(case, dict):
        for k in case:
            for x in _strings(case[k], path + (k,)):
                yield x
    elif isinstance(case, list):
        for i, v in enumerate(case):
            for x in _strings(v, path + (i,)):
                yield x
    elif isinstance(case, str):
        yield path


def _get(case, path):
    for p in path:
        case = case[p]
    return case


def _set(case, path, value):
    if not path:
        return value
    if isinstance(case, dict):
        c = dict(case)
    else:
        c = list(case)
    c[path[0]] = _set(c[path[0]], path[1:], value)
    return c


def shrink(case, fails, budget_s=20.0, frozen=()):
    """Smallest case found for which fails(case) is True.

    frozen: top level keys which are not touched.
    """
    end = time.time() + budget_s

    def ok(c):
        return time.time() < end and fails(c)

    changed = True
    while changed and time.time() < end:
        changed = False
        for path in list(_lists(case)):
            if path and path[0] in frozen:
                continue
            try:
                cur = _get(case, path)
            except (IndexError, KeyError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            step = max(1, len(cur) // 2)
            while step >= 1 and time.time() < end:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + step:]
                    c = _set(case, path, cand)
                    if ok(c):
                        case, cur, changed = c, cand, True
                    else:
                        i += step
                step //= 2
        for path in list(_strings(case)):
            if path and path[0] in frozen:
                continue
            try:
                cur = _get(case, path)
            except (IndexError, KeyError, TypeError):
                continue
            if not isinstance(cur, str) or len(cur) > 400:
                continue
            step = max(1, len(cur) // 2)
            while step >= 1 and time.time() < end:
                i = 0
                while i < len(cur):
                    cand = cur[:i] + cur[i + step:]
                    c = _set(case, path, cand)
                    if ok(c):
                        case, cur, changed = c, cand, True
                    else:
                        i += step
                step //= 2
    return case
