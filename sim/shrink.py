"""Structural minimisation of JSON plans: greedy, keeps the violation class."""
import copy
import json


def size(x):
    return len(json.dumps(x, ensure_ascii=False))


def paths(x, p=()):
    """All container paths, outermost first"""
    if isinstance(x, list):
        yield p, x
        for i, c in enumerate(x):
            yield from paths(c, p + (i,))
    elif isinstance(x, dict):
        yield p, x
        for k in sorted(x):
            yield from paths(x[k], p + (k,))
    elif isinstance(x, (str, int)):
        yield p, x


def get(x, p):
    for k in p:
        x = x[k]
    return x


def put(x, p, v):
    if not p:
        return v
    x = copy.deepcopy(x)
    y = x
    for k in p[:-1]:
        y = y[k]
    y[p[-1]] = v
    return x


def shrink(plan, test, max_tests, deadline):
    """test(plan) -> bool: still the same violation.  deadline() -> bool: out of time"""
    n = [0]

    def ok(cand):
        if n[0] >= max_tests or deadline():
            return False
        n[0] += 1
        return test(cand)

    best = plan
    changed = True
    rounds = 0
    while changed and n[0] < max_tests and not deadline() and rounds < 8:
        changed = False
        rounds += 1
        # 0. while the documents shrink, cut points would have to move: cut everywhere first
        if rounds == 1:
            for p, v in list(paths(best)):
                if isinstance(v, list) and p and p[-1] == 'cuts' and v:
                    cand = put(best, p, list(range(1, 150)))
                    if ok(cand):
                        best = cand
        # 1. delete chunks of lists
        ps = [p for p, v in paths(best) if isinstance(v, list)]
        for p in ps:
            try:
                v = get(best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(v, list) or not v:
                continue
            k = len(v)
            while k >= 1:
                i = 0
                while i < len(v):
                    cand = put(best, p, v[:i] + v[i + k:])
                    if ok(cand):
                        best = cand
                        v = get(best, p)
                        changed = True
                    else:
                        i += k
                k //= 2
        # 2. hoist: replace a list which looks like a tree by one of its subtrees
        for p, v in list(paths(best)):
            if isinstance(v, list) and len(v) == 3 and isinstance(v[2], list):
                for c in v[2]:
                    if isinstance(c, list) and len(c) == 3:
                        try:
                            cand = put(best, p, c)
                        except (KeyError, IndexError, TypeError):
                            break
                        if ok(cand):
                            best = cand
                            changed = True
                            break
        # 3. simpler scalars
        for p, v in list(paths(best)):
            try:
                if get(best, p) is not v and get(best, p) != v:
                    continue
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(v, bool) or v is None:
                continue
            cands = []
            if isinstance(v, int) and v:
                cands = [0, 1, v // 2, v - 1] if v > 0 else [0, v // 2]
                cands = [c for c in cands if c != v and abs(c) <= abs(v)]
            elif isinstance(v, str) and len(v) > 1:
                cands = ['a' if p and p[-1] == 0 else '', v[:len(v) // 2], v[len(v) // 2:], v[:-1], v[1:]]
            elif isinstance(v, str) and len(v) == 1 and v not in 'ab':
                cands = ['a']
            for c in cands:
                try:
                    cand = put(best, p, c)
                except (KeyError, IndexError, TypeError):
                    break
                if size(cand) <= size(best) and cand != best and ok(cand):
                    best = cand
                    changed = True
                    break
    return best, n[0]
