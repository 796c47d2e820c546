"""Minimise a violating (program, schedule) while the same violation persists."""

import copy

from . import decider as dec
from .patch import _real as real
from .runner import run_forked


def same(res, kinds):
    return any(v[0] in kinds for v in (res.get('violations') or []))


def shrink(mod, prog, schedule, kind, budget_s=45.0, max_tries=1500):
    """Returns (program, schedule, result, tries)."""
    t_end = real['monotonic']() + budget_s
    kinds = {kind}
    tries = 0
    best = None

    def attempt(p, s):
        nonlocal tries, best
        if real['monotonic']() > t_end or tries >= max_tries:
            return False
        tries += 1
        res = run_forked(mod, p, dec.Replay(s), want_log=True, wall=20)
        if same(res, kinds):
            best = res
            return True
        return False

    if not attempt(prog, schedule):
        return None
    base = best

    def ddmin(sched, p):
        keys = list(sched)
        if keys and attempt(p, {}):
            return {}
        n = 2
        while len(keys) >= 2:
            size = max(1, len(keys) // n)
            reduced = False
            for i in range(0, len(keys), size):
                rest = keys[:i] + keys[i + size:]
                if attempt(p, {k: sched[k] for k in rest}):
                    keys = rest
                    n = max(n - 1, 2)
                    reduced = True
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(keys), n * 2)
            if real['monotonic']() > t_end:
                break
        if len(keys) == 1 and attempt(p, {}):
            keys = []
        return {k: sched[k] for k in keys}

    schedule = ddmin(schedule, prog)
    progress = True
    while progress and real['monotonic']() < t_end:
        progress = False
        for cand in candidates(mod, prog):
            if attempt(cand, schedule):
                prog = cand
                progress = True
                break
    schedule = ddmin(schedule, prog)
    return prog, schedule, best or base, tries


def candidates(mod, prog):
    custom = getattr(mod, 'shrink', None)
    if custom is not None:
        yield from custom(prog)
    yield from generic(prog)


def _paths(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k, v in node.items():
            if not k.startswith('_'):
                yield from _paths(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _paths(v, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _edit(prog, path, fn):
    new = copy.deepcopy(prog)
    if not path:
        return new
    fn(_get(new, path[:-1]), path[-1])
    return new


def generic(prog):
    paths = list(_paths(prog))
    # drop list elements
    for path, node in paths:
        if isinstance(node, list) and path:
            for i in reversed(range(len(node))):
                def drop(parent, key, i=i):
                    del parent[key][i]
                yield _edit(prog, path, drop)
    for path, node in paths:
        if not path:
            continue
        if node is True:
            def setv(parent, key):
                parent[key] = False
            yield _edit(prog, path, setv)
        elif isinstance(node, (int, float)) and not isinstance(node, bool):
            for v in (0, 1, round(node / 2, 3), round(node, 1)):
                if v != node and abs(v) < abs(node) or \
                        (isinstance(node, float) and v == round(node, 1)
                         and v != node):
                    def setv(parent, key, v=v):
                        parent[key] = v
                    yield _edit(prog, path, setv)
        elif isinstance(node, dict):
            for k in list(node):
                if k.startswith('_') or node[k] is None:
                    continue
                if isinstance(node[k], dict):
                    def none(parent, key, k=k):
                        parent[key][k] = None
                    yield _edit(prog, path, none)
