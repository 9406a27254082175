"""Turning a model's transitions into schedules that take each of them."""
from collections import defaultdict, deque


def walks(edges, roots, rng, length=60, limit=None):
    """Greedy edge cover: walks from the roots that take every transition.

    ``edges`` are (source, operation, target) with hashable states; yields
    (root, [operations]).  From a state with no untaken transition the walk
    goes along a shortest path to the nearest one that has some.
    """
    out = defaultdict(list)
    seen = set()
    for s, o, t in edges:
        out[s].append((o, t))
    left = {s: list(range(len(v))) for s, v in out.items()}
    for v in left.values():
        rng.shuffle(v)
    todo = sum(len(v) for v in left.values())
    res = []

    def nearest(s):
        # path of edge indices to the nearest state with something left
        prev, q = {s: None}, deque([s])
        while q:
            u = q.popleft()
            if left.get(u):
                path = []
                while prev[u]:
                    p, i = prev[u]
                    path.append((p, i))
                    u = p
                return path[::-1]
            for i, (_, t) in enumerate(out.get(u, ())):
                if t not in prev:
                    prev[t] = (u, i)
                    q.append(t)
        return None

    roots = list(roots)
    while todo and (limit is None or len(res) < limit):
        progress = False
        rng.shuffle(roots)
        for root in roots:
            s, ops, taken = root, [], 0
            while len(ops) < length:
                if left.get(s):
                    i = left[s].pop()
                    todo -= 1
                    taken += 1
                    o, s = out[s][i]
                    ops.append(o)
                    continue
                path = nearest(s)
                if path is None or (ops and len(ops) + len(path) >= length):
                    break
                for p, i in path:
                    ops.append(out[p][i][0])
                    s = out[p][i][1]
            if taken:
                progress = True
                res.append((root, ops))
        if not progress:
            break
    return res, todo
