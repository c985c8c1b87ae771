"""Exact optimum of a small dial-a-ride problem by enumeration (pure data, nothing from the library)."""
from functools import lru_cache

from .inst import INF, dist


def orders(ids):
    """Every order of the pickups and deliveries of some requests with each pickup before its delivery."""

    def grow(done, waiting, onboard):
        if not waiting and not onboard:
            yield tuple(done)
            return
        for i in waiting:
            yield from grow(done + [("p", i)], waiting - {i}, onboard | {i})
        for i in onboard:
            yield from grow(done + [("d", i)], waiting, onboard - {i})

    yield from grow([], frozenset(ids), frozenset())


def schedulable(inst, v, order, slack=0.0):
    """Some start times satisfy every window, service time, ride limit and vehicle limit (each loosened by `slack`)."""
    trips = inst.t()
    nodes = [(v.o.pos, v.o.e, INF, 0.0)]
    at = {}
    load = 0.0
    for k, (kind, i) in enumerate(order):
        t = trips[i]
        s = t.o if kind == "p" else t.d
        at[kind, i] = k + 1
        nodes.append((s.pos, s.e, s.l, s.d))
        load += t.cap if kind == "p" else -t.cap
        if load > v.cap:
            return False
    nodes.append((v.end.pos, 0.0, v.end.l, 0.0))
    n = len(nodes)
    # difference constraints x_b >= x_a + w, on the nodes and a reference (index n) at time zero
    edges = []
    for k, (pos, e, l, d) in enumerate(nodes):
        edges.append((n, k, e - slack))
        if l < INF:
            edges.append((k, n, -(l + slack)))
        if k + 1 < n:
            edges.append((k, k + 1, d + dist(inst.metric, pos, nodes[k + 1][0]) - slack))
    for i in {i for _, i in order}:
        t = trips[i]
        if t.timeout < INF:
            edges.append((at["d", i], at["p", i], -(t.o.d + t.timeout + slack)))
    if v.timeout < INF:
        edges.append((n - 1, 0, -(v.timeout + slack)))
    x = [-INF] * n + [0.0]
    for _ in range(n + 2):
        changed = False
        for a, b, w in edges:
            if x[a] + w > x[b] + 1e-9:
                x[b] = x[a] + w
                changed = True
        if x[n] > 1e-9:
            return False
        if not changed:
            return True
    return False


def length(inst, v, order):
    trips = inst.t()
    pos, total = v.o.pos, 0.0
    for kind, i in order:
        q = trips[i].o.pos if kind == "p" else trips[i].d.pos
        total += dist(inst.metric, pos, q)
        pos = q
    return total + dist(inst.metric, pos, v.end.pos)


def optimum(inst, slack=0.0):
    """Least total distance of serving everything with the (equal) vehicles, and how many candidate routes were tried."""
    v = inst.vehicles[0]
    tried = [0]

    @lru_cache(None)
    def alone(ids):
        for cost, order in sorted((length(inst, v, o), o) for o in orders(ids)):
            tried[0] += 1
            if schedulable(inst, v, order, slack):
                return cost
        return INF

    @lru_cache(None)
    def split(ids, k):
        if k == 1:
            return alone(ids)
        items = sorted(ids)
        best = INF
        for mask in range(1 << len(items)):
            mine = frozenset(x for n, x in enumerate(items) if mask >> n & 1)
            best = min(best, alone(mine) + split(ids - mine, k - 1))
        return best

    return split(frozenset(t.id for t in inst.trips), len(inst.vehicles)), tried[0]
