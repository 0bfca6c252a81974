"""Walks that cover every transition TLC enumerates in a control model."""
import random
from collections import defaultdict, deque

def edges_of(res, ns):
    """EDGE lines: ns fields of source state, op, arg, ns fields of target state"""
    out = []
    for l in res.lines:
        if l.startswith("EDGE "):
            f = l.split()[1:]
            out.append((tuple(f[:ns]), f[ns], f[ns + 1], tuple(f[ns + 2:])))
    return sorted(set(out))

def cover(edges, start, r, maxlen=60, want=None):
    """walks (lists of edges) from start that together use every edge in `want' (default all) at least once"""
    adj = defaultdict(list)
    for e in edges:
        if e[0] != e[3] and all(e[3] != x[3] for x in adj[e[0]]): adj[e[0]].append(e)   # one edge per pair is enough to travel
    todo = defaultdict(list)
    n = 0
    for e in (want if want is not None else edges):
        todo[e[0]].append(e); n += 1
    for v in todo.values(): r.shuffle(v)
    walks, cur, walk = [], start, []
    while n:
        if len(walk) >= maxlen:
            walks.append(walk); cur, walk = start, []
        if todo[cur]:
            e = todo[cur].pop(); n -= 1
            walk.append(e); cur = e[3]; continue
        # shortest path to a state with uncovered edges
        prev = {cur: None}; q = deque([cur]); goal = None
        while q:
            s = q.popleft()
            if todo[s]: goal = s; break
            for e in adj[s]:
                if e[3] not in prev: prev[e[3]] = e; q.append(e[3])
        if goal is None:
            if cur == start: raise RuntimeError("unreachable edges")
            walks.append(walk); cur, walk = start, []; continue
        path = []
        s = goal
        while prev[s] is not None: path.append(prev[s]); s = prev[s][0]
        for e in reversed(path): walk.append(e)
        cur = goal
    if walk: walks.append(walk)
    return walks
