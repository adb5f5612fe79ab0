"""The state graph TLC emitted, and tours through it."""
import json, random
from collections import deque


class Graph:
    def __init__(self, trs, init=None):
        self.ids = {}
        self.states = []
        self.edges = []      # (from, to, event, outputs)
        self.out = []
        seen = set()
        for v in trs:
            f = self._id(v['f'])
            t = self._id(v['t'])
            key = (f, t, json.dumps(v['e'], sort_keys=True), json.dumps(v['o']))
            if key in seen:
                continue
            seen.add(key)
            self.out[f].append(len(self.edges))
            self.edges.append((f, t, v['e'], v['o']))
        # the initial state: the source of the first emitted transition of TLC's breadth-first
        # search is not guaranteed with several workers, so it is found by its name
        self.init = self._id(init) if init is not None else self._find_init()

    def _id(self, s):
        k = json.dumps(s, sort_keys=True)
        if k not in self.ids:
            self.ids[k] = len(self.states)
            self.states.append(s)
            self.out.append([])
        return self.ids[k]

    def _find_init(self):
        c = [i for i, s in enumerate(self.states)
             if isinstance(s.get('ph'), list) and all(p == 'off' for p in s['ph'])]
        assert len(c) == 1, c
        return c[0]

    def tours(self, seed, maxlen=40, limit=None, avoid=None):
        """paths (lists of edge indices) from the initial state that together take every edge"""
        rnd = random.Random(seed)
        un = [list(o) for o in self.out]
        for u in un:
            rnd.shuffle(u)
        left = sum(len(u) for u in un)
        # shortest paths from the initial state
        par = {self.init: None}
        q = deque([self.init])
        while q:
            s = q.popleft()
            for e in self.out[s]:
                t = self.edges[e][1]
                if t not in par:
                    par[t] = e
                    q.append(t)

        def prefix(s):
            p = []
            while par[s] is not None:
                p.append(par[s])
                s = self.edges[par[s]][0]
            return p[::-1]
        order = [s for s in par]
        pos = 0
        paths = []
        covered = [False] * len(self.edges)

        def take(s):
            while un[s]:
                e = un[s].pop()
                if not covered[e]:
                    return e
            return None

        def mark(p):
            for e in p:
                covered[e] = True
        while True:
            # next start
            e = None
            while pos < len(order):
                e = take(order[pos])
                if e is not None:
                    break
                pos += 1
            if e is None:
                break
            p = prefix(order[pos])
            mark(p)
            p.append(e)
            covered[e] = True
            s = self.edges[e][1]
            while len(p) < maxlen:
                e = take(s)
                if e is None:
                    # nearest state with an edge not taken, within a few steps
                    d = self._near(s, un, covered, 4)
                    if d is None or len(p) + len(d) + 1 > maxlen:
                        break
                    p += d
                    mark(d)
                    s = self.edges[d[-1]][1]
                    continue
                p.append(e)
                covered[e] = True
                s = self.edges[e][1]
            paths.append(p)
            if limit and len(paths) >= limit:
                break
        return paths, sum(covered)

    def _near(self, s, un, covered, depth):
        seen = {s: None}
        q = deque([(s, 0)])
        n = 0
        while q:
            x, d = q.popleft()
            if d >= depth:
                continue
            for e in self.out[x]:
                t = self.edges[e][1]
                n += 1
                if n > 3000:
                    return None
                if t in seen:
                    continue
                seen[t] = e
                if any(not covered[k] for k in un[t]):
                    p = []
                    y = t
                    while seen[y] is not None:
                        p.append(seen[y])
                        y = self.edges[seen[y]][0]
                    return p[::-1]
                q.append((t, d + 1))
        return None

    def walks(self, seed, num, length, weight=None):
        """random walks from the initial state"""
        rnd = random.Random(seed)
        r = []
        for _ in range(num):
            s, p = self.init, []
            while len(p) < length and self.out[s]:
                o = self.out[s]
                e = rnd.choice(o) if weight is None else rnd.choices(o, [weight(self.edges[x][2]) for x in o])[0]
                p.append(e)
                s = self.edges[e][1]
            r.append(p)
        return r
