"""Walks through a state graph printed by TLC (EDGE lines) that together take every edge."""
import collections
import json
import re

import vlib


def edges(module, cfg, stats=None, timeout=300, tag='EDGE'):
    """run TLC on a model whose action constraint prints its edges; returns a list of edge records"""
    rc, out = vlib.tlc(module, cfg, workers=1, timeout=timeout)
    if 'No error has been found' not in out:
        raise vlib.HarnessError('edge model %s/%s rc %d\n%s' % (module, cfg, rc, out[-3000:]))
    if stats is not None:
        g, d = vlib.tlc_stats(out)
        stats.states += d
        stats.transitions += g
        stats.models.append({'model': cfg or module, 'distinct': d, 'generated': g, 'negative': '', 'edges': True})
    res = []
    for m in re.finditer(r'<<"%s", "(.*)">>' % tag, out):
        res.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return res


def tours(es, maxlen=40, rng=None, init=None):
    """cover all edges ({s,o,n}) by walks from the initial state; returns lists of operations"""
    key = lambda x: json.dumps(x, sort_keys=True)
    out = collections.defaultdict(list)
    todo = collections.defaultdict(list)
    seen = set()
    first = init
    for e in es:
        k = (key(e['s']), key(e['o']), key(e['n']))
        if k in seen:
            continue
        seen.add(k)
        if first is None:
            first = e['s']
        out[k[0]].append((e['o'], k[2]))
        todo[k[0]].append((e['o'], k[2]))
    if rng:
        for k in sorted(todo):
            rng.shuffle(todo[k])
    left = len(seen)
    start = key(first)
    walks = []
    while left:
        cur, walk = start, []
        progress = False
        while left and len(walk) < maxlen:
            if todo[cur]:
                o, n = todo[cur].pop()
                left -= 1
                progress = True
                walk.append(o)
                cur = n
                continue
            # shortest path to a state with an edge left
            prev = {cur: None}
            q = collections.deque([cur])
            goal = None
            while q:
                x = q.popleft()
                if todo[x]:
                    goal = x
                    break
                for o, n in out[x]:
                    if n not in prev:
                        prev[n] = (x, o)
                        q.append(n)
            if goal is None:
                break
            path = []
            x = goal
            while prev[x]:
                path.append(prev[x][1])
                x = prev[x][0]
            if walk and len(walk) + len(path) >= maxlen:
                break
            walk += path[::-1]
            cur = goal
        walks.append(walk)
        if not progress:
            break
    return walks
