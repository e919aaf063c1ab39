"""Scripts with damaged storage and failing storage calls (Z5Faults)."""
import random

import arr
import gen_array as G


def key_of(cfg, p):
    """storage key of the object that holds chunk p"""
    if cfg['shards']:
        p = [x // (s // c) for x, s, c in zip(p, cfg['shards'], cfg['chunks'])]
    if cfg['fmt'] == 'n5':
        return '/'.join(str(x) for x in reversed(p))
    k = cfg['sep'].join(str(x) for x in p)
    return 'c' + cfg['sep'] + k if cfg['fmt'] == 'zarr3' and cfg['enc'] == 'default' else k


def slot_of(cfg, p):
    n = 0
    for x, s, c in zip(p, cfg['shards'], cfg['chunks']):
        n = n * (s // c) + x % (s // c)
    return n


def nslots(cfg):
    return G.prod(s // c for s, c in zip(cfg['shards'], cfg['chunks'])) if cfg['shards'] else 0


def mutate(cfg, p, lvl, **kw):
    o = dict(op='mutate', p=p, file=key_of(cfg, p), lvl=lvl, **kw)
    if cfg['shards']:
        o['nslots'] = nslots(cfg)
        o['slot'] = slot_of(cfg, p)
    return o


def positions(cfg):
    return [x['p'] for x in G.all_exists(cfg, 200)]


def chunk_damage(rng, cfg, p, k=None):
    """damage to the stored bytes of one chunk that is not a change of its payload bytes in place"""
    r = rng.random() if k is None else k
    if r < .3:
        return mutate(cfg, p, 'chunk', how='trunc', at=rng.choice([0, 0, 1, 2, 3, 4, 7, 8, 11, 12, 15, 16, 17, 20, -1, -1, -2, -4, -8, -12]))
    if r < .65:
        return mutate(cfg, p, 'chunk', how='part', num=rng.randint(0, 999))
    if r < .75:
        return mutate(cfg, p, 'chunk', how='append', n=rng.choice([1, 2, 4, 8, 16, 64, 1000]), mask=rng.choice([0, 0, 1, 255]))
    if r < .8:
        return mutate(cfg, p, 'chunk', how='double')
    if cfg['fmt'] == 'n5':                       # number of dimensions and extents in the header
        nd = len(cfg['shape'])
        at = rng.choice([2, 3] + list(range(4, 4 + 4 * nd)) * 2)
        return mutate(cfg, p, 'chunk', how='flip', at=at, mask=rng.choice([1, 2, 4, 3, 128, 255]))
    return mutate(cfg, p, 'chunk', how='head', n=rng.choice([1, 2, 4, 8]))


def index_damage(rng, cfg, p):
    n = nslots(cfg)
    r = rng.random()
    if r < .35:
        return mutate(cfg, p, 'index', how='trunc', at=rng.choice([0, 0, 1, -1, -1, -2, -4, -16, -20, -rng.randint(1, 16 * n + 4)]))
    if r < .45:
        return mutate(cfg, p, 'index', how='part', num=rng.randint(0, 999))
    if r < .8:
        return mutate(cfg, p, 'index', how='flip', at=-rng.randint(1, 16 * n + 4), mask=1 << rng.randrange(8))
    if r < .9:
        return mutate(cfg, p, 'index', how='append', n=rng.choice([1, 4, 16, 20, 16 * n + 4]), mask=rng.choice([0, 255]))
    return mutate(cfg, p, 'index', how='head', n=10 ** 6) if r < .93 else \
        mutate(cfg, p, 'slot', how=rng.choice(['long', 'far', 'index', 'wrap', 'wraplen', 'zero']), n=rng.choice([1, 2, 16, 1000]))


def slot_damage(rng, cfg, p):
    return mutate(cfg, p, 'slot', how=rng.choice(['long', 'far', 'index', 'wrap', 'wraplen', 'zero']), n=rng.choice([1, 2, 16, 1000]))


def box(cfg, p):
    return [x * c for x, c in zip(p, cfg['chunks'])], G.clip(cfg, p)


def look_at(rng, cfg, p, header=False):
    off, shp = box(cfg, p)
    return rng.choice([{'op': 'read', 'off': off, 'shp': shp, 'thr': rng.choice([1, 2])}, {'op': 'rchunk', 'p': p},
                       {'op': 'rchunk', 'p': p, 'probe': False}, {'op': 'exists', 'p': p}]
                      + ([] if header else [{'op': 'rraw', 'p': p}]))


def small_region(rng, cfg, limit=6):
    for _ in range(30):
        off, shp = G.rand_region(rng, cfg)
        n = G.prod((o + s - 1) // c - o // c + 1 for o, s, c in zip(off, shp, cfg['chunks']))
        if n <= limit:
            return off, shp
    p = G.rand_pos(rng, cfg)
    return box(cfg, p)


def change(rng, cfg, p=None, limit=6):
    k = rng.random()
    p = p or G.rand_pos(rng, cfg)
    if k < .35:
        off, shp = small_region(rng, cfg, limit)
        return {'op': 'write', 'off': off, 'shp': shp, 'data': G.rand_data(rng, G.prod(shp)), 'thr': rng.choice([1, 1, 2, 4])}
    if k < .5:
        off, shp = small_region(rng, cfg, limit)
        return {'op': 'scalar', 'off': off, 'shp': shp, 'v': rng.choice([0, 5, 6]), 'thr': rng.choice([1, 1, 2])}
    if k < .85:
        return {'op': 'wchunk', 'p': p, 'data': G.rand_chunk_data(rng, G.prod(G.clip(cfg, p)))}
    return {'op': 'rmchunk', 'p': p}


def partial_write(rng, cfg, p):
    """a write of a part of chunk p (of all of it where it has one element)"""
    off, shp = box(cfg, p)
    o, s = [], []
    for a, n in zip(off, shp):
        lo = rng.randint(0, n - 1)
        o.append(a + lo)
        s.append(rng.randint(1, n - lo))
    if s == shp and G.prod(s) > 1:
        ax = rng.choice([i for i in range(len(s)) if s[i] > 1])
        s[ax] -= 1
    return {'op': 'write', 'off': o, 'shp': s, 'data': [rng.randint(0, 6) for _ in range(G.prod(s))], 'thr': rng.choice([1, 1, 2])}


def look_all(rng, cfg):
    """everything the dataset holds, chunk by chunk where something may be damaged"""
    ops = []
    for p in positions(cfg)[:40]:
        off, shp = box(cfg, p)
        ops += [{'op': 'read', 'off': off, 'shp': shp}, {'op': 'exists', 'p': p}]
        if rng.random() < .3:
            ops.append({'op': 'rchunk', 'p': p})
    return ops


def sharded_config(rng, max_cells=30):
    while True:
        cfg = G.config(rng, fmt='zarr3', sharded=True, max_cells=max_cells, max_dim=3)
        if nslots(cfg) > 1 or rng.random() < .2:
            return cfg


def fill_up(rng, cfg, dense=.75):
    ops = []
    if rng.random() < .5:
        shp = list(cfg['shape'])
        ops.append({'op': 'write', 'off': [0] * len(shp), 'shp': shp, 'data': [rng.randint(1, 6) for _ in range(G.prod(shp))]})
    for p in positions(cfg)[:40]:
        if not ops or rng.random() < .3:
            ops.append({'op': 'wchunk', 'p': p, 'data': [rng.randint(1, 6) for _ in range(G.prod(G.clip(cfg, p)))]} if rng.random() < dense
                       else {'op': 'rmchunk', 'p': p})
    return ops


def chunk_scripts(chk, n, rounds=8):
    """chunks whose bytes are cut, extended or carry a wrong header"""
    rng = random.Random('dmg-%s' % chk.seed)
    out = []
    for i in range(n):
        cfg = G.config(rng, max_cells=24, max_dim=3, sharded=rng.random() < .4 if i % 3 == 2 else None)
        pos = positions(cfg)[:40]
        ops = [{'op': 'create'}] + fill_up(rng, cfg)
        for _ in range(rounds):
            p = rng.choice(pos)
            m = chunk_damage(rng, cfg, p)
            head = m['how'] == 'flip'
            ops.append(m)
            for _ in range(rng.randint(1, 3)):
                ops.append(look_at(rng, cfg, p, head))
            q = rng.choice(pos)
            if q != p:
                ops.append(look_at(rng, cfg, q))
            if rng.random() < .5:
                ops.append(partial_write(rng, cfg, p))
                ops.append(look_at(rng, cfg, p, head))
            if rng.random() < .4 and q != p:
                ops.append(change(rng, cfg, q))
            if rng.random() < .2:
                ops += look_all(rng, cfg)
            if rng.random() < .8:
                ops.append({'op': 'wchunk', 'p': p, 'data': [rng.randint(1, 6) for _ in range(G.prod(G.clip(cfg, p)))]})
            elif rng.random() < .5:
                ops.append({'op': 'rmchunk', 'p': p})
        ops += look_all(rng, cfg)
        ops.append({'op': 'write', 'off': [0] * len(cfg['shape']), 'shp': cfg['shape'], 'data': G.rand_data(rng, G.prod(cfg['shape']))} if len(pos) < 9
                   else {'op': 'exists', 'p': pos[0]})
        ops += look_all(rng, cfg)
        out.append({'id': 'dmg-%d' % i, 'cfg': cfg, 'ops': ops, 'hash': True})
    return out


def every_cut(chk, n):
    """one chunk, cut at every single byte"""
    rng = random.Random('cut-%s' % chk.seed)
    out = []
    for i in range(n):
        cfg = G.config(rng, max_cells=6, max_dim=2, scale_ok=False, fmt=['n5', 'zarr2', 'zarr3'][i % 3], sharded=None if i % 6 != 5 else True)
        p = rng.choice(positions(cfg))
        full = {'op': 'wchunk', 'p': p, 'data': [rng.randint(1, 6) for _ in range(G.prod(G.clip(cfg, p)))]}
        ops = [{'op': 'create'}]
        for at in list(range(0, 90)):
            ops += [full, mutate(cfg, p, 'chunk', how='trunc', at=at), look_at(rng, cfg, p)]
        ops += [full, {'op': 'rchunk', 'p': p}]
        out.append({'id': 'cut-%d' % i, 'cfg': cfg, 'ops': ops, 'hash': True})
    return out


def shard_scripts(chk, n, rounds=6):
    """shards whose index is unreadable or impossible: reported, never taken for empty, never overwritten"""
    rng = random.Random('shd-%s' % chk.seed)
    out = []
    for i in range(n):
        cfg = sharded_config(rng)
        pos = positions(cfg)[:40]
        ops = [{'op': 'create'}] + fill_up(rng, cfg)
        for _ in range(rounds):
            p = rng.choice(pos)
            ops.append(rng.choice([index_damage, index_damage, index_damage, slot_damage])(rng, cfg, p))
            mates = [q for q in pos if key_of(cfg, q) == key_of(cfg, p)]
            for _ in range(rng.randint(2, 6)):
                q = rng.choice(mates) if rng.random() < .75 else rng.choice(pos)
                r = rng.random()
                if r < .4:
                    ops.append(look_at(rng, cfg, q))
                elif r < .8:
                    ops.append(rng.choice([partial_write(rng, cfg, q), {'op': 'rmchunk', 'p': q},
                                           {'op': 'wchunk', 'p': q, 'data': G.rand_chunk_data(rng, G.prod(G.clip(cfg, q)))}]))
                else:
                    ops.append(change(rng, cfg, q, limit=4))
                if rng.random() < .4:
                    ops.append({'op': 'fhash', 'p': p, 'file': key_of(cfg, p)})
            ops.append({'op': 'fhash', 'p': p, 'file': key_of(cfg, p)})
            if rng.random() < .2:
                ops.append({'op': 'open', 'mode': 'r+'})
            # the shard is replaced as a whole
            ext = cfg['shards']
            off = [x * c // e * e for x, c, e in zip(p, cfg['chunks'], ext)]
            shp = [min(e, s - o) for o, e, s in zip(off, ext, cfg['shape'])]
            if rng.random() < .8:
                ops.append({'op': 'write', 'off': off, 'shp': shp, 'data': [rng.randint(0, 6) for _ in range(G.prod(shp))]})
        ops += look_all(rng, cfg)
        out.append({'id': 'shd-%d' % i, 'cfg': cfg, 'ops': ops, 'hash': True})
    return out


def shard_histories(chk, n, nops=14):
    """histories of updates of sharded datasets; every chunk and the files after every operation"""
    rng = random.Random('shh-%s' % chk.seed)
    out = []
    for i in range(n):
        cfg = sharded_config(rng, 36)
        pos = positions(cfg)
        ops = [{'op': 'create'}]
        for _ in range(nops):
            ops.append(change(rng, cfg, rng.choice(pos), limit=50))
            ops += [{'op': 'disk'}, {'op': 'readall', 'thr': G.thr(rng)}]
            if rng.random() < .3:
                ops += [{'op': rng.choice(['exists', 'rchunk', 'rraw']), 'p': p} for p in pos[:12]]
        out.append({'id': 'shh-%d' % i, 'cfg': cfg, 'ops': arr.resolve_readall(cfg, ops)})
    return out


def fault_scripts(chk, n, rounds=10, hows=('fail', 'full', 'kill', 'short')):
    """operations during which a storage call fails or the process ends"""
    rng = random.Random('flt-%s' % chk.seed)
    out = []
    for i in range(n):
        cfg = G.config(rng, max_cells=24, max_dim=2, sharded=rng.random() < .5 if i % 2 else None)
        pos = positions(cfg)[:30]
        ops = [{'op': 'create'}] + (fill_up(rng, cfg) if rng.random() < .7 else [])
        for r in range(rounds):
            p = rng.choice(pos)
            if rng.random() < .5:            # the same operation, ended at one call after the other
                o = change(rng, cfg, p, limit=3)
                how = rng.choice(hows)
                for k in range(1, rng.choice([4, 6, 9])):
                    ops.append({'op': 'fault', 'k': k, 'how': how, 'in': o})
                    ops += look_few(rng, cfg, o, pos)
            else:
                o = change(rng, cfg, p, limit=5)
                ops.append({'op': 'fault', 'k': rng.choice([1, 1, 2, 3, 4, 5, 6, 8, 11, 14]), 'how': rng.choice(hows), 'in': o})
                ops += look_few(rng, cfg, o, pos) if rng.random() < .5 else look_all(rng, cfg)
            if rng.random() < .3:
                ops.append(change(rng, cfg))
        ops += [{'op': 'open', 'mode': 'r+'}] + look_all(rng, cfg)
        out.append({'id': 'flt-%d' % i, 'cfg': cfg, 'ops': ops})
    return out


def look_few(rng, cfg, o, pos):
    """at everything the operation addressed, and something else"""
    ops = []
    for p in pos:
        off, shp = box(cfg, p)
        near = o.get('p') == p if 'p' in o else all(a < c + d and c < a + b for a, b, c, d in zip(off, shp, o['off'], o['shp']))
        if near:
            ops += [{'op': 'read', 'off': off, 'shp': shp}, {'op': 'exists', 'p': p}]
        elif rng.random() < .2:
            ops.append(look_at(rng, cfg, p))
    return ops
