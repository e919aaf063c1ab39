"""C09: parallel access gives the result of some sequential execution."""
import random

import arr
import gen_array as G
import vlib


def positions(cfg):
    return [x['p'] for x in G.all_exists(cfg, 200)]


def shard_of(cfg, p):
    if not cfg['shards']:
        return tuple(p)
    return tuple(x // (s // c) for x, s, c in zip(p, cfg['shards'], cfg['chunks']))


def box(cfg, p):
    return [x * c for x, c in zip(p, cfg['chunks'])], G.clip(cfg, p)


def part_of(rng, off, shp):
    o, s = [], []
    for a, n in zip(off, shp):
        lo = rng.randint(0, n - 1)
        o.append(a + lo)
        s.append(rng.randint(1, n - lo))
    return o, s


def own_op(rng, cfg, own, var, regions):
    """an operation of a thread on a chunk that only it changes"""
    p = rng.choice(own)
    off, shp = box(cfg, p)
    n = G.prod(shp)
    k = rng.random()
    if regions and k < .35 and tuple(p) not in var:
        o, s = part_of(rng, off, shp)
        if rng.random() < .7:
            return {'op': 'write', 'off': o, 'shp': s, 'data': G.rand_data(rng, G.prod(s)), 'thr': G.thr(rng)}
        return {'op': 'scalar', 'off': o, 'shp': s, 'v': rng.choice([0, 5, 6, 7]), 'thr': G.thr(rng)}
    if k < .65:
        var.discard(tuple(p))
        return {'op': 'wchunk', 'p': p, 'data': G.rand_chunk_data(rng, n), 'junk': False}
    if k < .75:
        var.discard(tuple(p))
        return {'op': 'rmchunk', 'p': p}
    if k < .8 and cfg['fmt'] == 'n5':
        data = [rng.randint(0, 7) for _ in range(rng.choice([0, 1, 3, 8]))]
        (var.add if data else var.discard)(tuple(p))
        return {'op': 'wchunk', 'p': p, 'var': True, 'data': data}
    return look(rng, cfg, p, tuple(p) in var)


def look(rng, cfg, p, var=False):
    k = rng.random()
    if k < .35 and not var:
        o, s = part_of(rng, *box(cfg, p))
        return {'op': 'read', 'off': o, 'shp': s, 'thr': G.thr(rng)}
    return {'op': rng.choice(['rchunk', 'rchunk', 'rraw', 'exists']), 'p': p}


def region_in(rng, boxes):
    off, shp = rng.choice(boxes)
    return part_of(rng, off, shp)


def shard_boxes(cfg, sh):
    ext = cfg['shards'] or cfg['chunks']
    off = [x * e for x, e in zip(sh, ext)]
    return off, [min(e, n - o) for o, e, n in zip(off, ext, cfg['shape'])]


def phase(rng, cfg, mode, var):
    pos = positions(cfg)
    nthr = rng.choice([2, 2, 3, 4])
    ops = rng.randint(1, 7)
    rng.shuffle(pos)
    if mode == 'chunks':               # every thread has chunks of its own, the others are only read
        quiet = pos[:len(pos) // 5]
        rest = pos[len(pos) // 5:]
        if len(rest) < nthr:
            nthr = max(1, len(rest))
        own = [rest[i::nthr] for i in range(nthr)]
        progs = [[look(rng, cfg, rng.choice(quiet), False) if quiet and rng.random() < .2 and not var.intersection(map(tuple, quiet))
                  else own_op(rng, cfg, own[i], var, not cfg['shards']) for _ in range(ops)] for i in range(nthr)]
    elif mode == 'objects':            # every thread has storage objects of its own
        shards = sorted(set(shard_of(cfg, p) for p in pos))
        rng.shuffle(shards)
        nthr = min(nthr, len(shards))
        progs = []
        for i in range(nthr):
            mine = shards[i::nthr]
            own = [p for p in pos if shard_of(cfg, p) in mine]
            boxes = [shard_boxes(cfg, s) for s in mine]
            clean = not any(tuple(p) in var for p in own)
            prog = []
            for _ in range(ops):
                if clean and rng.random() < .6:
                    o, s = region_in(rng, boxes)
                    prog.append(rng.choice([
                        {'op': 'write', 'off': o, 'shp': s, 'data': G.rand_data(rng, G.prod(s)), 'thr': G.thr(rng)},
                        {'op': 'scalar', 'off': o, 'shp': s, 'v': rng.choice([0, 5, 6]), 'thr': G.thr(rng)},
                        {'op': 'read', 'off': o, 'shp': s, 'thr': G.thr(rng)}]))
                else:
                    o = own_op(rng, cfg, own, var, True)
                    if o.get('var') and clean:
                        o = look(rng, cfg, rng.choice(own))
                        var.difference_update(map(tuple, own))
                    prog.append(o)
            progs.append(prog)
    else:                              # all threads write and read the same whole chunks (never absent)
        shared = [p for p in pos if tuple(p) not in var][:rng.choice([1, 1, 2])]
        progs = []
        for i in range(nthr):
            prog = []
            for _ in range(min(ops, 4)):
                p = rng.choice(shared)
                off, shp = box(cfg, p)
                n = G.prod(shp)
                k = rng.random()
                data = [rng.randint(1, 7) for _ in range(n)]
                if k < .35:
                    prog.append({'op': 'wchunk', 'p': p, 'data': data, 'junk': False})
                elif k < .5 and not cfg['shards']:
                    prog.append({'op': 'write', 'off': off, 'shp': shp, 'data': data})
                elif k < .75:
                    prog.append({'op': 'rchunk', 'p': p, 'probe': False})
                else:
                    prog.append({'op': 'read', 'off': off, 'shp': shp})
            progs.append(prog)
        pre = [{'op': 'wchunk', 'p': p, 'data': [rng.randint(1, 7) for _ in range(G.prod(G.clip(cfg, p)))], 'junk': False} for p in shared]
        return pre, progs
    pre = []
    for p in pos:
        if rng.random() < .3:
            var.discard(tuple(p))
            pre.append({'op': 'wchunk', 'p': p, 'data': G.rand_chunk_data(rng, G.prod(G.clip(cfg, p))), 'junk': False})
    return [], progs


def scripts(chk, n):
    rng = random.Random('c09-%s' % chk.seed)
    out = []
    for i in range(n):
        fmt = rng.choice(['n5', 'zarr2', 'zarr3', 'zarr3', 'zarr3'])
        cfg = G.config(rng, fmt=fmt, max_cells=rng.choice([12, 30, 60]), max_dim=rng.choice([1, 2, 2, 3]),
                       sharded=None if fmt != 'zarr3' else rng.random() < .8)
        if len(positions(cfg)) < 2 or len(positions(cfg)) > 60:
            continue
        ops = [{'op': 'create'}]
        var = set()
        if rng.random() < .7:
            ops.append({'op': 'write', 'off': [0] * len(cfg['shape']), 'shp': cfg['shape'], 'data': G.rand_data(rng, G.prod(cfg['shape'])), 'thr': G.thr(rng)})
        for _ in range(rng.randint(1, 5)):
            mode = rng.choice(['chunks', 'chunks', 'objects', 'same'])
            pre, progs = phase(rng, cfg, mode, var)
            ops += pre
            ops.append({'op': 'par', 'progs': progs, 'shake': rng.choice([0, rng.randint(1, 1 << 30)]),
                        'handles': not cfg['shards'] and rng.random() < .3, 'mode': mode})
            if rng.random() < .6:
                ops += look_all(rng, cfg, var)
        ops += look_all(rng, cfg, var) + [{'op': 'disk'}, {'op': 'open', 'mode': 'r+'}] + look_all(rng, cfg, var)
        out.append({'id': 'par-%d' % i, 'cfg': cfg, 'ops': ops})
    return out


def look_all(rng, cfg, var):
    ops = G.all_exists(cfg, 60)
    ops += [{'op': 'rchunk', 'p': list(p)} for p in var] if len(var) < 20 else []
    if not var:
        ops.append(G.full_read(cfg, thr=G.thr(rng)))
    return ops


def models(chk):
    for cfg in ['MCParQuick']:
        vlib.model_check(chk.stats, 'MCPar', cfg)
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCPar', 'MCParThorough', timeout=3000)
    for cfg, inv in (('MCParNegLock', 'Linearizable'), ('MCParNegInPlace', 'Linearizable'), ('MCParNegBuffer', 'Linearizable'), ('MCParNegGone', 'Linearizable')):
        vlib.model_check(chk.stats, 'MCPar', cfg, expect_violation=inv)


def run(chk):
    models(chk)
    exe, s3 = vlib.build_zdrv_s3(san=None)
    go = arr.runner(chk, exe)
    for rnd in range(chk.n(1, 10)):
        arr.drive(chk, go, scripts(chk, chk.n(600, 1500)), exact=True)
    arr.drive_s3(chk, exe, s3, scripts(chk, chk.n(120, 1000)), exact=True)
    exe = vlib.build_zdrv()
    go = arr.runner(chk, exe)
    arr.drive(chk, go, scripts(chk, chk.n(150, 1500)), exact=True)
    gop = arr.py_runner(chk)
    arr.drive(chk, gop, arr.to_py(chk.rng, scripts(chk, chk.n(200, 2000))), exact=True)
