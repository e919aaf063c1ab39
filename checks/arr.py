"""Shared machinery for the dataset properties: scripts -> real executions -> TraceDataset."""
import json
import random

import decode
import gen_array as G
import tours as T
import vlib

SPEC = 'TraceDataset'


def add_junk(scripts):
    """some chunks are written with other values in the padding beyond the array (zarr)"""
    for i, s in enumerate(scripts):
        for k, o in enumerate(s['ops']):
            if o['op'] == 'wchunk' and not o.get('var') and 'junk' not in o:
                o['junk'] = bool((i + k) % 3 == 0 and any(o['data']))


def runner(chk, exe, **kw):
    def go(scripts):
        add_junk(scripts)
        res = vlib.run_zdrv(exe, scripts, **kw)
        return [{'id': s['id'], 'cfg': G.strip_for_tla(s['cfg']), 'ev': decode.postprocess(s['cfg'], r)}
                for s, r in zip(scripts, res)]
    return go


def drive(chk, go, scripts, exact=False, limit=3, module=SPEC):
    """run, validate, report; returns the traces"""
    t = vlib.time.time()
    traces = go(scripts)
    vlib.log('executed %d scripts, %d events in %.1fs' % (len(scripts), sum(len(x['ev']) for x in traces), vlib.time.time() - t))
    rej = vlib.validate(chk.stats, module, traces)
    for tr in traces[:1] + traces[len(traces) // 2:len(traces) // 2 + 1]:
        chk.sample(tr)
    if rej:
        vlib.reproduce_and_report(chk, scripts, traces, rej, go, module, exact=exact, limit=limit)
    return traces


# ------------------------------------------------------------------ edge tours
EDGE_DS = [('n5', [3], [2], []), ('zarr3', [4], [1], [2]), ('zarr2', [2, 2], [2, 1], [])]


def tour_cfg(rng, c, i):
    """a concrete configuration for the abstract dataset number c of MCArrayEdges"""
    fmt, shape, chunks, shards = EDGE_DS[c - 1]
    if c == 3:
        fmt = ['zarr2', 'n5', 'zarr3'][i % 3]
    cfg = {'fmt': fmt, 'shape': list(shape), 'chunks': list(chunks), 'shards': list(shards), 'fill': 0}
    r = G.config(rng, fmt=fmt, max_dim=len(shape), sharded=bool(shards))
    for k in ('codec', 'opts', 'sep', 'enc'):
        cfg[k] = r[k]
    pool = G.NUM + (G.CPLX if fmt == 'zarr2' else [])
    cfg['dtype'] = pool[i % len(pool)]
    cfg['scale'] = [rng.choice([1, 1, 2, 3]) for _ in shape]
    cfg['fillreal'] = 0
    if fmt != 'n5':
        cfg['fillreal'] = rng.choice([0, 0, 1, 7])
    return cfg


def edge_scripts(chk, seed, extra=('exists',), disk_every=0, maxlen=40, reopen_every=0):
    es = T.edges('MCArrayCfg', 'MCArrayEdges', chk.stats)
    rng = random.Random('tour-%s' % seed)
    scripts = []
    for c in (1, 2, 3):
        ws = T.tours([e for e in es if e['c'] == c], maxlen=maxlen, rng=rng)
        for w in ws:
            cfg = tour_cfg(rng, c, len(scripts))
            ops = [{'op': 'create'}]
            for k, o in enumerate(w):
                ops.append(dict(o))
                if 'read' in extra:
                    ops.append({'op': 'readall'})
                if 'exists' in extra:
                    ops += G.all_exists(cfg)
                if 'rchunk' in extra:
                    ops += [{'op': 'rchunk', 'p': x['p']} for x in G.all_exists(cfg)]
                if 'cinfo' in extra and rng.random() < .4:
                    ops += [{'op': rng.choice(['cinfo', 'rraw']), 'p': x['p']} for x in G.all_exists(cfg)]
                if disk_every and k % disk_every == disk_every - 1:
                    ops.append({'op': 'disk'})
                if reopen_every and k % reopen_every == reopen_every - 1:
                    ops.append({'op': 'open', 'mode': rng.choice(['r+', 'a', 'r+'])})
            scripts.append({'id': 'tour-%d-%d' % (c, len(scripts)), 'cfg': cfg, 'ops': resolve_readall(cfg, ops)})
    vlib.log('%d edges in %d walks' % (len(es), len(scripts)))
    chk.notes['edges_toured'] = len(es)
    return scripts


def resolve_readall(cfg, ops):
    """full reads, split so that no request touches a variable-length chunk"""
    var = set()
    out = []
    for o in ops:
        if o['op'] == 'wchunk':
            (var.add if o.get('var') and o['data'] else var.discard)(tuple(o['p']))
        elif o['op'] == 'rmchunk':
            var.discard(tuple(o['p']))
        elif o['op'] in ('write', 'scalar'):
            for p in [p for p in var if all(a <= q * c and min((q + 1) * c, s) <= a + n for a, n, q, c, s in
                                            zip(o['off'], o['shp'], p, cfg['chunks'], cfg['shape']))]:
                var.discard(p)
        if o['op'] != 'readall':
            out.append(o)
            continue
        if not var:
            out.append(G.full_read(cfg))
            continue
        for e in G.all_exists(cfg, 64):
            p = e['p']
            if tuple(p) not in var:
                out.append({'op': 'read', 'off': [q * c for q, c in zip(p, cfg['chunks'])], 'shp': G.clip(cfg, p)})
    return out


def random_scripts(chk, n, nops=22, full_every=3, **kw):
    rng = chk.rng
    out = []
    cfgkw = {k: kw.pop(k) for k in list(kw) if k in ('fmt', 'max_cells', 'max_dim', 'sharded', 'dtypes', 'scale_ok', 'fillzero', 'big_scale')}
    for i in range(n):
        cfg = G.config(rng, **cfgkw)
        ops = [{'op': 'create'}]
        k = 0
        for o in G.array_ops(rng, cfg, nops, **kw):
            ops.append(o)
            k += 1
            if full_every and k % full_every == 0:
                ops.append({'op': 'readall', 'thr': G.thr(rng)})
        ops.append({'op': 'readall'})
        out.append({'id': 'rnd-%d' % i, 'cfg': cfg, 'ops': resolve_readall(cfg, ops)})
    return out


def to_s3(scripts):
    """the same for the object store, which has no complex types, no chunks of variable length and no paths"""
    out = []
    for s in scripts:
        if s['cfg']['dtype'].startswith('complex') or any(x['kind'] == 'var' for o in s['ops'] for x in o.get('st', ())):
            continue

        def whole(o):
            if not o.get('var'):
                return o
            o = {k: v for k, v in o.items() if k != 'var'}
            if o['op'] == 'wchunk':
                g = G.grid(s['cfg'])
                inside = len(o['p']) == len(g) and all(0 <= x < y for x, y in zip(o['p'], g))
                n = G.prod(G.clip(s['cfg'], o['p'])) if inside else 1
                o['data'] = [(list(o['data']) or [0])[i % max(1, len(o['data']))] for i in range(n)]
            return o
        ops = []
        for o in s['ops']:
            if o['op'] == 'keypath':
                continue
            if o['op'] == 'par':
                o = dict(o, progs=[[whole(x) for x in pr if x['op'] != 'keypath'] for pr in o['progs']])
            o = whole(o)
            if 'in' in o:
                o = dict(o, **{'in': whole(o['in'])})
            if o['op'] == 'fault':            # requests have an effect or not, their answers can be lost
                o = dict(o, how='fail' if o['how'] == 'short' else o['how'], after=(o['k'] + len(ops)) % 2)
            ops.append(o)
        out.append(dict(s, id='s3-' + s['id'], cfg=dict(s['cfg'], backend='s3'), ops=ops))
    return out


def drive_s3(chk, exe, s3, scripts, **kw):
    """the same operations on the S3 back end, where it could be built"""
    if not s3:
        chk.notes['s3'] = 'could not be built on the stand-in SDK: not checked'
        return
    drive(chk, runner(chk, exe), to_s3(scripts), **kw)


def py_runner(chk, **kw):
    def go(scripts):
        add_junk(scripts)
        res = vlib.run_py('pyarr', scripts, **kw)
        return [{'id': s['id'], 'cfg': G.strip_for_tla(s['cfg']), 'ev': decode.postprocess(s['cfg'], r)}
                for s, r in zip(scripts, res)]
    return go


def to_py(rng, scripts):
    """the same scripts for the python layer: API variants; what z5py cannot express is dropped"""
    out = []
    for s in scripts:
        cfg = dict(s['cfg'])
        if cfg['dtype'].startswith('complex') or (cfg['fmt'] == 'zarr2' and cfg['codec'] == 'lz4'):
            continue
        cfg['opts'] = {k: v for k, v in cfg['opts'].items() if k != 'useZlib'}
        cfg['chunks'] = [min(a, b) for a, b in zip(cfg['chunks'], cfg['shape'])]
        if cfg['chunks'] != s['cfg']['chunks'] and (cfg['shards'] or any(o['op'] in ('wchunk', 'rchunk', 'rraw', 'exists', 'rmchunk', 'cinfo') for o in s['ops'])):
            # z5py clips chunks to the shape: the grid stays the same (one chunk in that axis)
            if cfg['shards']:
                cfg['shards'] = [b * (h // a) for h, a, b in zip(cfg['shards'], s['cfg']['chunks'], cfg['chunks'])]
        if cfg['fmt'] == 'zarr3':
            cfg['sep'] = '.' if cfg['enc'] == 'v2' else '/'
        ops = []
        mode = 'a'
        for o in s['ops']:
            o = dict(o)
            k = o['op']
            if k in ('rraw', 'keypath', 'foreach', 'unique', 'counts', 'trivial', 'rmds'):
                continue
            if k == 'par':
                o['progs'] = [to_py(rng, [{'id': '', 'cfg': s['cfg'], 'ops': pr}])[0]['ops'] for pr in o['progs']]
                o['switch'] = rng.choice([.005, .0001, .000001])
            if k in ('write', 'read'):
                o['api'] = rng.choice(['item', 'item', 'sub', 'direct', 'asarray'])
                if k == 'write':
                    o['lay'] = rng.choice([0, 0, 1, 2, 3])
                    if o['api'] == 'asarray':
                        o['api'] = 'item'
            if k == 'scalar':
                o['py'] = rng.random() < .5
            if k == 'open':
                o['how'] = rng.choice(['open', 'pickle', 'groupkey']) if o.get('mode') == mode else rng.choice(['open', 'groupkey'])
                mode = o.get('mode')
            if k == 'create':
                o['via'] = rng.choice(['create', 'create', 'require'])
            ops.append(o)
        out.append({'id': 'py-' + s['id'], 'cfg': cfg, 'ops': ops, 'hash': s.get('hash', False)})
    return out


# ------------------------------------------------------------ invalid requests
def invalid_op(rng, cfg):
    """one request the dataset must refuse, in real (unscaled) units; scale is 1"""
    shape, chunks = cfg['shape'], cfg['chunks']
    nd = len(shape)
    big = rng.choice([1, 2, 3, 7, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
                      (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 2])
    k = rng.random()
    if k < .5:                                # regions
        off, shp = G.rand_region(rng, cfg)
        a = rng.randrange(nd)
        m = rng.random()
        if m < .3:                            # just outside / far outside
            shp[a] = shape[a] - off[a] + rng.choice([1, 1, 2, chunks[a]])
        elif m < .5:                          # offset beyond the end
            off[a] = shape[a] + rng.choice([0, 1, chunks[a], big])
            shp[a] = rng.choice([1, 2])
        elif m < .65:                         # wraps around modulo 2^64
            shp[a] = (1 << 64) - rng.choice([1, 2, off[a], off[a] + 1, chunks[a]]) if rng.random() < .5 else big
            shp[a] = max(shp[a] % (1 << 64), shape[a] + 1)
            if rng.random() < .5:
                off[a] = (1 << 64) - rng.choice([1, 2, shape[a], chunks[a]])
        elif m < .8:                          # empty extent
            shp[a] = 0
        elif m < .9 and nd > 1:               # too few axes
            off, shp = off[:-1], shp[:-1]
        else:                                 # too many axes
            off, shp = off + [0], shp + [1]
        # the scalar interface takes bare iterators: it cannot be given a wrong number of axes
        kind = rng.choice(['write', 'read', 'scalar'] if len(off) == nd else ['write', 'read'])
        o = {'op': kind, 'off': off, 'shp': shp, 'rawreq': True, 'thr': G.thr(rng)}
        n = G.prod(shp)
        if kind == 'scalar':
            o['v'] = 5
        if kind == 'write':
            o['data'] = [5] * n if n <= 4096 else []
        if n > 4096 or n < 0:
            o['huge'] = True
        return o
    if k < .8:                                # chunk positions
        p = G.rand_pos(rng, cfg)
        a = rng.randrange(nd)
        m = rng.random()
        if m < .55:
            p[a] = G.grid(cfg)[a] + rng.choice([0, 0, 1, 5])
        elif m < .75:
            p[a] = big if big > G.grid(cfg)[a] else 1 << 40
        elif m < .88 and nd > 1:
            p = p[:-1]
        else:
            p = p + [0]
        kind = rng.choice(['wchunk', 'wchunk', 'rchunk', 'rchunk', 'exists', 'rmchunk'])
        o = {'op': kind, 'p': p}
        if kind == 'wchunk':
            o['data'] = [5] * G.prod(chunks)
            if cfg['fmt'] == 'n5' and rng.random() < .3:
                o['var'] = True
        if kind == 'rchunk':
            o['probe'] = rng.random() < .3
        return o
    if k < .9 and cfg['fmt'] != 'n5':          # variable-length chunks exist in n5 only
        return {'op': 'wchunk', 'p': G.rand_pos(rng, cfg), 'var': True, 'data': [5] * rng.choice([1, 2, 9])}
    off, shp = G.rand_region(rng, cfg)
    other = [t for t in ('uint8', 'int16', 'int32', 'float32', 'float64', 'uint64') if t != cfg['dtype']]
    return {'op': 'wrongtype', 'kind': rng.choice(['read', 'write', 'scalar']), 'as': rng.choice(other), 'off': off, 'shp': shp}


def invalid_scripts(chk, n, nops=24, varlen=True, py=False):
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = G.config(rng, scale_ok=False, max_cells=36)
        if py:
            cfg['chunks'] = [min(a, b) for a, b in zip(cfg['chunks'], cfg['shape'])]
            if cfg['shards']:
                cfg['shards'] = [c * rng.randint(1, 3) for c in cfg['chunks']]
        ops = [{'op': 'create'}]
        good = G.array_ops(rng, cfg, nops, varlen=varlen, reopen=False)
        for o in good:
            ops.append(o)
            for _ in range(rng.choice([0, 1, 2])):
                ops.append(invalid_op(rng, cfg))
            if rng.random() < .2:
                ops.append({'op': 'readall'})
        ops.append({'op': 'readall'})
        out.append({'id': 'inv-%d' % i, 'cfg': cfg, 'ops': [G.full_read(cfg) if o['op'] == 'readall' else o for o in ops], 'hash': True})
    return out


def to_py_invalid(rng, scripts):
    """requests the python layer can express and does not normalise: raw sub-array and chunk interface"""
    out = []
    for s in to_py(rng, scripts):
        ops = []
        for o in s['ops']:
            if o['op'] == 'wrongtype':
                continue                      # python converts to the type of the dataset
            if o.get('rawreq'):
                if o.get('huge') or o['op'] == 'scalar' or any(x >= 1 << 62 for x in o['off'] + o['shp']):
                    continue
                if any(x == 0 for x in o['shp']):
                    continue                  # empty selections are no-ops, as in numpy
                o['api'] = 'sub'
                if len(o['off']) == len(o['shp']) and rng.random() < .3:
                    # an offset that does not have the number of dimensions of the array
                    off = [0 if x >= 1 << 62 else x for x in o['off']]
                    off = rng.choice([[], off[:-1], off[1:], off + [0], off + [1, 0]])
                    if o['op'] == 'write' or len(off) > len(o['shp']):
                        o = dict(o, off=off)
                        if rng.random() < .5:
                            o['shp'] = [1] * len(o['shp'])
                            if o['op'] == 'write':
                                o['data'] = [5]
            if 'p' in o and any(x >= 1 << 63 for x in o['p']):
                continue
            ops.append(o)
        out.append(dict(s, ops=ops))
    return out


def presence_scripts(chk, n, nops=16):
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = G.config(rng, max_cells=40)
        ops = [{'op': 'create'}]
        for o in G.array_ops(rng, cfg, nops, varlen=rng.random() < .4):
            ops.append(o)
            if o['op'] in ('write', 'scalar', 'wchunk', 'rmchunk'):
                if rng.random() < .5:
                    ops += G.all_exists(cfg, 12)
                if rng.random() < .5:
                    ops.append({'op': 'disk'})
        ops += G.all_exists(cfg, 64) + [{'op': 'disk'}]
        out.append({'id': 'pres-%d' % i, 'cfg': cfg, 'ops': ops})
    return out


def chunk_scripts(chk, n, nops=20):
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = G.config(rng, max_cells=40, fmt='n5' if rng.random() < .5 else None)
        ops = [{'op': 'create'}]
        probe = rng.random() < .7
        for o in G.array_ops(rng, cfg, nops, varlen=True):
            ops.append(o)
            if o['op'] in ('write', 'scalar', 'wchunk', 'rmchunk') and rng.random() < .6:
                for e in G.all_exists(cfg, 10):
                    ops.append({'op': rng.choice(['rchunk', 'rchunk', 'rraw', 'cinfo']), 'p': e['p'], 'probe': probe})
                ops.append({'op': 'keypath', 'p': G.rand_pos(rng, cfg)})
        for e in G.all_exists(cfg, 64):
            ops += [{'op': 'rchunk', 'p': e['p']}, {'op': 'cinfo', 'p': e['p']}]
        out.append({'id': 'chunk-%d' % i, 'cfg': cfg, 'ops': resolve_readall(cfg, ops + [{'op': 'readall'}])})
    return out


def geo_op(rng):
    nd = rng.choice([1, 1, 2, 2, 3, 4])
    gs = [rng.randint(1, {1: 20, 2: 9, 3: 5, 4: 3}[nd]) for _ in range(nd)]
    bs = [rng.randint(1, s + 2) for s in gs]
    lo = [rng.randrange(s) for s in gs]
    return {'op': 'geo', 'gs': gs, 'bs': bs, 'lo': lo, 'shp': [rng.randint(1, s - a) for a, s in zip(lo, gs)],
            'el': [[rng.randrange(s) for s in gs] for _ in range(6)],
            'out': [[rng.randrange(-(-s // b) + 2) for s, b in zip(gs, bs)] for _ in range(4)] + [[0] * (nd + 1), [0] * (nd - 1)]}


def ro_scripts(chk, n, py=False):
    """phases with handles that were opened read-only"""
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = G.config(rng, scale_ok=False, max_cells=36)
        ops = [{'op': 'create'}]
        var = set()
        for phase in range(3):
            ops += G.array_ops(rng, cfg, 6, varlen=True, reopen=False, var=var)
            ops.append({'op': 'open', 'mode': 'r'})
            ro = G.array_ops(rng, cfg, 10, varlen=True, reopen=False, var=set(var))
            for _ in range(2):
                ro.append({'op': 'rmchunk', 'p': G.rand_pos(rng, cfg)})
                p = G.rand_pos(rng, cfg)
                ro.append({'op': 'wchunk', 'p': p, 'data': [rng.choice([0, 5])] * G.prod(G.clip(cfg, p))})
            if not cfg['dtype'].startswith('complex'):
                ro.append({'op': 'trivial', 'specific': False, 'v': 0, 'thr': G.thr(rng)})
            ro.append({'op': 'rmds', 'thr': G.thr(rng)})
            rng.shuffle(ro)
            ops += ro + [{'op': 'open', 'mode': rng.choice(['r+', 'a'])}]
        ops += G.all_exists(cfg, 30) + [{'op': 'disk'}]
        out.append({'id': 'ro-%d' % i, 'cfg': cfg, 'ops': ops, 'hash': True})
    return out


def util_scripts(chk, n, nops=14):
    """loops, block grids, unique values, trivial chunks, removal; constant values, scale 1"""
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = G.config(rng, scale_ok=False, max_cells=48)
        if cfg.get('fillspecial') in ('nan', '-inf'):      # NaN is not ordered (and constant 6 where -inf is the fill value)
            del cfg['fillspecial']
        cplx = cfg['dtype'].startswith('complex')
        # NaN (constant 7 of floats) is not ordered: it has no place in sets of unique values
        uniq = not cplx and (not cfg['dtype'].startswith('float') or rng.random() < .5)
        vals = [0, 5, 6] if uniq and cfg['dtype'].startswith('float') else [0, 5, 6, 7]
        ops = [{'op': 'create'}]
        for _ in range(nops):
            k = rng.random()
            v = rng.choice(vals)
            if k < .25:
                off, shp = G.rand_region(rng, cfg)
                ops.append({'op': 'write', 'off': off, 'shp': shp, 'thr': G.thr(rng),
                            'data': [v] * G.prod(shp) if rng.random() < .5 else [rng.choice(vals) for _ in range(G.prod(shp))]})
            elif k < .35:
                p = G.rand_pos(rng, cfg)
                m = G.prod(G.clip(cfg, p))
                ops.append({'op': 'wchunk', 'p': p, 'data': [v] * m if rng.random() < .7 else [rng.choice([0, 5, 6]) for _ in range(m)],
                            'junk': False})
            elif k < .45 and uniq:
                ops.append({'op': rng.choice(['unique', 'counts']), 'thr': G.thr(rng)})
            elif k < .52 and not cplx:
                sp = rng.random() < .5
                ops.append({'op': 'trivial', 'specific': sp, 'v': rng.choice([5, 6, 0] if 'float' in cfg['dtype'] else [5, 6, 7, 0]) if sp else 0, 'thr': G.thr(rng)})
                ops += G.all_exists(cfg, 20)
            elif k < .6:
                ops.append({'op': 'foreach', 'kind': 'chunk', 'thr': G.thr(rng)})
            elif k < .72:
                ops.append({'op': 'foreach', 'kind': 'block', 'bs': [rng.randint(1, s + 2) for s in cfg['shape']], 'thr': G.thr(rng)})
            elif k < .97:
                lo = [rng.randrange(s) for s in cfg['shape']]
                hi = [rng.randint(a + 1, s) for a, s in zip(lo, cfg['shape'])]
                o = {'op': 'foreach', 'kind': rng.choice(['chunkroi', 'blockroi']), 'lo': lo, 'hi': hi, 'thr': G.thr(rng)}
                if o['kind'] == 'blockroi':
                    o['bs'] = [rng.randint(1, s + 2) for s in cfg['shape']]
                ops.append(o)
            else:
                ops += [{'op': 'rmds', 'thr': G.thr(rng)}, {'op': 'create'}]
        for _ in range(3):
            ops.append(geo_op(rng))
        ops.append(G.full_read(cfg))
        out.append({'id': 'util-%d' % i, 'cfg': cfg, 'ops': ops})
    return out


# ------------------------------------------------------- reopening, relays
def strong_config(rng, i):
    """everything that creation can be asked for, spelled out more often than in other checks"""
    cfg = G.config(rng, fmt=['n5', 'zarr2', 'zarr3'][i % 3])
    c = cfg['codec']
    if rng.random() < .6:                        # all settings explicit
        if c == 'blosc':
            cfg['opts'] = {'codec': rng.choice(['lz4', 'lz4hc', 'blosclz', 'zlib', 'zstd']), 'level': rng.choice([0, 1, 4, 9]),
                           'shuffle': rng.choice([0, 1, 2]), 'blocksize': rng.choice([0, 32, 128])}
        elif c != 'raw':
            lv = {'gzip': [0, 1, 4, 9], 'zlib': [1, 3, 9], 'bzip2': [1, 3, 9], 'xz': [0, 4, 8], 'lz4': [1, 2, 9], 'zstd': [1, 4, 17]}[c]
            cfg['opts'] = dict(cfg['opts'], level=rng.choice(lv))
    t = cfg['dtype']
    if cfg['fmt'] != 'n5' and rng.random() < .5:
        lim = {'int8': [-128, 127], 'uint8': [255], 'int16': [-32768, 32767], 'uint16': [65535], 'int32': [-2 ** 31, 2 ** 31 - 1],
               'uint32': [2 ** 32 - 1], 'int64': [-2 ** 63, 2 ** 53, -2 ** 53], 'uint64': [2 ** 53, 2 ** 63], 'float32': [0.1, 3e38, -1e-40, 1e-7],
               'float64': [0.1, 1e300, 5e-324, -1.7976931348623157e308, 1 / 3]}
        if t in lim:
            cfg['fillreal'] = rng.choice(lim[t])
            cfg.pop('fillspecial', None)
            if t.startswith('float') and rng.random() < .4:
                cfg['fillspecial'] = rng.choice(['nan', 'inf', '-inf'])
    cfg['file'] = 'c.n5' if cfg['fmt'] == 'n5' else 'c.zarr'
    return cfg


def reopen_scripts(chk, n, nops=14):
    """histories with a reopening between any two operations, and everything the dataset says of itself"""
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = strong_config(rng, i)
        tail = [{'op': 'meta'}, {'op': 'metadoc'}]
        ops = [{'op': 'create'}] + tail
        for o in G.array_ops(rng, cfg, nops, varlen=rng.random() < .3, reopen=False):
            ops.append(o)
            if rng.random() < .5:
                ops.append({'op': 'open', 'mode': rng.choice(['r', 'r+', 'a']) if o['op'] in ('read', 'exists') else rng.choice(['r+', 'a'])})
                if ops[-1]['mode'] == 'r':
                    ops += [{'op': 'readall'}, {'op': 'open', 'mode': 'a'}]
                if rng.random() < .4:
                    ops += tail
                if rng.random() < .4:
                    ops.append({'op': 'readall'})
        ops += [{'op': 'open', 'mode': 'r'}] + tail + [{'op': 'readall'}, {'op': 'disk'}]
        out.append({'id': 'reopen-%d' % i, 'cfg': cfg, 'ops': resolve_readall(cfg, ops), 'hash': True})
    return out


def relay(exe, pykw={}):
    """run scripts as a relay: every leg in another process, alternating between the C++ and the python layer
    on the same files; the first operation of a leg opens the dataset"""
    def go(scripts):
        base = vlib.scratch()
        legs = max(len(s['legs']) for s in scripts)
        roots, evs = {}, {s['id']: [] for s in scripts}
        for k, s in enumerate(scripts):
            roots[s['id']] = vlib.os.path.join(base, 'relay-%d' % k)
        for i in range(legs):
            for layer in ('cxx', 'py'):
                part = [dict(id=s['id'], cfg=s['cfg'], hash=True, root=roots[s['id']], ops=s['legs'][i]['ops'])
                        for s in scripts if i < len(s['legs']) and s['legs'][i]['layer'] == layer]
                if not part:
                    continue
                res = vlib.run_zdrv(exe, part) if layer == 'cxx' else vlib.run_py('pyarr', part, **pykw)
                for s, r in zip(part, res):
                    evs[s['id']] += r
        for r in roots.values():
            if r.startswith(base):
                vlib.shutil.rmtree(r, ignore_errors=True)
        return [{'id': s['id'], 'cfg': G.strip_for_tla(s['cfg']), 'ev': decode.postprocess(s['cfg'], evs[s['id']])} for s in scripts]
    return go


def relay_scripts(chk, n):
    rng = chk.rng
    src = reopen_scripts(chk, n, nops=12)
    add_junk(src)
    both = to_py(rng, src)
    by = {s['id'][3:]: s for s in both}
    out = []
    for s in src:
        if s['id'] not in by:
            continue
        p = by[s['id']]
        cfg = p['cfg']
        legs, cur = [], None
        layer = rng.choice(['cxx', 'py'])
        for o in p['ops']:
            if cur is None or (o['op'] == 'open' and len(cur['ops']) > 1):
                cur = {'layer': layer, 'ops': []}
                legs.append(cur)
                layer = 'py' if layer == 'cxx' else 'cxx'
            cur['ops'].append(o)
        while len(legs) > 8:                     # no more than eight legs
            tail = legs.pop()
            legs[-1]['ops'] += tail['ops']
        out.append({'id': 'relay-' + s['id'], 'cfg': cfg, 'legs': legs, 'ops': sum((x['ops'] for x in legs), [])})
    return out
