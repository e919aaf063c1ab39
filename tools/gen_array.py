"""Random dataset configurations and operation scripts (abstract values, see drivers/enc.py)."""
import json

NUM = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64']
CPLX = ['complex64', 'complex128']


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def codec_for(rng, fmt):
    c = rng.choice({'n5': ['raw', 'gzip', 'gzip', 'bzip2', 'xz', 'lz4', 'blosc', 'zstd'],
                    'zarr2': ['raw', 'zlib', 'zlib', 'gzip', 'bzip2', 'lz4', 'blosc', 'zstd'],
                    'zarr3': ['raw', 'gzip', 'gzip', 'blosc', 'zstd']}[fmt])
    o = {}
    if c in ('gzip', 'zlib'):
        if rng.random() < .6:
            o['level'] = rng.choice([0, 1, 5, 6, 9])
        if c == 'zlib' and fmt == 'zarr2':
            o['useZlib'] = True
        if c == 'gzip':
            o['useZlib'] = fmt == 'n5' and rng.random() < .3
    elif c == 'bzip2' and rng.random() < .6:
        o['level'] = rng.choice([1, 5, 9])
    elif c == 'xz' and rng.random() < .6:
        o['level'] = rng.choice([0, 3, 6])
    elif c == 'lz4' and rng.random() < .6:
        o['level'] = rng.choice([1, 3, 6])
    elif c == 'zstd' and rng.random() < .6:
        o['level'] = rng.choice([1, 3, 10, 19])
    elif c == 'blosc' and rng.random() < .7:
        o = {'codec': rng.choice(['lz4', 'lz4hc', 'blosclz', 'zlib', 'zstd']), 'level': rng.choice([0, 1, 5, 9]),
             'shuffle': rng.choice([0, 1, 2]), 'blocksize': rng.choice([0, 0, 64])}
    return c, o


def huge_scale(rng, cfg):
    """cells so large that chunks have 100 KB to 2 MB and shards several MB"""
    size = int(''.join(x for x in cfg['dtype'] if x.isdigit())) // 8
    cells = min(2. ** rng.uniform(17, 21) / size / prod(cfg['chunks']), 2. ** 24 / size / prod(cfg['shape']))
    return [max(1, int(max(1., cells) ** (1. / len(cfg['shape']))) + rng.randint(0, 1)) for _ in cfg['shape']]


def config(rng, fmt=None, max_cells=48, max_dim=4, sharded=None, dtypes=None, scale_ok=True, fillzero=False,
           big_scale=False):
    fmt = fmt or rng.choice(['n5', 'zarr2', 'zarr3', 'zarr3'])
    nd = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5][:max(1, 2 * max_dim + (max_dim == 4))])
    nd = min(nd, max_dim + (max_dim == 4))
    while True:
        hi = {1: 14, 2: 8, 3: 5, 4: 4}.get(nd, 3)
        shape = [rng.randint(1, hi) for _ in range(nd)]
        if prod(shape) <= max_cells:
            break
    chunks = [rng.choice([rng.randint(1, max(1, s)), rng.randint(1, max(1, (s + 1) // 2)), rng.randint(1, s + 2)]) for s in shape]
    if sharded is None:
        sharded = fmt == 'zarr3' and rng.random() < .6
    cfg = {'fmt': fmt, 'shape': shape, 'chunks': chunks, 'shards': [], 'fill': 0}
    pool = list(dtypes or NUM)
    if dtypes is None and fmt == 'zarr2' and rng.random() < .2:
        pool = CPLX
    cfg['dtype'] = rng.choice(pool)
    if sharded and fmt == 'zarr3':
        cfg['shards'] = [c * rng.randint(1, 3) for c in chunks]
    cfg['codec'], cfg['opts'] = codec_for(rng, fmt)
    if fmt == 'zarr2':
        cfg['sep'] = rng.choice(['.', '.', '/'])
    elif fmt == 'zarr3':
        cfg['enc'] = rng.choice(['default', 'default', 'v2'])
        cfg['sep'] = rng.choice(['/', '.'] if cfg['enc'] == 'default' else ['.', '/'])
    else:
        cfg['sep'] = '/'
    cfg.setdefault('enc', 'default')
    cfg['scale'] = [1] * nd
    if scale_ok and rng.random() < .4:
        cfg['scale'] = [rng.randint(1, 3) for _ in range(nd)]
    if big_scale == 'huge':
        cfg['scale'] = huge_scale(rng, cfg)
    elif big_scale:
        cfg['scale'] = [rng.randint(4, 12) for _ in range(nd)]
    cfg['fillreal'] = 0
    if fmt != 'n5' and not fillzero:
        k = cfg['dtype']
        r = rng.random()
        if k.startswith('u'):
            cfg['fillreal'] = rng.choice([0, 1, 7, 255, min(2 ** int(k[4:]) - 1, 2 ** 53)])
        elif k == 'int8':
            cfg['fillreal'] = rng.choice([0, -1, 7, -128, 127])
        elif k.startswith('int'):
            cfg['fillreal'] = rng.choice([0, -1, 42, -32768, max(-2 ** (int(k[3:]) - 1), -2 ** 53), min(2 ** (int(k[3:]) - 1) - 1, 2 ** 62)])
        elif k.startswith('float'):
            cfg['fillreal'] = rng.choice([0, 1.5, -42, 0.5, 1e-30])
            if r < .15:
                cfg['fillspecial'] = rng.choice(['inf', '-inf', 'nan', 'nan'])
    return cfg


def grid(cfg, bs=None):
    return [(s + c - 1) // c for s, c in zip(cfg['shape'], bs or cfg['chunks'])]


def rand_pos(rng, cfg):
    return [rng.randrange(g) for g in grid(cfg)]


def clip(cfg, p):
    return [min((q + 1) * c, s) - q * c for q, c, s in zip(p, cfg['chunks'], cfg['shape'])]


def rand_region(rng, cfg, aligned=None):
    off, shp = [], []
    mode = rng.random() if aligned is None else (0 if aligned else 1)
    for s, c in zip(cfg['shape'], cfg['chunks']):
        if mode < .25:                       # whole chunks
            g = (s + c - 1) // c
            a = rng.randrange(g)
            b = rng.randint(a + 1, g)
            lo, hi = a * c, min(b * c, s)
        elif mode < .35:
            lo, hi = 0, s
        else:
            lo = rng.randrange(s)
            hi = rng.randint(lo + 1, s)
        off.append(lo)
        shp.append(hi - lo)
    return off, shp


def rand_data(rng, n):
    r = rng.random()
    if r < .2:
        return [0] * n
    if r < .3:
        v = rng.choice([1, 2, 5, 6])
        return [v] * n
    if r < .55:                              # mostly fill
        return [rng.choice([0, 0, 0, 0, 0, rng.randint(1, 7)]) for _ in range(n)]
    return [rng.randint(0, 7) for _ in range(n)]


def rand_chunk_data(rng, n):
    """single-value and all-fill chunks often"""
    r = rng.random()
    if r < .25:
        return [0] * n
    if r < .35:                              # exactly one element is not fill
        d = [0] * n
        d[rng.choice([0, n - 1, rng.randrange(n)])] = rng.randint(1, 7)
        return d
    return rand_data(rng, n)


def thr(rng):
    return rng.choice([1, 1, 1, 2, 3, 8, 0, -1])


def array_ops(rng, cfg, n, varlen=False, disk=False, reopen=True, chunk_level=True, invalid=0.0, tracker=None, var=None):
    """n random operations.  Region requests avoid chunks known to be variable-length (tracked here)."""
    ops = []
    var = set() if var is None else var      # chunks that may be of variable length
    nd = len(cfg['shape'])

    def touched(off, shp):
        lo = [o // c for o, c in zip(off, cfg['chunks'])]
        hi = [(o + s - 1) // c for o, s, c in zip(off, shp, cfg['chunks'])]
        return any(all(a <= q <= b for a, q, b in zip(lo, p, hi)) for p in var)

    def region():
        for _ in range(20):
            off, shp = rand_region(rng, cfg)
            if not touched(off, shp):
                return off, shp
        return None

    for _ in range(n):
        k = rng.random()
        if varlen and cfg['fmt'] == 'n5' and k < .25:
            p = rand_pos(rng, cfg)
            ln = rng.choice([0, 1, 2, 3, 5, 9, 17])
            ops.append({'op': 'wchunk', 'p': p, 'var': True, 'data': [rng.randint(0, 7) for _ in range(ln)]})
            if ln:
                var.add(tuple(p))
            else:
                var.discard(tuple(p))
        elif k < .42:
            r = region()
            if r is None:
                continue
            off, shp = r
            ops.append({'op': 'write', 'off': off, 'shp': shp, 'data': rand_data(rng, prod(shp)), 'thr': thr(rng),
                        'lay': rng.choice([0, 0, 1, 2, 3])})
        elif k < .52:
            r = region()
            if r is None:
                continue
            off, shp = r
            ops.append({'op': 'scalar', 'off': off, 'shp': shp, 'v': rng.choice([0, 0, 5, 6, 7]), 'thr': thr(rng)})
        elif k < .68 or not chunk_level:
            r = region()
            if r is None:
                continue
            off, shp = r
            ops.append({'op': 'read', 'off': off, 'shp': shp, 'thr': thr(rng), 'lay': rng.choice([0, 0, 1, 2, 3])})
        elif k < .78:
            p = rand_pos(rng, cfg)
            ops.append({'op': 'wchunk', 'p': p, 'data': rand_chunk_data(rng, prod(clip(cfg, p)))})
            var.discard(tuple(p))
        elif k < .83:
            p = rand_pos(rng, cfg)
            ops.append({'op': 'rchunk', 'p': p})
        elif k < .86:
            p = rand_pos(rng, cfg)
            ops.append({'op': 'rraw', 'p': p})
        elif k < .91:
            p = rand_pos(rng, cfg)
            ops.append({'op': 'rmchunk', 'p': p})
            var.discard(tuple(p))
        elif k < .95:
            p = rand_pos(rng, cfg)
            ops.append({'op': 'exists', 'p': p})
        elif k < .97:
            p = rand_pos(rng, cfg)
            ops.append({'op': 'cinfo', 'p': p})
        elif reopen:
            ops.append({'op': 'open', 'mode': rng.choice(['r+', 'a'])})
        if disk and rng.random() < disk:
            ops.append({'op': 'disk'})
    if tracker is not None:
        tracker.update(var)
    return ops


def full_read(cfg, **kw):
    d = {'op': 'read', 'off': [0] * len(cfg['shape']), 'shp': list(cfg['shape'])}
    d.update(kw)
    return d


def all_exists(cfg, limit=30):
    g = grid(cfg)
    out = []
    for k in range(min(prod(g), limit)):
        p, r = [], k
        for x in reversed(g):
            p.append(r % x)
            r //= x
        out.append({'op': 'exists', 'p': p[::-1]})
    return out


def canon(v):
    return json.dumps(v, sort_keys=True)


def canon_fill(v):
    """one spelling for every fill value"""
    if isinstance(v, str):
        return {'nan': 'NaN', 'inf': 'Infinity', '-inf': '-Infinity'}.get(v.lower(), v)
    return repr(float(v))


def strip_for_tla(cfg):
    d = {k: cfg[k] for k in ('fmt', 'shape', 'chunks', 'shards', 'fill', 'sep', 'enc', 'scale', 'dtype', 'codec')}
    d['copts'] = [] if cfg.get('nocopts') else sorted([k, canon(v)] for k, v in cfg['opts'].items())
    d['wfill'] = canon_fill(cfg.get('fillspecial') or cfg.get('fillreal', 0))
    return d
