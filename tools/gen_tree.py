"""Scripts for TraceTree: walks through the state graph of MCTree and random histories.

The generator tracks the tree it expects only to choose sensible operations; what the
recorded events mean is judged by the specification."""
import copy
import json
import random

DT = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64']
MODES = ['r', 'r+', 'a']
NAMES = ['a', 'b', 'c', 'd0', '0', '1', 'data', 'sub group', 'x.y', '.h', 'ü', 'c0', 'a1']
JVALS = [1, 0, -5, 2 ** 63, 2 ** 64 - 1, -2 ** 63, 1.5, -0.25, 1e300, 5e-324, True, False, None, '', 'text', 'üñí ☃ \U0001F600',
         '"quoted"\\ \n\t', [], {}, [1, 2, 3], [1, 'a', None, [2.5, {}]], {'a': {'b': [1, {'c': None}]}}, {'': 0, 'ü': [True]},
         [[1, 2], [3, 4]], 0.1, 1e-7, 123456789012345678, 'x' * 300, {'dimensions': [1], 'zarr_format': 7}, [0.0], 3.0,
         {'__ext__': [3, 5]}, {'__ext__': []}]
KEYS = ['k', 'key', 'a b', 'a.b', 'a/b', 'ü', 'zarr_format', 'shape', 'attributes', 'node_type', 'compressor', 'chunks', 'K',
        'fill_value', 'offset', 'resolution', '0', '.zattrs']
N5RES = ['dimensions', 'blockSize', 'dataType', 'compression', 'compressionType']


def canon(v):
    return json.dumps(v, sort_keys=True)


def metas(rng, fmt, n, py=True):
    out = []
    for i in range(n):
        nd = rng.choice([1, 1, 2, 2, 3])
        shape = [rng.randint(1, 5) for _ in range(nd)]
        chunks = [rng.randint(1, s + 1) for s in shape]
        if out and rng.random() < .5:                       # differ from another one in a single respect
            o = rng.choice(out)
            shape, chunks = list(o['rshape']), list(o['rchunks'])
            if rng.random() < .4:
                k = rng.randrange(len(shape))
                shape[k] += 1
            elif rng.random() < .5:
                chunks[rng.randrange(len(shape))] += 1
        nd = len(shape)
        dtype = rng.choice(DT)
        if out and rng.random() < .3:
            dtype = rng.choice(out)['rdtype']
        codec, opts = codec_for(rng, fmt, py)
        shards = []
        if fmt == 'zarr3' and rng.random() < .5:
            shards = [min(c, s) * rng.randint(1, 3) for c, s in zip(chunks, shape)]
            if not py:
                shards = [c * rng.randint(1, 3) for c in chunks]
        fill = 0 if fmt == 'n5' else rng.choice([0, 0, 3, 7])
        vals = [fill] + [x for x in [1, 2, 100, 11] if x != fill][:3]
        clipped = [min(c, s) for c, s in zip(chunks, shape)] if py else list(chunks)
        want = {'shape': canon(shape), 'chunks': canon(clipped), 'dtype': dtype, 'codec': codec or default_codec(fmt),
                'shards': canon(shards)}
        want['opts'] = canon(full_opts(codec or default_codec(fmt), opts))
        m = {'shape': want['shape'], 'chunks': want['chunks'], 'dtype': dtype, 'want': want,
             'rshape': shape, 'rchunks': chunks, 'rdtype': dtype, 'rcodec': codec, 'ropts': opts, 'rshards': shards,
             'fill': fill, 'vals': vals}
        if fmt == 'zarr3':
            m['enc'] = rng.choice(['default', 'default', 'v2'])
        out.append(m)
    return out


def default_codec(fmt):
    return 'gzip' if fmt == 'n5' else 'blosc'


def full_opts(codec, opts):
    if codec == 'blosc':
        return {'codec': opts.get('codec', 'lz4'), 'level': opts.get('level', opts.get('clevel', 5)),
                'shuffle': opts.get('shuffle', 1), 'blocksize': opts.get('blocksize', 0)}
    if codec == 'raw':
        return {}
    return {'level': opts.get('level', {'xz': 6, 'lz4': 6, 'zstd': 3}.get(codec, 5))}


def codec_for(rng, fmt, py):
    c = rng.choice({'n5': ['raw', 'gzip', 'bzip2', 'xz', 'lz4', 'blosc', 'zstd'],
                    'zarr2': ['raw', 'zlib', 'gzip', 'bzip2', 'blosc', 'zstd'],
                    'zarr3': ['raw', 'gzip', 'blosc', 'zstd']}[fmt])
    if rng.random() < .15:
        return None, {}
    o = {}
    if rng.random() < .5:
        if c in ('gzip', 'zlib', 'bzip2', 'xz', 'lz4'):
            o = {'level': rng.choice([1, 2, 9] if c != 'xz' else [0, 4, 7])}
        elif c == 'zstd':
            o = {'level': rng.choice([1, 7, 12])}
        elif c == 'blosc':
            o = {'codec': rng.choice(['lz4', 'zstd', 'zlib', 'blosclz', 'lz4hc']), 'shuffle': rng.choice([0, 1, 2])}
            if rng.random() < .5:
                o['level'] = rng.choice([0, 1, 9])
            if rng.random() < .3:
                o['blocksize'] = 64
    return c, o


def config(rng, fmt=None, n=3, py=True):
    fmt = fmt or rng.choice(['n5', 'zarr2', 'zarr3'])
    c = {'fmt': fmt, 'metas': metas(rng, fmt, n, py), 'jvals': JVALS}
    if fmt == 'zarr2':
        c['sep'] = rng.choice(['.', '/', '.'])
    if py and rng.random() < .5:
        c['file'] = rng.choice(FILES[fmt])
    return c


def for_tla(cfg):
    return {'fmt': cfg['fmt'], 'metas': [{k: m[k] for k in ('shape', 'chunks', 'dtype', 'want')} for m in cfg['metas']]}


FILES = {'n5': ['c.n5', 'C.N5', 'c', 'a.b', 'x y.n5', 'z.zarr.n5', 'zarr'],
         'zarr2': ['c.zarr', 'C.ZARR', 'c.zr', 'c.Zr', 'n.n5.zarr', 'x y.zarr']}
FILES['zarr3'] = FILES['zarr2']
MOVED = {'n5': FILES['n5'], 'zarr2': FILES['zarr2'] + ['plain', 'a.b']}     # known by their contents
MOVED['zarr3'] = MOVED['zarr2']
BADOPEN = {'n5': ['format', 'mode'], 'zarr2': ['format', 'mode', 'version', 'sep'], 'zarr3': ['format', 'mode', 'version', 'sep']}


BAD_PY = ['codecfmt', 'enc', 'dtype', 'bool', 'str', 'rank', 'zero', 'negchunk', 'negshape', 'codec', 'option', 'shards', 'shardrank', 'fill', 'noshape',
          'nodtype', 'empty', 'datashape', 'datatype']


class Tracker:
    """the expected tree, to choose operations and to add what the driver needs to know"""

    def __init__(self):
        self.ex = False
        self.n = {}

    def parent_ok(self, p):
        return all(self.n.get(p[:i], ('g',))[0] == 'g' for i in range(len(p)))

    def place(self, p, x):
        for i in range(len(p)):
            self.n.setdefault(p[:i], ('g', 0))
        self.n[p] = x

    def apply(self, o):
        op, mode, p = o['op'], o.get('mode'), tuple(o.get('path', ()))
        w = mode != 'r'
        if op == 'fopen':
            if o.get('bad'):
                return
            if mode == 'w' or (not self.ex and mode in ('a', 'w-')):
                self.ex, self.n = True, {(): ('g', 0)}
        elif op == 'mkfile':
            if mode in ('a', 'w', 'w-') and not self.ex and not o.get('bad'):
                self.ex, self.n = True, {(): ('g', 0)}
        elif op == 'rmfile':
            if w and self.ex:
                self.ex, self.n = False, {}
        elif not self.ex:
            return
        elif op in ('mkgroup', 'reqgroup'):
            if w and not o.get('bad') and p not in self.n and self.parent_ok(p):
                self.place(p, ('g', 0))
        elif op in ('mkds', 'reqds'):
            if w and p not in self.n and self.parent_ok(p) and not o['bad']:
                self.place(p, ('d', o['m']))
        elif op == 'clone':
            src = self.n.get(tuple(o['src']), ('?',))
            if w and src[0] == 'd' and p not in self.n and self.parent_ok(p):
                self.place(p, src)
        elif op == 'del':
            if w and p in self.n and p:
                for q in [q for q in self.n if q[:len(p)] == p]:
                    del self.n[q]


def decorate(rng, tr, o):
    """spelling of the path, way to reach the node"""
    p = tuple(o.get('path', ()))
    if not p or o['op'] in ('fopen',):
        return
    r = rng.random()
    if r < .35:
        o['deco'] = rng.choice([1, 2, 3])
    groups = [i for i in range(1, len(p)) if tr.n.get(p[:i], ('?',))[0] == 'g' and all(tr.n.get(p[:j], ('?',))[0] == 'g' for j in range(i))]
    if groups and rng.random() < .5:
        o['via'] = rng.choice(groups)
    if rng.random() < .4:
        o['cached'] = True


def finish(rng, cfg, tr, ops, names=NAMES, py=True):
    """fill in what the driver needs; drop operations that cannot be asked"""
    out = []
    for o in ops:
        o = dict(o)
        op, p = o['op'], tuple(o.get('path', ()))
        if op in ('mkds', 'reqds'):
            if op == 'reqds':
                o.setdefault('wc', rng.random() < .6)
                o.setdefault('wt', True)
                if p in tr.n and tr.n[p][0] == 'd':
                    o['bad'] = False
                    if rng.random() < .4:
                        o['wt'] = rng.random() < .5
                if rng.random() < .3:
                    o['listargs'] = True
                if not (p in tr.n):
                    o['wc'], o['wt'] = True, True
            if o['bad']:
                o['how'] = rng.choice([b for b in BAD_PY if ok_bad(cfg, o['m'], b) and
                                       (op == 'mkds' or b not in ('noshape', 'datatype', 'datashape'))])
                o['v'] = 0
            elif o.get('v', 0) and op == 'mkds' and rng.random() < .5:
                o['implied'] = True
            o.setdefault('v', 0)
            if op == 'reqds' and p in tr.n:
                o['v'] = 0
        if op == 'clone':
            src = tr.n.get(tuple(o['src']), ('?', 0))
            o['mm'] = src[1] if src[0] == 'd' else 1
        if op in ('dset', 'dget'):
            o['mm'] = tr.n[p][1] if p in tr.n and tr.n[p][0] == 'd' else 1
            if op == 'dset':
                o['how'] = rng.choice([0, 1, 2, 3, 4])
        if op == 'aset':
            o['items'] = [[k, v if isinstance(v, int) else 0] for k, v in o['items']]
            if len(o['items']) != 1 or rng.random() < .3:
                o['upd'] = rng.choice([1, 2])
            if o['bad']:
                o['badval'] = rng.choice(['nan', 'inf', 'object', 'bytes', 'set'])
                o['upd'] = 1
        if op == 'adel' and rng.random() < .3 and py:
            o['pop'] = True
        if op in ('keys', 'aall'):
            o['how'] = rng.choice([0, 1, 2, 3])
        if op in ('mkds', 'reqds') and not o['bad'] and plain_chunks(cfg, o['m']) and rng.random() < .5:
            o['nochunks'] = True
            if op == 'reqds':
                o['wc'] = False
        if op in ('aset', 'aget', 'aall'):
            o['codec'] = rng.random() < .25
        if op == 'fopen':
            o['how'] = rng.randrange(12)
            if o.get('bad'):
                o['badhow'] = rng.choice(BADOPEN[cfg['fmt']] + (['alien'] if tr.ex and o['mode'] != 'w' else []))
            else:
                o['plain'] = tr.ex and o['mode'] != 'w' and rng.random() < .4
                o['ctx'] = rng.random() < .2
        if op == 'pickle':
            o['use'] = rng.random() < .5
        if op == 'has':
            o['get'] = rng.random() < .3
        decorate(rng, tr, o)
        tr.apply(o)
        out.append(o)
    return out


def plain_chunks(cfg, m):
    """is the chunk shape what is taken when none is given?"""
    d = cfg['metas'][m - 1]
    return json.loads(d['chunks']) == d['rshape']


def ok_bad(cfg, m, b):
    d = cfg['metas'][m - 1]
    if b == 'enc':
        return cfg['fmt'] == 'zarr3'
    if b == 'fill':
        return cfg['fmt'] == 'n5' or not d['rdtype'].startswith('f')
    if b == 'shardrank':
        return cfg['fmt'] == 'zarr3'
    return True


def queries(rng, tr, names, k, mode=None):
    """a few questions about the present state"""
    nodes = sorted(tr.n)
    out = []
    if not tr.ex:
        return out
    for _ in range(k):
        r = rng.random()
        p = list(rng.choice(nodes)) if rng.random() < .75 else list(rng.choice(nodes)) + [rng.choice(names)]
        md = mode or rng.choice(MODES)
        q = rng.choice(['has', 'isg', 'get', 'keys', 'visit', 'visitstop', 'aget', 'ahas', 'aall', 'aall', 'dget', 'pickle'])
        o = {'op': q, 'mode': md, 'path': p}
        if q in ('has', 'isg') and not p:
            o['path'] = [rng.choice(names)]
        if q == 'visitstop':
            o['stop'] = rng.choice(names)
        if q in ('aget', 'ahas'):
            o['key'] = rng.choice(KEYS[:8] + N5RES[:2])
            if tr.n.get(tuple(p), ('?',))[0] == 'd' and o['key'] in N5RES and False:
                o['key'] = 'k'
        out.append(o)
    return out


def audit(tr, mode='r'):
    """everything that can be asked about the tree"""
    out = []
    if not tr.ex:
        return out
    out.append({'op': 'visit', 'mode': mode, 'path': []})
    for p in sorted(tr.n):
        out.append({'op': 'get', 'mode': mode, 'path': list(p)})
        out.append({'op': 'aall', 'mode': mode, 'path': list(p)})
        if tr.n[p][0] == 'g':
            out.append({'op': 'keys', 'mode': mode, 'path': list(p)})
        else:
            out.append({'op': 'dget', 'mode': mode, 'path': list(p)})
    return out


def changes(rng, cfg, tr, names, op):
    """one change that should succeed, or None"""
    nodes = sorted(tr.n)
    groups = [p for p in nodes if tr.n[p][0] == 'g']
    dss = [p for p in nodes if tr.n[p][0] == 'd']
    o = {'op': op, 'mode': rng.choice(['a', 'r+'])}
    if op in ('mkgroup', 'reqgroup', 'mkds', 'reqds'):
        p = list(rng.choice(groups)) + [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))]
        if tuple(p) in tr.n or not tr.parent_ok(tuple(p)) or len(p) > 5:
            return None
        o['path'] = p
        if op in ('mkds', 'reqds'):
            o.update(m=rng.randint(1, len(cfg['metas'])), bad=False, v=rng.choice([0, 1, 2]))
    elif op in ('aset', 'adel'):
        o['path'] = list(rng.choice(nodes))
        if op == 'aset':
            o.update(items=[[k, rng.randrange(len(JVALS))] for k in rng.sample(KEYS, rng.choice([1, 1, 2]))], bad=False)
        else:
            o['key'] = rng.choice(KEYS)
    elif op == 'dset':
        if not dss:
            return None
        o.update(path=list(rng.choice(dss)), v=rng.choice([0, 1, 2, 3]))
    elif op == 'del':
        if len(nodes) < 2:
            return None
        o['path'] = list(rng.choice(nodes[1:]))
    t2 = copy.deepcopy(tr)
    return finish(rng, cfg, t2, [o])[0]


def around(o):
    """questions about the node that an operation addressed, and about its parents"""
    p = o['path']
    out = []
    for i in range(1, len(p) + 1):
        out += [{'op': 'has', 'mode': 'r', 'path': p[:i]}, {'op': 'get', 'mode': 'r', 'path': p[:i]},
                {'op': 'isg', 'mode': 'r', 'path': p[:i]}]
    out.append({'op': 'aall', 'mode': 'r', 'path': p})
    return out


def random_ops(rng, cfg, tr, n, names, weights):
    """one history; operations are mostly but not always sensible"""
    kinds = [k for k, w in weights.items() for _ in range(w)]
    ops = []

    def add(os):
        ops.extend(finish(rng, cfg, tr, os))
    if rng.random() < .15:
        add([{'op': 'fopen', 'mode': rng.choice(['a', 'w', 'w-']), 'bad': True}])
    add([{'op': 'fopen', 'mode': rng.choice(['a', 'w', 'w-']), 'bad': False}])
    for _ in range(n):
        k = rng.choice(kinds)
        nodes = sorted(tr.n) or [()]
        groups = [p for p in nodes if tr.n.get(p, ('g',))[0] == 'g']
        dss = [p for p in nodes if tr.n.get(p, ('g',))[0] == 'd']
        mode = rng.choice(['a', 'a', 'r+', 'r+', 'r'])
        if k == 'q':
            add(queries(rng, tr, names, 2))
        elif k == 'audit':
            add(audit(tr, rng.choice(MODES)))
        elif k == 'fopen':
            m = rng.choice(['r', 'r+', 'a', 'w-', 'a', 'r'] + (['w'] if rng.random() < .15 else []))
            add([{'op': 'fopen', 'mode': m, 'bad': False}] if rng.random() < .75 else
                [{'op': 'fopen', 'mode': rng.choice(['r', 'r+', 'a', 'w-', 'w', 'w']), 'bad': True}])
        elif k == 'move':
            add([{'op': 'move', 'to': rng.choice(MOVED[cfg['fmt']]), 'path': []}])
            add([{'op': 'fopen', 'mode': rng.choice(['r', 'r+', 'a']), 'bad': False}])
            add(audit(tr, rng.choice(MODES)) if rng.random() < .3 else queries(rng, tr, names, 2))
        elif k in ('mkgroup', 'reqgroup', 'mkds', 'reqds'):
            r = rng.random()
            if r < .25:
                p = list(rng.choice(nodes))
            else:
                p = list(rng.choice(groups if rng.random() < .85 else nodes)) + [rng.choice(names) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            p = p or [rng.choice(names)]
            if len(p) > 5:
                continue
            o = {'op': k, 'mode': mode, 'path': p}
            if k in ('mkds', 'reqds'):
                o.update(m=rng.randint(1, len(cfg['metas'])), bad=rng.random() < .3, v=rng.choice([0, 0, 1, 2]))
                if k == 'reqds' and dss and rng.random() < .5:
                    o['path'] = list(rng.choice(dss))
                    if rng.random() < .5:
                        o['m'] = tr.n[tuple(o['path'])][1]
            add([o])
        elif k == 'del':
            p = list(rng.choice(nodes)) if rng.random() < .8 else list(rng.choice(nodes)) + [rng.choice(names)]
            if p:
                add([{'op': 'del', 'mode': mode, 'path': p}])
        elif k == 'aset':
            p = list(rng.choice(nodes))
            ks = rng.sample(KEYS, rng.choice([1, 1, 1, 2, 3, 0] if rng.random() < .9 else [5]))
            if rng.random() < .2:
                isds = tr.n.get(tuple(p), ('g',))[0] == 'd'
                if cfg['fmt'] == 'n5' and not isds:
                    ks.append(rng.choice(['dimensions', 'n5'] if not p else ['dimensions']))
                else:
                    ks.append(rng.choice(N5RES))
            bad = rng.random() < .12
            add([{'op': 'aset', 'mode': mode, 'path': p, 'items': [[x, rng.randrange(len(JVALS))] for x in ks], 'bad': bad}])
        elif k == 'adel':
            p = list(rng.choice(nodes))
            key = rng.choice(KEYS[:10] if rng.random() < .85 else N5RES + ['n5'])
            if key == 'n5' and (p or cfg['fmt'] != 'n5'):
                key = 'k'
            add([{'op': 'adel', 'mode': mode, 'path': p, 'key': key}])
        elif k == 'dset':
            if dss:
                add([{'op': 'dset', 'mode': mode, 'path': list(rng.choice(dss)), 'v': rng.choice([0, 1, 2, 3])}])
        elif k == 'clone':
            if dss:
                p = list(rng.choice(groups)) + [rng.choice(names)]
                add([{'op': 'clone', 'mode': mode, 'src': list(rng.choice(dss)), 'path': p}])
        elif k == 'pickle':
            add([{'op': 'pickle', 'mode': rng.choice(MODES), 'path': list(rng.choice(nodes))}])
    add(audit(tr))
    return ops


# ------------------------------------------------------------- C++ interface
ALLMODES = ['r', 'r+', 'a', 'w', 'w-']
BAD_CPP = ['sep', 'version', 'enc', 'dtype', 'rank', 'zero', 'codec', 'codecfmt', 'shards', 'shardrank', 'fill', 'empty', 'option']


CPP_NAMES = {'n5': {}, 'zarr2': {'gzip': 'zlib', 'bzip2': 'bz2'}, 'zarr3': {'gzip': 'zlib'}}


def cpp_codec(rng, fmt):
    """codec and all its options, as they are requested and reported"""
    c = rng.choice({'n5': ['raw', 'gzip', 'bzip2', 'xz', 'lz4', 'blosc', 'zstd'],
                    'zarr2': ['raw', 'zlib', 'gzip', 'bzip2', 'lz4', 'blosc', 'zstd'],
                    'zarr3': ['raw', 'gzip', 'blosc', 'zstd']}[fmt])
    if c == 'raw':
        o = {}
    elif c == 'blosc':
        o = {'codec': rng.choice(['lz4', 'lz4hc', 'blosclz', 'zlib', 'zstd']), 'level': rng.choice([0, 1, 5, 9]),
             'shuffle': rng.choice([0, 1, 2]), 'blocksize': rng.choice([0, 0, 64])}
    else:
        o = {'level': rng.choice([1, 3, 6, 9])}
        if c in ('gzip', 'zlib'):
            o['useZlib'] = c == 'zlib' or (fmt == 'n5' and rng.random() < .4)
    return c, o


def cpp_config(rng, fmt=None, n=3):
    c = config(rng, fmt, n, py=False)
    for m in c['metas']:
        m['rcodec'], m['ropts'] = cpp_codec(rng, c['fmt'])
        m['want'].update(codec=CPP_NAMES[c['fmt']].get(m['rcodec'], m['rcodec']),
                         opts=json.dumps(m['ropts'], sort_keys=True, separators=(',', ':')))
        m['vals'] = [m['fill']] + m['vals'][1:]
    return c


def cpp_bad_ok(cfg, m, b):
    d = cfg['metas'][m - 1]
    if b == 'fill':
        return cfg['fmt'] == 'n5' or not d['rdtype'].startswith('f')
    if b in ('shardrank',):
        return cfg['fmt'] == 'zarr3'
    if b == 'option':
        return d['rcodec'] not in ('raw', 'blosc')
    if b in ('sep', 'version'):
        return cfg['fmt'] != 'n5'
    if b == 'enc':
        return cfg['fmt'] == 'zarr3'
    return True


def cpp_ops(rng, cfg, tr, n, names, weights):
    kinds = [k for k, w in weights.items() for _ in range(w)]
    ops = []

    def add(o):
        p = tuple(o.get('path', ()))
        if o['op'] in ('dset', 'dget'):
            o['mm'] = tr.n[p][1] if p in tr.n and tr.n[p][0] == 'd' else 1
            o.setdefault('how', rng.randrange(5))
        if o['op'] == 'mkds' and o['bad']:
            o['how'] = rng.choice([b for b in BAD_CPP if cpp_bad_ok(cfg, o['m'], b)])
            o['v'] = 0
        o['via'] = rng.randrange(len(p)) if p else 0
        o['deco'] = rng.randrange(4)
        o['call'] = rng.choice([0, 1, 2])
        o['cached'] = rng.random() < .4
        tr.apply(o)
        ops.append(o)
    if rng.random() < .3:
        add({'op': 'mkfile', 'mode': rng.choice(['r', 'r+'])})
    add({'op': 'mkfile', 'mode': rng.choice(['a', 'w', 'w-'])})
    for _ in range(n):
        k = rng.choice(kinds)
        if not tr.ex and k != 'rmfile':    # nothing is promised about handles below a container that is not there
            k = 'mkfile'
        nodes = sorted(tr.n) or [()]
        groups = [p for p in nodes if tr.n.get(p, ('g',))[0] == 'g']
        dss = [p for p in nodes if tr.n.get(p, ('g',))[0] == 'd']
        mode = rng.choice(ALLMODES)
        new = list(rng.choice(groups)) + [rng.choice(names)]
        if len(new) > 4:
            new = [rng.choice(names)]
        if k == 'q':
            for _ in range(2):
                if not tr.ex:
                    break
                q = rng.choice(['has', 'isg', 'get', 'keys', 'visit', 'aget', 'ahas', 'aall', 'dget'])
                p = list(rng.choice(nodes)) if rng.random() < .75 else new
                if q in ('has', 'isg') and not p:
                    p = [rng.choice(names)]
                o = {'op': q, 'mode': mode, 'path': p}
                if q in ('aget', 'ahas'):
                    o['key'] = rng.choice(KEYS[:8] + N5RES[:2])
                add(o)
        elif k == 'audit':
            for o in audit(tr, mode):
                add(o)
        elif k == 'mkfile':
            add({'op': 'mkfile', 'mode': mode, 'bad': cfg['fmt'] != 'n5' and rng.random() < .3})
        elif k == 'rmfile':
            add({'op': 'rmfile', 'mode': mode})
        elif k == 'mkgroup':
            add({'op': k, 'mode': mode, 'path': new if rng.random() < .8 else list(rng.choice(nodes)) or new,
                 'bad': cfg['fmt'] != 'n5' and rng.random() < .15})
        elif k == 'mkds':
            add({'op': k, 'mode': mode, 'path': new if rng.random() < .8 else list(rng.choice(nodes)) or new,
                 'm': rng.randint(1, len(cfg['metas'])), 'bad': rng.random() < .3, 'v': rng.choice([0, 0, 1, 2]) if mode != 'r' else 0})
        elif k == 'del':
            p = list(rng.choice(nodes)) if rng.random() < .8 else new
            if p:
                add({'op': 'del', 'mode': mode, 'path': p})
        elif k == 'aset':
            p = list(rng.choice(nodes))
            ks = rng.sample(KEYS, rng.choice([1, 1, 1, 2, 3, 0]))
            if rng.random() < .2:
                isds = tr.n.get(tuple(p), ('g',))[0] == 'd'
                if cfg['fmt'] == 'n5' and not isds:
                    ks.append(rng.choice(['dimensions', 'n5'] if not p else ['dimensions']))
                else:
                    ks.append(rng.choice(N5RES))
            add({'op': 'aset', 'mode': mode, 'path': p, 'items': [[x, rng.randrange(len(JVALS))] for x in ks], 'bad': False})
        elif k == 'adel':
            p = list(rng.choice(nodes))
            key = rng.choice(KEYS[:10] if rng.random() < .8 else N5RES + ['n5'])
            if key == 'n5' and (p or cfg['fmt'] != 'n5'):
                key = 'k'
            add({'op': 'adel', 'mode': mode, 'path': p, 'key': key})
        elif k == 'dset' and dss:
            add({'op': 'dset', 'mode': mode, 'path': list(rng.choice(dss)), 'v': rng.choice([0, 1, 2, 3])})
    for o in audit(tr):
        add(o)
    return ops
