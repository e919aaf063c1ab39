"""Datasets as other implementations of the formats lay them out: an encoder written from the format
specifications (not from z5), with the freedoms the formats give to a writer.  A variant is either one
every reader of the format has to understand (must) or one a reader may refuse (may)."""
import json
import random
import struct

import numpy as np

import decode
import gen_array as G


def grid(cfg):
    return [(s + c - 1) // c for s, c in zip(cfg['shape'], cfg['chunks'])]


def unlin(k, g):
    p = []
    for x in reversed(g):
        p.append(k % x)
        k //= x
    return p[::-1]


def entries(rng, cfg, allstored=False, varlen=False, nofill=False):
    """chunk entries in the order of their numbers"""
    out = []
    g = grid(cfg)
    for k in range(G.prod(g)):
        p = unlin(k, g)
        n = G.prod(decode.clip(cfg, p))
        if not allstored and rng.random() < .3:
            out.append({'kind': 'none', 'x': []})
        elif varlen and rng.random() < .4:
            out.append({'kind': 'var', 'x': [rng.randint(0, 7) for _ in range(rng.choice([1, 2, 3, 7, 20]))]})
        else:
            x = G.rand_chunk_data(rng, n)
            out.append({'kind': 'reg', 'x': [6 if v == 0 else v for v in x] if nofill else x})
    return out


# ----------------------------------------------------------------- payloads
def blosc(cfg, data, typesize):
    import numcodecs
    o = cfg['opts']
    a = np.frombuffer(data, 'u%d' % typesize if typesize in (1, 2, 4, 8) else 'u1')
    sh = o.get('shuffle', 1)
    return bytes(numcodecs.Blosc(cname=o.get('codec', 'lz4'), clevel=o.get('level', 5), shuffle=sh).encode(np.ascontiguousarray(a)))


def squeeze(cfg, data, fx):
    c = cfg['codec']
    if c == 'blosc':
        return blosc(cfg, data, np.dtype(cfg['dtype']).itemsize)
    if c == 'zstd' and fx.get('checksum'):
        import numcodecs
        return bytes(numcodecs.Zstd(level=3, checksum=True).encode(data))
    return decode.compress(c, cfg['opts'], data)


def payload(cfg, p, ent, rng, fx):
    """bytes of one chunk"""
    sc = cfg['scale']
    cl = decode.clip(cfg, p)
    rcl = [a * b for a, b in zip(cl, sc)]
    full = [a * b for a, b in zip(cfg['chunks'], sc)]
    off = [q * c for q, c in zip(p, cfg['chunks'])]
    cd = decode.codec_of(cfg)
    dt = np.dtype(cfg['dtype'])
    if cfg['fmt'] == 'n5':
        if ent['kind'] == 'var':
            n = len(ent['x'])
            a = cd.encode(ent['x'], list(p) + [0], (1,) * len(p) + (n,)).reshape(n)
            head = struct.pack('>HH', 1, len(p)) + struct.pack('>%dI' % len(p), *rcl[::-1]) + struct.pack('>I', n)
            return head + squeeze(cfg, a.astype(dt.newbyteorder('>')).tobytes(), fx)
        a = decode.expand(cfg, ent['x'], off, cl)
        dims = rcl
        if fx.get('padded'):                 # a block of the nominal size that exceeds the dataset
            b = np.full(full, cd.const[rng.randrange(2)] if rng.random() < .7 else cd.fill, cfg['dtype'])
            b[tuple(slice(0, x) for x in rcl)] = a
            a, dims = b, full
        mode = struct.pack('>HH', 0, len(p)) + struct.pack('>%dI' % len(p), *dims[::-1])
        return mode + squeeze(cfg, np.ascontiguousarray(a).astype(dt.newbyteorder(fx.get('endian', '>'))).tobytes(), fx)
    a = decode.expand(cfg, ent['x'], off, cl)
    pad = cd.fill if rng.random() < .4 else cd.const[rng.randrange(2)]
    b = np.full(full, pad, cfg['dtype'])
    b[tuple(slice(0, x) for x in rcl)] = a
    b = b.astype(dt.newbyteorder(fx.get('endian', '<')))
    raw = b.tobytes(order=fx.get('order', 'C'))
    if fx.get('delta'):
        import numcodecs
        raw = numcodecs.Delta(dtype=b.dtype.str).encode(b.ravel()).tobytes()
    raw = squeeze(cfg, raw, fx)
    if fx.get('crc_inner'):
        raw += struct.pack('<I', decode.crc32c(raw))
    return raw


def key(cfg, p, fx):
    s = [str(x) for x in p]
    if cfg['fmt'] == 'n5':
        return '/'.join(s[::-1])
    if cfg['fmt'] == 'zarr3' and cfg['enc'] == 'default':
        return 'c' + cfg['sep'] + cfg['sep'].join(s)
    return cfg['sep'].join(s)


def shard(cfg, sp, ents, rng, fx):
    cps = [a // b for a, b in zip(cfg['shards'], cfg['chunks'])]
    g = grid(cfg)
    ns = G.prod(cps)
    blobs = {}
    for s in range(ns):
        q = [a * c + u for a, c, u in zip(sp, cps, unlin(s, cps))]
        if any(x >= y for x, y in zip(q, g)):
            continue
        k = 0
        for x, y in zip(q, g):
            k = k * y + x
        if ents[k]['kind'] != 'none':
            blobs[s] = payload(cfg, q, ents[k], rng, fx)
    if not blobs and not fx.get('emptyshard'):
        return None
    order = list(blobs)
    if fx.get('shuffled'):
        rng.shuffle(order)
    idx = 16 * ns + (0 if fx.get('nocrc') else 4)
    at_start = fx.get('start')
    body = b'' if not at_start else b'\0' * idx
    pos = {}
    for s in order:
        if fx.get('gaps') and rng.random() < .6:
            body += bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 16, 40])))
        pos[s] = (len(body), len(blobs[s]))
        body += blobs[s]
    if fx.get('gaps') and rng.random() < .4:
        body += b'\xAA' * rng.choice([1, 7])
    E = (1 << 64) - 1
    ix = b''.join(struct.pack('<QQ', *pos.get(s, (E, E))) for s in range(ns))
    if not fx.get('nocrc'):
        ix += struct.pack('<I', decode.crc32c(ix))
    return ix + body[idx:] if at_start else body + ix


# ----------------------------------------------------------------- metadata
def fill_json(cfg):
    s = cfg.get('fillspecial')
    if s:
        return {'nan': 'NaN', 'inf': 'Infinity', '-inf': '-Infinity'}[s]
    v = cfg.get('fillreal', 0)
    return v if cfg['dtype'].startswith('float') else int(v)


def doc_zarr2(cfg, fx):
    dt = np.dtype(cfg['dtype'])
    o = cfg['opts']
    c = cfg['codec']
    comp = None
    if c in ('zlib', 'gzip'):
        comp = {'id': c, 'level': o.get('level', 1)}
    elif c == 'bzip2':
        comp = {'id': 'bz2', 'level': o.get('level', 1)}
    elif c == 'zstd':
        comp = {'id': 'zstd', 'level': o.get('level', 0)}
        if fx.get('checksum'):
            comp['checksum'] = True
    elif c == 'blosc':
        comp = {'id': 'blosc', 'cname': o.get('codec', 'lz4'), 'clevel': o.get('level', 5), 'shuffle': o.get('shuffle', 1), 'blocksize': 0}
    t = dt.newbyteorder('<').str
    return {'zarr_format': 2, 'shape': [a * b for a, b in zip(cfg['shape'], cfg['scale'])],
            'chunks': [a * b for a, b in zip(cfg['chunks'], cfg['scale'])], 'dtype': t, 'compressor': comp,
            'fill_value': fill_json(cfg), 'order': 'C', 'filters': None, 'dimension_separator': cfg['sep']}


def doc_zarr3(cfg, fx):
    o = cfg['opts']
    c = cfg['codec']
    inner = [{'name': 'bytes', 'configuration': {'endian': 'little'}}]
    if c == 'gzip':
        inner.append({'name': 'gzip', 'configuration': {'level': o.get('level', 5)}})
    elif c == 'zstd':
        inner.append({'name': 'zstd', 'configuration': {'level': o.get('level', 0), 'checksum': bool(fx.get('checksum'))}})
    elif c == 'blosc':
        inner.append({'name': 'blosc', 'configuration': {
            'cname': o.get('codec', 'lz4'), 'clevel': o.get('level', 5), 'shuffle': ['noshuffle', 'shuffle', 'bitshuffle'][o.get('shuffle', 1)],
            'typesize': np.dtype(cfg['dtype']).itemsize, 'blocksize': o.get('blocksize', 0)}})
    chunks = [a * b for a, b in zip(cfg['chunks'], cfg['scale'])]
    codecs = inner
    outer = chunks
    if cfg['shards']:
        outer = [a * b for a, b in zip(cfg['shards'], cfg['scale'])]
        codecs = [{'name': 'sharding_indexed', 'configuration': {
            'chunk_shape': chunks, 'codecs': inner,
            'index_codecs': [{'name': 'bytes', 'configuration': {'endian': 'little'}}, {'name': 'crc32c'}], 'index_location': 'end'}}]
    return {'zarr_format': 3, 'node_type': 'array', 'shape': [a * b for a, b in zip(cfg['shape'], cfg['scale'])], 'data_type': cfg['dtype'],
            'chunk_grid': {'name': 'regular', 'configuration': {'chunk_shape': outer}},
            'chunk_key_encoding': {'name': cfg['enc'], 'configuration': {'separator': cfg['sep']}},
            'fill_value': fill_json(cfg), 'codecs': codecs, 'attributes': {}}


def doc_n5(cfg, fx):
    o = cfg['opts']
    c = cfg['codec']
    comp = {'type': c}
    if c == 'gzip':
        comp = {'type': 'gzip', 'level': o.get('level', -1), 'useZlib': bool(o.get('useZlib'))}
    elif c == 'bzip2':
        comp['blockSize'] = o.get('level', 9)
    elif c == 'xz':
        comp['preset'] = o.get('level', 6)
    elif c == 'zstd':
        comp['level'] = o.get('level', 3)
    elif c == 'lz4':
        comp['blockSize'] = 65536
    elif c == 'blosc':
        comp = {'type': 'blosc', 'cname': o.get('codec', 'blosclz'), 'clevel': o.get('level', 6), 'shuffle': o.get('shuffle', 0),
                'blocksize': o.get('blocksize', 0), 'nthreads': 1}
    return {'dimensions': [a * b for a, b in zip(cfg['shape'], cfg['scale'])][::-1],
            'blockSize': [a * b for a, b in zip(cfg['chunks'], cfg['scale'])][::-1], 'dataType': cfg['dtype'], 'compression': comp}


MARK = {'n5': ('attributes.json', {'n5': '2.0.0'}), 'zarr2': ('.zgroup', {'zarr_format': 2}),
        'zarr3': ('zarr.json', {'zarr_format': 3, 'node_type': 'group', 'attributes': {}})}
DOC = {'n5': ('attributes.json', doc_n5), 'zarr2': ('.zarray', doc_zarr2), 'zarr3': ('zarr.json', doc_zarr3)}


def inner_of(doc):
    """the codec list of the (inner) chunks"""
    c = doc['codecs']
    return c[0]['configuration']['codecs'] if c[0]['name'] == 'sharding_indexed' else c


# variants: name -> (formats, applies(cfg), edit(rng, cfg, doc, fx))
def _drop(k):
    def f(rng, cfg, doc, fx):
        doc.pop(k, None)
    return f


def _set(k, *vs):
    def f(rng, cfg, doc, fx):
        doc[k] = rng.choice(vs)
    return f


def _fx(**kw):
    def f(rng, cfg, doc, fx):
        fx.update(kw)
    return f


def _comp(fn):
    """edit the configuration of the compressor"""
    def f(rng, cfg, doc, fx):
        if cfg['fmt'] == 'zarr2':
            fn(rng, doc['compressor'])
        elif cfg['fmt'] == 'n5':
            fn(rng, doc['compression'])
        else:
            fn(rng, inner_of(doc)[1]['configuration'])
    return f


def _bytes1(rng, cfg, doc, fx):
    b = inner_of(doc)[0]
    if rng.random() < .5:
        b.pop('configuration')
    else:
        b['configuration'] = {}


def _extra(rng, cfg, doc, fx):
    doc[rng.choice(['pixelResolution', 'offset', 'downsamplingFactors', 'note'])] = rng.choice([[1, 2.5], 'nm', {'a': [None, True]}, 3])


def _old_n5(rng, cfg, doc, fx):
    doc['compressionType'] = doc.pop('compression')['type']
    fx['old'] = True


def _defaults_n5(rng, cfg, doc, fx):
    doc['compression'] = {'type': doc['compression']['type']}
    if cfg['opts'].get('useZlib'):
        doc['compression']['useZlib'] = True


def _keyconf(rng, cfg, doc, fx):
    e = doc['chunk_key_encoding']
    if rng.random() < .5:
        e.pop('configuration')
    else:
        e['configuration'] = {}


def _gzm1(rng, comp):
    comp['level'] = -1


def _attr3(rng, cfg, doc, fx):
    doc['attributes'] = {'a': 1, 'nested': {'b': [1, 2]}}


def _dims3(rng, cfg, doc, fx):
    doc['dimension_names'] = rng.choice([[None] * len(cfg['shape']), ['d%d' % i for i in range(len(cfg['shape']))]])


def small(cfg):
    return np.dtype(cfg['dtype']).itemsize == 1


ANY = lambda c: True                                             # noqa: E731
Z2, Z3, N5 = ('zarr2',), ('zarr3',), ('n5',)
MUST = {
    'plain': (Z2 + Z3 + N5, ANY, _fx()),
    'z2-nosep': (Z2, lambda c: c['sep'] == '.', _drop('dimension_separator')),
    'z2-nofilters': (Z2, ANY, _set('filters', [])),
    'z2-extrakey': (Z2, ANY, _extra),
    'z2-noblocksize': (Z2, lambda c: c['codec'] == 'blosc', _comp(lambda r, c: c.pop('blocksize', None))),
    'z2-autoshuffle': (Z2, lambda c: c['codec'] == 'blosc', lambda r, c, d, fx: (d['compressor'].update(shuffle=-1), fx.update(readonly=True))),
    'z2-fillnull': (Z2, ANY, lambda r, c, d, fx: (d.update(fill_value=None), fx.update(allstored=True, readonly=True))),
    'zstd-checksum': (Z2 + Z3, lambda c: c['codec'] == 'zstd', None),
    'z3-keyconf': (Z3, lambda c: c['sep'] == ('.' if c['enc'] == 'v2' else '/'), _keyconf),
    'z3-bytes1': (Z3, small, _bytes1),
    'z3-noattrs': (Z3, ANY, _drop('attributes')),
    'z3-attrs': (Z3, ANY, _attr3),
    'z3-dims': (Z3, ANY, _dims3),
    'z3-transformers': (Z3, ANY, _set('storage_transformers', [])),
    'z3-noloc': (Z3, lambda c: c['shards'], lambda r, c, d, fx: d['codecs'][0]['configuration'].pop('index_location')),
    'z3-shuffled': (Z3, lambda c: c['shards'], _fx(shuffled=True, reorg=True)),
    'z3-gaps': (Z3, lambda c: c['shards'], _fx(gaps=True, shuffled=True, reorg=True)),
    'z3-emptyshard': (Z3, lambda c: c['shards'], _fx(emptyshard=True, reorg=True)),
    'z3-notypesize': (Z3, lambda c: c['codec'] == 'blosc' and c['opts'].get('shuffle', 1) == 0, _comp(lambda r, c: c.pop('typesize'))),
    'z3-crcconf': (Z3, lambda c: c['shards'], lambda r, c, d, fx: d['codecs'][0]['configuration']['index_codecs'][1].update(configuration={})),
    'n5-old': (N5, lambda c: c['codec'] in ('gzip', 'raw', 'bzip2', 'xz') and not c['opts'].get('useZlib'), _old_n5),
    'n5-defaults': (N5, lambda c: c['codec'] in ('gzip', 'raw', 'bzip2', 'xz', 'lz4'), _defaults_n5),
    'n5-level-1': (N5, lambda c: c['codec'] == 'gzip', _comp(_gzm1)),
    'n5-noZlib': (N5, lambda c: c['codec'] == 'gzip' and not c['opts'].get('useZlib'), _comp(lambda r, c: c.pop('useZlib', None))),
    'n5-extrakey': (N5, ANY, _extra),
    'n5-padded': (N5, ANY, _fx(padded=True)),
    'n5-varlen': (N5, ANY, _fx(varlen=True)),
}


def _chk(rng, cfg, doc, fx):
    fx['checksum'] = True
    if cfg['fmt'] == 'zarr2':
        doc['compressor']['checksum'] = True
    else:
        inner_of(doc)[1]['configuration']['checksum'] = True


MUST['zstd-checksum'] = MUST['zstd-checksum'][:2] + (_chk,)


def _big(rng, cfg, doc, fx):
    fx['endian'] = '>'
    if cfg['fmt'] == 'zarr2':
        doc['dtype'] = '>' + doc['dtype'][1:]
    else:
        inner_of(doc)[0]['configuration']['endian'] = 'big'


def _fortran(rng, cfg, doc, fx):
    fx['order'] = 'F'
    if cfg['fmt'] == 'zarr2':
        doc['order'] = 'F'
    else:
        inner_of(doc).insert(0, {'name': 'transpose', 'configuration': {'order': list(range(len(cfg['shape'])))[::-1]}})


def _delta(rng, cfg, doc, fx):
    fx['delta'] = True
    doc['filters'] = [{'id': 'delta', 'dtype': doc['dtype']}]


def _innercrc(rng, cfg, doc, fx):
    fx['crc_inner'] = True
    inner_of(doc).append({'name': 'crc32c'})


def _nested(rng, cfg, doc, fx):
    """sharding inside of sharding: chunks of one element groups"""
    fx['nested'] = True


def _junkcodec(rng, cfg, doc, fx):
    n = rng.choice(['jpeg', 'lzma', 'vlen-utf8', 'gzip2', 'snappy', ''])
    if cfg['fmt'] == 'zarr2':
        doc['compressor'] = {'id': n, 'level': 1}
    elif cfg['fmt'] == 'n5':
        doc['compression'] = {'type': n, 'level': 1}
    else:
        inner_of(doc)[1:] = [{'name': n, 'configuration': {'level': 1}}]
    fx['unreadable'] = True


def _othertype(rng, cfg, doc, fx):
    fx['unreadable'] = True
    if cfg['fmt'] == 'zarr2':
        doc['dtype'] = rng.choice(['<f2', '|S4', '<U3', '<M8[ns]', '|V3', [['a', '<i4']], '<f16', '|O', '<i3', 'i4x', '<u16'])
    elif cfg['fmt'] == 'n5':
        doc['dataType'] = rng.choice(['object', 'string', 'float16', 'bool', 'int', ''])
    else:
        doc['data_type'] = rng.choice(['float16', 'r24', 'string', 'int4', {'name': 'numpy.datetime64', 'configuration': {'unit': 's'}}, ''])


def _start(rng, cfg, doc, fx):
    fx['start'] = True
    doc['codecs'][0]['configuration']['index_location'] = 'start'


def _nocrc(rng, cfg, doc, fx):
    fx['nocrc'] = True
    doc['codecs'][0]['configuration']['index_codecs'].pop()


def _bigindex(rng, cfg, doc, fx):
    """index in big endian: what the bytes hold does not matter, it has to be refused"""
    fx['unreadable'] = True
    doc['codecs'][0]['configuration']['index_codecs'][0]['configuration']['endian'] = 'big'


def _keyname(rng, cfg, doc, fx):
    fx['unreadable'] = True          # no chunk can be found where z5 looks: reading anything is a misread
    doc['chunk_key_encoding'] = {'name': rng.choice(['fanout', 'suffix', 'Default', 'n5']), 'configuration': {'max_files': 3}}


def _gridname(rng, cfg, doc, fx):
    fx['unreadable'] = True
    doc['chunk_grid']['name'] = rng.choice(['rectilinear', 'rectangular', 'irregular'])


def _transf(rng, cfg, doc, fx):
    fx['unreadable'] = True
    doc['storage_transformers'] = [{'name': 'chunk-manifest-json', 'configuration': {'manifest': './m.json'}}]


def _node(rng, cfg, doc, fx):
    fx['unreadable'] = True
    doc['node_type'] = 'group'


def _format(rng, cfg, doc, fx):
    fx['unreadable'] = True
    doc['zarr_format'] = rng.choice([1, 4, 5])


def _lose(rng, cfg, doc, fx):
    fx['unreadable'] = True
    req = {'n5': ['dimensions', 'blockSize', 'dataType'], 'zarr2': ['shape', 'chunks', 'dtype', 'fill_value'],
           'zarr3': ['shape', 'data_type', 'chunk_grid', 'chunk_key_encoding', 'codecs', 'node_type']}[cfg['fmt']]
    doc.pop(rng.choice(req))


def _rank(rng, cfg, doc, fx):
    fx['unreadable'] = True
    k = {'n5': 'blockSize', 'zarr2': 'chunks'}.get(cfg['fmt'])
    seq = doc[k] if k else doc['chunk_grid']['configuration']['chunk_shape']
    if rng.random() < .5:
        seq.append(1)
    else:
        seq[rng.randrange(len(seq))] = rng.choice([0, -1])


def _shardmult(rng, cfg, doc, fx):
    fx['unreadable'] = True
    c = doc['codecs'][0]['configuration']
    g = doc['chunk_grid']['configuration']['chunk_shape']
    a = rng.randrange(len(g))
    if rng.random() < .5:
        g[a] = max(1, c['chunk_shape'][a] - 1) if c['chunk_shape'][a] > 1 else 0
    else:
        c['chunk_shape'][a] = g[a] + rng.choice([1, 2])


def _fillhex(rng, cfg, doc, fx):
    t = np.dtype(cfg['dtype'])
    v = np.array([decode.fill_of(cfg)], t)
    doc['fill_value'] = '0x' + v.view('u%d' % t.itemsize)[0].item().to_bytes(t.itemsize, 'big').hex()


def _fillbig(rng, cfg, doc, fx):
    """fill values that binary64 cannot hold; all chunks that are there hold other values"""
    v = rng.choice([2 ** 53 + 1, 2 ** 62 + 3, 2 ** 63 - 2] + ([2 ** 64 - 2, 2 ** 63 + 1] if cfg['dtype'] == 'uint64' else [-2 ** 62 - 1]))
    doc['fill_value'] = v
    fx['fillbig'] = v


def _typeobj(rng, cfg, doc, fx):
    doc['data_type'] = {'name': doc['data_type']}


def _barecodec(rng, cfg, doc, fx):
    inner_of(doc)[0] = 'bytes'


def _transp_id(rng, cfg, doc, fx):
    inner_of(doc).insert(0, {'name': 'transpose', 'configuration': {'order': list(range(len(cfg['shape'])))}})


def _lz4v2(rng, cfg, doc, fx):
    import numcodecs                                      # noqa: F401
    fx['lz4'] = True


def _v3twice(rng, cfg, doc, fx):
    """two compressors in a row, applied in this order"""
    fx['twice'] = True
    inner_of(doc).append({'name': 'gzip', 'configuration': {'level': 1}})


MAY = {
    'order-F': (Z2 + Z3, lambda c: len(c['shape']) > 1, _fortran),
    'big-endian': (Z2 + Z3, lambda c: not small(c) and not c['dtype'].startswith('complex'), _big),
    'z2-delta': (Z2, lambda c: 'int' in c['dtype'], _delta),
    'inner-crc': (Z3, ANY, _innercrc),
    'codec': (Z2 + Z3 + N5, ANY, _junkcodec),
    'dtype': (Z2 + Z3 + N5, ANY, _othertype),
    'index-start': (Z3, lambda c: c['shards'], _start),
    'index-nocrc': (Z3, lambda c: c['shards'], _nocrc),
    'index-big': (Z3, lambda c: c['shards'], _bigindex),
    'key-name': (Z3, ANY, _keyname),
    'grid-name': (Z3, ANY, _gridname),
    'transformers': (Z3, ANY, _transf),
    'node-type': (Z3, ANY, _node),
    'format': (Z2 + Z3, ANY, _format),
    'lost-field': (Z2 + Z3 + N5, ANY, _lose),
    'rank': (Z2 + Z3 + N5, ANY, _rank),
    'shard-multiple': (Z3, lambda c: c['shards'], _shardmult),
    'fill-hex': (Z3, lambda c: c['dtype'].startswith('float'), _fillhex),
    'fill-big': (Z2 + Z3, lambda c: c['dtype'] in ('int64', 'uint64'), _fillbig),
    'type-object': (Z3, ANY, _typeobj),
    'bare-codec': (Z3, small, _barecodec),
    'transpose-id': (Z3, ANY, _transp_id),
    'two-codecs': (Z3, lambda c: not c['shards'], _v3twice),
}


def build(rng, cfg, names, table):
    """files (relative path -> hex) of a dataset written by somebody else, and what it holds"""
    fx = {}
    mk, doc_of = DOC[cfg['fmt']]
    doc = doc_of(cfg, fx)
    for n in names:
        table[n][2](rng, cfg, doc, fx)
    ents = entries(rng, cfg, allstored=fx.get('allstored'), varlen=fx.get('varlen'))
    files = {}
    root = cfg['key'].strip('/')
    m, md = MARK[cfg['fmt']]
    at = ''
    for part in [''] + root.split('/')[:-1]:
        at = (at + '/' + part).strip('/')
        files[(at + '/' + m).strip('/')] = json.dumps(md).encode()
    files[root + '/' + mk] = json.dumps(doc, indent=rng.choice([None, 2])).encode()
    c2 = dict(cfg)
    if fx.get('fillbig') is not None:
        c2['fillreal'] = fx['fillbig']
    if cfg['shards']:
        sg = [(s + k - 1) // k for s, k in zip(cfg['shape'], cfg['shards'])]
        for k in range(G.prod(sg)):
            sp = unlin(k, sg)
            b = shard(c2, sp, ents, rng, fx)
            if b is not None:
                files[root + '/' + key(cfg, sp, fx)] = b
    else:
        for k, e in enumerate(ents):
            if e['kind'] != 'none':
                p = unlin(k, grid(cfg))
                b = payload(c2, p, e, rng, fx)
                if fx.get('twice'):
                    b = decode.compress('gzip', {}, b)
                files[root + '/' + key(cfg, p, fx)] = b
    return {k: v.hex() for k, v in files.items()}, ents, fx, c2
