"""zarr-python and tensorstore as independent readers and writers of the formats."""
import os
import sys
import warnings

import numpy as np

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))


def guarded(f, *a):
    """the result, or the error of the other implementation as text"""
    try:
        return f(*a)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])


def libs(cfg, writing=False):
    """implementations that know the format and codec"""
    f, c, t = cfg['fmt'], cfg['codec'], cfg['dtype']
    if f == 'n5' and c == 'blosc' and not writing:
        return []                            # tensorstore refuses the member nthreads of the n5 blosc codec
    if f == 'n5':
        return ['tensorstore'] if c in ('raw', 'gzip', 'bzip2', 'xz', 'blosc', 'zstd') else []
    if t.startswith('complex'):              # the formats do not settle how fill values of complex types are written
        return []
    out = []
    if c != 'lz4':
        out.append('zarr')
    if c in ('raw', 'zlib', 'gzip', 'bzip2', 'blosc', 'zstd'):
        out.append('tensorstore')
    return out


def ts_driver(cfg):
    return {'n5': 'n5', 'zarr2': 'zarr', 'zarr3': 'zarr3'}[cfg['fmt']]


def ts_spec(cfg, path, key):
    return {'driver': ts_driver(cfg), 'kvstore': {'driver': 'file', 'path': os.path.join(path, key.strip('/')) + '/'},
            'context': {'data_copy_concurrency': {'limit': 1}, 'file_io_concurrency': {'limit': 1}}}


def read(lib, cfg, path, key):
    if lib == 'zarr':
        import zarr
        z = zarr.open_array(os.path.join(path, key.strip('/')), mode='r', zarr_format=3 if cfg['fmt'] == 'zarr3' else 2)
        return np.asarray(z[...])
    import tensorstore as ts
    d = ts.open(ts_spec(cfg, path, key), open=True, read=True).result()
    a = np.asarray(d.read().result())
    return a.transpose(range(a.ndim)[::-1]) if cfg['fmt'] == 'n5' else a


def real(cfg, k):
    return [a * b for a, b in zip(cfg[k], cfg['scale'])]


def write(lib, cfg, path, key, a, fill):
    o, c, f = cfg['opts'], cfg['codec'], cfg['fmt']
    os.makedirs(path, exist_ok=True)
    if lib == 'zarr':
        import zarr
        import numcodecs
        from zarr.codecs import BloscCodec, GzipCodec, ZstdCodec
        zarr.config.set({'async.concurrency': 1, 'threading.max_workers': 1, 'array.write_empty_chunks': cfg.get('writeempty', False)})
        g = zarr.open_group(path, mode='a', zarr_format=3 if f == 'zarr3' else 2)
        kw = dict(name=key.strip('/'), shape=tuple(real(cfg, 'shape')), chunks=tuple(real(cfg, 'chunks')), dtype=cfg['dtype'], fill_value=fill)
        if f == 'zarr2':
            kw['compressors'] = {'raw': lambda: None, 'zlib': lambda: numcodecs.Zlib(o.get('level', 1)), 'gzip': lambda: numcodecs.GZip(o.get('level', 1)),
                                 'bzip2': lambda: numcodecs.BZ2(o.get('level', 1)), 'zstd': lambda: numcodecs.Zstd(o.get('level', 0)),
                                 'blosc': lambda: numcodecs.Blosc(o.get('codec', 'lz4'), o.get('level', 5), o.get('shuffle', 1), o.get('blocksize', 0))}[c]()
            kw['chunk_key_encoding'] = {'name': 'v2', 'separator': cfg['sep']}
        else:
            kw['compressors'] = {'raw': lambda: None, 'gzip': lambda: GzipCodec(level=o.get('level', 5)), 'zstd': lambda: ZstdCodec(level=o.get('level', 0)),
                                 'blosc': lambda: BloscCodec(cname=o.get('codec', 'lz4'), clevel=o.get('level', 5), blocksize=o.get('blocksize', 0),
                                                             shuffle=['noshuffle', 'shuffle', 'bitshuffle'][o.get('shuffle', 1)])}[c]()
            kw['chunk_key_encoding'] = {'name': cfg['enc'], 'separator': cfg['sep']}
            if cfg['shards']:
                kw['shards'] = tuple(real(cfg, 'shards'))
        z = g.create_array(**kw)
        z[...] = a
        return
    import tensorstore as ts
    if f == 'n5':
        comp = {'type': c}
        if c == 'gzip':
            comp.update(level=o.get('level', -1), useZlib=bool(o.get('useZlib')))
        elif c == 'bzip2':
            comp['blockSize'] = o.get('level', 9)
        elif c == 'xz':
            comp['preset'] = o.get('level', 6)
        elif c == 'zstd':
            comp['level'] = o.get('level', 3)
        elif c == 'blosc':
            comp.update(cname=o.get('codec', 'lz4'), clevel=o.get('level', 5), shuffle=o.get('shuffle', 1))
        with open(os.path.join(path, 'attributes.json'), 'w') as fh:
            fh.write('{"n5": "2.0.0"}')
        meta = {'dimensions': real(cfg, 'shape')[::-1], 'blockSize': real(cfg, 'chunks')[::-1], 'dataType': cfg['dtype'], 'compression': comp}
        d = ts.open(dict(ts_spec(cfg, path, key), metadata=meta), create=True, open=False).result()
        d.write(a.transpose(range(a.ndim)[::-1])).result()
        return
    import foreign
    doc = foreign.DOC[f][1](cfg, {})
    doc.pop('attributes', None)
    with open(os.path.join(path, foreign.MARK[f][0]), 'w') as fh:
        import json
        fh.write(json.dumps(foreign.MARK[f][1]))
    if f == 'zarr2':
        if doc['dtype'].startswith('<') and np.dtype(cfg['dtype']).itemsize == 1:
            doc['dtype'] = '|' + doc['dtype'][1:]
        if c == 'zstd':
            doc['compressor'].pop('checksum', None)
    else:
        def fix(cs):
            for x in cs:
                if x['name'] == 'zstd':
                    x['configuration'].pop('checksum', None)
                if x['name'] == 'blosc':
                    pass
                if x['name'] == 'sharding_indexed':
                    fix(x['configuration']['codecs'])
        fix(doc['codecs'])
    spec = ts_spec(cfg, path, key)
    spec['metadata'] = doc
    d = ts.open(spec, create=True, open=False).result()
    d.write(a).result()
