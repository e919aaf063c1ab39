"""Independent decoder of stored datasets (python zlib/bz2/lzma/numcodecs + own crc32c), used to turn
the bytes found on disk into the abstract form checked by spec/Z5Layout.tla."""
import bz2
import gzip
import json
import lzma
import os
import struct
import sys
import zlib

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers'))
import enc  # noqa: E402

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ 0x82F63B78 if _c & 1 else _c >> 1
    _T.append(_c)


def crc32c(b):
    c = 0xFFFFFFFF
    for x in b:
        c = _T[(c ^ x) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def lz4_block_decode(src, cap):
    """plain LZ4 block decoder"""
    out = bytearray()
    i, n = 0, len(src)
    while i < n:
        tok = src[i]
        i += 1
        ll = tok >> 4
        if ll == 15:
            while True:
                b = src[i]
                i += 1
                ll += b
                if b != 255:
                    break
        if i + ll > n:
            raise ValueError('lz4: literals beyond input')
        out += src[i:i + ll]
        i += ll
        if i >= n:
            break
        off = src[i] | (src[i + 1] << 8)
        i += 2
        ml = tok & 15
        if ml == 15:
            while True:
                b = src[i]
                i += 1
                ml += b
                if b != 255:
                    break
        ml += 4
        if off == 0 or off > len(out):
            raise ValueError('lz4: bad offset')
        for _ in range(ml):
            out.append(out[-off])
        if len(out) > cap + 64:
            raise ValueError('lz4: too long')
    return bytes(out)


def decompress(fmt, codec, opts, data, nbytes):
    """decode exactly one codec stream and reject trailing bytes"""
    if codec == 'raw':
        return bytes(data)
    if codec == 'zlib' or (codec == 'gzip' and opts.get('useZlib', False)):
        o = zlib.decompressobj(15)
        r = o.decompress(data)
        if not o.eof or o.unused_data:
            raise ValueError('zlib: incomplete or trailing data')
        return r
    if codec == 'gzip':
        o = zlib.decompressobj(31)
        r = o.decompress(data)
        if not o.eof or o.unused_data:
            raise ValueError('gzip: incomplete or trailing data')
        return r
    if codec in ('bzip2', 'bz2'):
        o = bz2.BZ2Decompressor()
        r = o.decompress(data)
        if not o.eof or o.unused_data:
            raise ValueError('bz2: incomplete or trailing data')
        return r
    if codec == 'xz':
        o = lzma.LZMADecompressor(format=lzma.FORMAT_XZ)
        r = o.decompress(data)
        if not o.eof or o.unused_data:
            raise ValueError('xz: incomplete or trailing data')
        return r
    if codec == 'lz4':
        return lz4_block_decode(data, nbytes)
    if codec == 'zstd':
        import numcodecs
        return bytes(numcodecs.Zstd().decode(bytes(data)))
    if codec == 'blosc':
        import numcodecs
        cb = struct.unpack('<I', data[12:16])[0]
        if cb != len(data):
            raise ValueError('blosc: length field %d, stored %d' % (cb, len(data)))
        return bytes(numcodecs.Blosc().decode(bytes(data)))
    raise ValueError('codec ' + codec)


def compress(codec, opts, data, typesize=1):
    """an encoder that is not z5's"""
    if codec == 'raw':
        return data
    if codec == 'zlib' or (codec == 'gzip' and opts.get('useZlib')):
        return zlib.compress(data, 6)
    if codec == 'gzip':
        return gzip.compress(data, 6)
    if codec in ('bzip2', 'bz2'):
        return bz2.compress(data)
    if codec == 'xz':
        return lzma.compress(data)
    if codec == 'lz4':
        import numcodecs
        return bytes(numcodecs.LZ4().encode(data))[4:]
    if codec == 'zstd':
        import numcodecs
        return bytes(numcodecs.Zstd(level=opts.get('level', 3)).encode(data))
    if codec == 'blosc':
        import numcodecs
        a = np.frombuffer(data, dtype='V%d' % typesize) if typesize > 1 else data
        return bytes(numcodecs.Blosc(cname=opts.get('codec', 'lz4'), clevel=opts.get('level', 5),
                                     shuffle=opts.get('shuffle', 1)).encode(np.ascontiguousarray(np.frombuffer(data, 'u%d' % typesize if typesize in (1, 2, 4, 8) else 'u1'))))
    raise ValueError(codec)


def fill_of(cfg):
    s = cfg.get('fillspecial')
    return {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[s] if s else cfg.get('fillreal', 0)


def codec_of(cfg):
    return enc.Codec(cfg['dtype'], fill_of(cfg))


def contract(cfg, vals, off, shp):
    """decoded real box -> abstract cells (flat); -1 where the elements of a cell disagree"""
    sc = cfg['scale']
    nd = len(shp)
    if nd == 0:
        return [int(vals)]
    v = vals.reshape([x for s, k in zip(shp, sc) for x in (s, k)])
    v = np.moveaxis(v, [2 * d + 1 for d in range(nd)], list(range(nd, 2 * nd)))
    v = v.reshape(tuple(shp) + (-1,))
    a = v[..., 0].copy()
    a[(v != v[..., :1]).any(axis=-1)] = -1
    return [int(x) for x in a.ravel()]


def expand(cfg, data, off, shp):
    """abstract cells -> real array of the box"""
    sc = cfg['scale']
    a = np.asarray(data, dtype=np.int64).reshape(tuple(shp))
    for d, k in enumerate(sc):
        a = np.repeat(a, k, axis=d)
    ro = [o * k for o, k in zip(off, sc)]
    return codec_of(cfg).encode(a.ravel(), ro, a.shape)


def clip(cfg, p):
    return [min((q + 1) * c, s) - q * c for q, c, s in zip(p, cfg['chunks'], cfg['shape'])]


def payload(cfg, p, raw, n5head=None):
    """decode the payload of chunk p; returns the rec of Z5Layout!PayloadOk"""
    sc = cfg['scale']
    dt = np.dtype(cfg['dtype'])
    cl = clip(cfg, p)
    off = [q * c for q, c in zip(p, cfg['chunks'])]
    rcl = [a * b for a, b in zip(cl, sc)]
    full = [a * b for a, b in zip(cfg['chunks'], sc)]
    n = 1
    for x in (full if cfg['fmt'] != 'n5' else rcl):
        n *= x
    if cfg['fmt'] == 'n5':
        mode, nd = struct.unpack('>HH', raw[:4])
        dims = list(struct.unpack('>%dI' % nd, raw[4:4 + 4 * nd]))
        pos = 4 + 4 * nd
        rec = {'mode': mode, 'dims': dims}
        if mode == 1:
            n = struct.unpack('>I', raw[pos:pos + 4])[0]
            pos += 4
        body = decompress(cfg['fmt'], cfg['codec'], cfg['opts'], raw[pos:], n * dt.itemsize)
        a = np.frombuffer(body, dtype=dt.newbyteorder('>'))
        rec['n'] = int(a.size)
        if mode == 1:
            c = codec_of(cfg)
            out = c.decode(a.reshape((1,) * len(p) + (-1,)), list(p) + [0]).ravel() if a.size else []
            rec['data'] = [int(x) for x in out]
            return rec
        # stored in the order of the reversed dimensions, first dimension fastest = row-major of the array axes
        if dims[::-1] != rcl or a.size != n:
            rec['data'] = []
            return rec
        v = codec_of(cfg).decode(a.reshape(rcl), [o * k for o, k in zip(off, sc)])
        rec['data'] = contract(cfg, v, off, cl)
        return rec
    body = decompress(cfg['fmt'], cfg['codec'], cfg['opts'], raw, n * dt.itemsize)
    a = np.frombuffer(body, dtype=dt.newbyteorder('<'))
    rec = {'mode': 0, 'dims': [], 'n': int(a.size)}
    if a.size != n:
        rec['data'] = []
        return rec
    a = a.reshape(full)[tuple(slice(0, x) for x in rcl)]
    v = codec_of(cfg).decode(a, [o * k for o, k in zip(off, sc)])
    rec['data'] = contract(cfg, v, off, cl)
    return rec


def key_pos(cfg, key):
    """chunk (or shard) position named by a storage key; None if it is not a well-formed key"""
    try:
        if cfg['fmt'] == 'n5':
            return [int(x) for x in key.split('/')][::-1]
        if cfg['fmt'] == 'zarr3' and cfg['enc'] == 'default':
            if not key.startswith('c' + cfg['sep']):
                return None
            return [int(x) for x in key[2:].split(cfg['sep'])]
        return [int(x) for x in key.split(cfg['sep'])]
    except ValueError:
        return None


def grid(cfg):
    return [(s + c - 1) // c for s, c in zip(cfg['shape'], cfg['chunks'])]


def decode_file(cfg, key, raw):
    f = {'key': key, 'bad': ''}
    p = key_pos(cfg, key)
    if p is None or len(p) != len(cfg['shape']):
        f['bad'] = 'key'
        return f
    try:
        if not cfg['shards']:
            f['rec'] = payload(cfg, p, raw)
            return f
        cps = [a // b for a, b in zip(cfg['shards'], cfg['chunks'])]
        ns = 1
        for x in cps:
            ns *= x
        f['size'] = len(raw)
        foot = raw[len(raw) - (16 * ns + 4):]
        if len(raw) < 16 * ns + 4:
            f['bad'] = 'short shard'
            return f
        f['crc'] = crc32c(foot[:-4]) == struct.unpack('<I', foot[-4:])[0]
        slots, recs = [], []
        g = grid(cfg)
        for s in range(ns):
            o, ln = struct.unpack('<QQ', foot[16 * s:16 * s + 16])
            E = (1 << 64) - 1
            if o == E and ln == E:
                slots.append({'e': True, 'off': 0, 'len': 0})
                recs.append({'n': -1})
                continue
            slots.append({'e': False, 'off': min(o, 1 << 30), 'len': min(ln, 1 << 30)})
            u, r = [], s
            for x in reversed(cps):
                u.append(r % x)
                r //= x
            q = [a * b + c for a, b, c in zip(p, cps, u[::-1])]
            if any(a >= b for a, b in zip(q, g)):
                recs.append({'n': -1})
                continue
            recs.append(payload(cfg, q, raw[o:o + ln]))
        f['slots'], f['recs'] = slots, recs
    except Exception as e:           # undecodable bytes are a fact about the stored file
        f['bad'] = '%s: %s' % (type(e).__name__, str(e)[:80])
    return f


def decode_disk(cfg, files):
    return [decode_file(cfg, k, bytes.fromhex(v)) for k, v in sorted(files.items())]


def parse_doc(cfg, doc):
    """take a stored metadata document apart; oddities are named, not judged"""
    odd = []
    r = {'fmt': '?', 'shape': [], 'chunks': [], 'shards': [], 'dtype': '?', 'codec': '?', 'opts': [], 'fill': '', 'sep': '', 'enc': ''}

    def only(d, req, opt=()):
        if not isinstance(d, dict):
            odd.append('not an object')
            return
        for k in set(d) - set(req) - set(opt):
            odd.append('unexpected ' + k)
        for k in set(req) - set(d):
            odd.append('missing ' + k)

    def ints(x):
        if not isinstance(x, list) or not all(type(i) is int for i in x):
            odd.append('not integers')
            return []
        return x

    def opts(d, drop):
        return sorted([k, json.dumps(v, sort_keys=True)] for k, v in d.items() if k not in drop)

    def fill(v):
        if isinstance(v, bool) or v is None:
            odd.append('fill')
            return ''
        if isinstance(v, list):
            return float_str(v[0]) if len(v) == 2 and not v[1] else str(v)
        if isinstance(v, str):
            if v not in ('NaN', 'Infinity', '-Infinity'):
                odd.append('fill ' + v)
            return v
        return float_str(v)

    def float_str(v):
        return v if isinstance(v, str) else repr(float(v))
    try:
        if 'dataType' in doc:
            r['fmt'] = 'n5'
            only(doc, ['dimensions', 'blockSize', 'dataType', 'compression'])
            r['shape'], r['chunks'] = ints(doc['dimensions'])[::-1], ints(doc['blockSize'])[::-1]
            r['dtype'] = doc['dataType']
            r['codec'] = doc['compression']['type']
            r['opts'] = opts(doc['compression'], ('type',))
            if any(x[0] == 'useZlib' for x in r['opts']) and doc['compression']['useZlib'] not in (True, False):
                odd.append('useZlib')
            r['sep'] = '/'
        elif doc.get('zarr_format') == 2:
            r['fmt'] = 'zarr2'
            only(doc, ['shape', 'chunks', 'dtype', 'compressor', 'fill_value', 'order', 'filters', 'zarr_format'], ['dimension_separator'])
            r['shape'], r['chunks'] = ints(doc['shape']), ints(doc['chunks'])
            if doc['order'] != 'C' or doc['filters'] not in (None, []):
                odd.append('order or filters')
            t = np.dtype(doc['dtype'])
            if doc['dtype'][0] != ('|' if t.itemsize == 1 else '<'):
                odd.append('byte order')
            r['dtype'] = t.name
            c = doc['compressor']
            r['codec'] = c['id'] if c else 'raw'
            r['opts'] = opts(c or {}, ('id',))
            r['fill'] = fill(doc['fill_value'])
            r['sep'] = doc.get('dimension_separator', '.')
        elif doc.get('zarr_format') == 3:
            r['fmt'] = 'zarr3'
            only(doc, ['zarr_format', 'node_type', 'shape', 'data_type', 'chunk_grid', 'chunk_key_encoding', 'fill_value', 'codecs'],
                 ['attributes', 'storage_transformers', 'dimension_names'])
            r['shape'] = ints(doc['shape'])
            r['dtype'] = doc['data_type']
            if doc['node_type'] != 'array' or doc['chunk_grid']['name'] != 'regular' or doc.get('storage_transformers') not in (None, []):
                odd.append('node')
            grid = ints(doc['chunk_grid']['configuration']['chunk_shape'])
            cs = doc['codecs']
            r['chunks'] = grid
            if cs[0]['name'] == 'sharding_indexed':
                if len(cs) != 1:
                    odd.append('codecs next to sharding')
                k = cs[0]['configuration']
                only(k, ['chunk_shape', 'codecs', 'index_codecs'], ['index_location'])
                r['shards'], r['chunks'] = grid, ints(k['chunk_shape'])
                ix = k['index_codecs']
                if [x['name'] for x in ix] != ['bytes', 'crc32c'] or ix[0].get('configuration') != {'endian': 'little'} or \
                        k.get('index_location', 'end') != 'end':
                    odd.append('index codecs')
                cs = k['codecs']
            b = cs[0]
            if b['name'] != 'bytes' or (b.get('configuration') != {'endian': 'little'} and
                                        not (b.get('configuration') in (None, {}) and np.dtype(r['dtype']).itemsize == 1)):
                odd.append('bytes codec')
            if len(cs) > 2:
                odd.append('codecs')
            r['codec'] = cs[1]['name'] if len(cs) > 1 else 'raw'
            if len(cs) > 1:
                r['opts'] = opts(cs[1].get('configuration', {}), ())
                if r['codec'] == 'blosc' and cs[1]['configuration'].get('typesize') != np.dtype(r['dtype']).itemsize:
                    odd.append('typesize')
            r['fill'] = fill(doc['fill_value'])
            if r['dtype'].startswith(('int', 'uint')) and type(doc['fill_value']) is not int:
                odd.append('fill of an integer type is not an integer')
            e = doc['chunk_key_encoding']
            r['enc'] = e['name']
            r['sep'] = e.get('configuration', {}).get('separator', '/' if e['name'] == 'default' else '.')
        else:
            odd.append('format')
    except (KeyError, TypeError, ValueError, IndexError, AttributeError) as e:
        odd.append('%s %s' % (type(e).__name__, str(e)[:60]))
    r['odd'] = ', '.join(odd)
    return r


def postprocess(cfg, events):
    """replace the hex dump of disk events by the decoded form, metadata by its parts"""
    out = []
    for e in events:
        if e.get('op') == 'disk' and e.get('res') == 'ok':
            e = dict(e)
            e['files'] = decode_disk(cfg, e['files'])
        elif e.get('op') == 'metadoc' and e.get('res') == 'ok':
            e = dict(e)
            e['raw'] = json.dumps(e['doc'])
            e['doc'] = parse_doc(cfg, e['doc'])
        elif e.get('op') == 'meta' and isinstance(e.get('opts'), dict):
            e = dict(e)
            e['opts'] = sorted([k, json.dumps(v, sort_keys=True)] for k, v in e['opts'].items())
        out.append(e)
    return out
