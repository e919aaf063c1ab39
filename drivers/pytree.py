"""Containers, groups, attributes and creation through the z5py package (events of TraceTree)."""
import json
import os
import pathlib
import pickle
import signal

import numpy as np

import pybase
import z5py
from pybase import Harness


def canon(v):
    return json.dumps(v, sort_keys=True, default=lambda o: {'__ext__': sorted(o)})


class Encoder(json.JSONEncoder):
    def default(self, o):
        return {'__ext__': [int(x) for x in o]} if isinstance(o, (np.ndarray, frozenset)) else super().default(o)


class Decoder(json.JSONDecoder):
    def __init__(self, *a, **k):
        super().__init__(*a, object_hook=lambda d: frozenset(d['__ext__']) if set(d) == {'__ext__'} else d, **k)


class codec:
    """with the package-wide encoder and decoder of attributes set"""

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if self.on:
            z5py.set_json_encoder(Encoder)
            z5py.set_json_decoder(Decoder)
            for f, x in ((z5py.set_json_encoder, Decoder), (z5py.set_json_decoder, Encoder), (z5py.set_json_encoder, dict)):
                try:
                    f(x)
                except (RuntimeError, TypeError):
                    continue
                self.__exit__()
                raise AssertionError('took a wrong class')

    def __exit__(self, *a):
        z5py.set_json_encoder(None)
        z5py.set_json_decoder(None)


def native(v):
    """the python value that the encoder writes as the JSON value v"""
    if isinstance(v, dict) and set(v) == {'__ext__'}:
        return frozenset(v['__ext__'])
    return v


def parts(name):
    return [x for x in name.split('/') if x]


def spell(path, deco):
    """one of the ways to write a path"""
    s = '/'.join(path)
    if deco == 1:
        return '/' + s
    if deco == 2:
        return s + '/'
    if deco == 3:
        return '/' + '//'.join(path) + '//'
    return s


NONJSON = {'nan': float('nan'), 'inf': [float('inf')], 'object': object(), 'bytes': b'x', 'set': {1}}


class Runner:
    def __init__(self, tr, root):
        self.cfg = tr['cfg']
        self.fmt = self.cfg['fmt']
        self.path = os.path.join(root, self.cfg.get('file', 'c.n5' if self.fmt == 'n5' else 'c.zarr'))
        self.s3 = self.cfg.get('backend') == 's3'
        if self.s3:                      # the bucket, and the place in it (the stand-in keeps objects as files)
            self.bucket = os.path.join(root, 'b')
            os.makedirs(self.bucket, exist_ok=True)
            self.path = os.path.join(self.bucket, self.cfg['prefix']) if self.cfg['prefix'] else self.bucket
        self.handles = {}
        self.objs = {}

    # ------------------------------------------------------------- handles
    def open(self, mode, how=0, plain=False):
        kw = {}
        path = pathlib.Path(self.path) if how >= 6 else self.path
        how %= 6
        if self.fmt != 'n5' and (self.s3 or not (plain and self.cfg.get('sep', '.') == '.')):
            kw = {'zarr_format': 3 if self.fmt == 'zarr3' else 2}
            if self.fmt == 'zarr2' and self.cfg.get('sep'):
                kw['dimension_separator'] = self.cfg['sep']
        m = 'x' if mode == 'w-' and how % 2 else mode
        if self.s3:
            if how >= 2:
                kw['use_zarr_format'] = True
            kw.update([{}, {'endpoint_url': 'http://localhost:9000', 'anon': True}, {'access_key': 'a', 'secret_key': 'b', 'region': 'x'}][how % 3])
            if not self.cfg['prefix'] and how % 2:
                return z5py.S3File(self.bucket, mode=m, **kw)
            return z5py.S3File(self.bucket, self.cfg['prefix'], m, **kw)
        if how >= 4:
            if self.fmt == 'n5':
                return z5py.N5File(path, m)
            return z5py.ZarrFile(path, m, **kw)
        if how >= 2:
            return z5py.File(path, m, use_zarr_format=self.fmt != 'n5', **kw)
        return z5py.File(path, mode=m, **kw)

    def file(self, mode):
        if mode not in self.handles:
            if mode not in ('r', 'r+', 'a') or not self.there():
                raise RuntimeError('there is no such handle')
            self.handles[mode] = self.open(mode)
        return self.handles[mode]

    def there(self):
        return any(x[2] for x in os.walk(self.path)) if self.s3 else os.path.isdir(self.path)

    def at(self, op, mutate=False):
        """(group, name) that address the path of the operation"""
        path = op['path']
        via = min(op.get('via', 0), len(path))
        g = self.file(op['mode'])
        if via:
            g = g[spell(path[:via], op.get('deco', 0))]
        return g, spell(path[via:], op.get('deco', 0))

    def node(self, op):
        if not op['path']:
            return self.file(op['mode'])
        key = (op['mode'], tuple(op['path']))
        if op.get('cached') and key in self.objs:
            return self.objs[key]
        g, name = self.at(op)
        obj = g[name] if name else g
        self.objs[key] = obj
        return obj

    # -------------------------------------------------------- descriptions
    def meta(self, m):
        return self.cfg['metas'][m - 1]

    def observe(self, ds, m=None):
        if not isinstance(ds, z5py.Dataset):
            raise RuntimeError('not a dataset: %r' % (ds,))
        opts = ds.compression_opts
        return {'shape': canon(list(ds.shape)), 'chunks': canon(list(ds.chunks)), 'dtype': str(ds.dtype),
                'codec': ds.compression, 'opts': canon({k: opts.get(k) for k in self.optkeys(ds)}),
                'shards': canon(list(ds.shards or []))}

    def optkeys(self, ds):
        return {'blosc': ('codec', 'level', 'shuffle', 'blocksize'), 'raw': ()}.get(ds.compression, ('level',))

    def kwargs(self, m, bad, data=0, op=None):
        d = self.meta(m)
        kw = {'shape': tuple(d['rshape']), 'dtype': d['rdtype'], 'chunks': tuple(d['rchunks'])}
        if d['rcodec']:
            kw['compression'] = d['rcodec']
        kw.update(d['ropts'])
        if d['rshards']:
            kw['shards'] = tuple(d['rshards'])
        if d['fill']:
            kw['fillvalue'] = d['fill']
        if self.fmt == 'zarr3' and d.get('enc'):
            kw['chunk_key_encoding'] = d['enc']
        if data:
            kw['data'] = np.full(kw['shape'], self.real(m, data), kw['dtype'])
            if op.get('implied'):
                del kw['shape'], kw['dtype']
        if op and op.get('nochunks'):
            del kw['chunks']
        nd = len(d['rshape'])
        if bad:
            b = op.get('how') or 'dtype'
            if b == 'dtype':
                kw['dtype'] = 'complex64'
            elif b == 'bool':
                kw['dtype'] = 'bool'
            elif b == 'str':
                kw['dtype'] = 'S4'
            elif b == 'rank':
                kw['chunks'] = (1,) * (nd + 1)
            elif b == 'zero':
                kw['chunks'] = (0,) * nd
            elif b == 'negchunk':
                kw['chunks'] = (-1,) + (1,) * (nd - 1)
            elif b == 'negshape':
                kw['shape'] = (-3,) + tuple(d['rshape'][1:])
            elif b == 'codec':
                kw['compression'] = 'nonsense'
            elif b == 'option':
                kw['nonsense'] = 3
            elif b == 'shards':
                kw['shards'] = tuple(c + 1 for c in d['rchunks']) if self.fmt == 'zarr3' else tuple(d['rchunks'])
                if self.fmt == 'zarr3':
                    kw['chunks'] = tuple(min(c, s) for c, s in zip(d['rchunks'], d['rshape']))
                    kw['shards'] = tuple(c * 2 + (1 if c > 1 else -2) for c in kw['chunks'])
            elif b == 'shardrank':
                kw['shards'] = tuple(d['rchunks']) + (1,)
            elif b == 'fill':
                kw['fillvalue'] = 1 if self.fmt == 'n5' else ('nonsense' if kw['dtype'].startswith('f') else 10 ** 30)
            elif b == 'noshape':
                kw['shape'] = None
                kw.pop('data', None)
            elif b == 'nodtype':
                kw['dtype'] = None
                kw.pop('data', None)
            elif b == 'empty':
                kw['shape'], kw['chunks'] = (), ()
            elif b == 'datashape':
                kw['data'] = np.zeros(tuple(x + 1 for x in d['rshape']), kw['dtype'])
            elif b == 'datatype':
                kw['data'] = np.zeros(d['rshape'], 'float32' if kw['dtype'] != 'float32' else 'int8')
            elif b == 'codecfmt':
                kw['compression'] = {'n5': 'zlib', 'zarr2': 'xz', 'zarr3': 'bzip2'}[self.fmt]
            elif b == 'enc':
                kw['chunk_key_encoding'] = 'nonsense'
            else:
                raise Harness(b)
        return kw

    def real(self, m, v):
        return self.meta(m)['vals'][v]

    def value(self, ds, m):
        a = ds[...]
        if list(a.shape) != self.meta(m)['rshape']:
            return -2
        for v, x in enumerate(self.meta(m)['vals']):
            if (a == np.asarray(x, a.dtype)).all():
                return v
        return -1

    def chunkgrid(self, ds):
        return [tuple(p) for p in np.ndindex(*ds.chunks_per_dimension)]

    # ----------------------------------------------------------------- ops
    def op(self, op, ev):
        self.describe_op(op, ev)
        getattr(self, 'do_' + op['op'])(op, ev)

    def describe_op(self, op, ev):
        for k in ('mode', 'path', 'm', 'v', 'bad', 'key', 'stop', 'wc', 'wt', 'badhow'):
            if k in op:
                ev[k] = op[k]
        if op['op'] == 'aset':
            ev['items'] = [[k, canon(self.cfg['jvals'][v])] for k, v in op['items']]

    def do_fault(self, op, ev):
        """an operation during which a storage call fails or the process ends"""
        ev['k'], ev['how'] = op['k'], op['how']
        ev['fired'], ev['in'] = pybase.faulty(self, op)
        if op['how'] in ('kill', 'short'):       # what the other process had in memory is gone
            self.objs = {}

    def do_fopen(self, op, ev):
        mode = op['mode']
        if op.get('bad'):
            return self.badopen(op)
        f = self.open(mode, op.get('how', 0), op.get('plain'))
        if op.get('ctx'):
            with f as g:
                if g is not f:
                    raise RuntimeError('another object')
            f.close()
        if mode == 'w':
            self.handles, self.objs = {}, {}
        self.handles[mode] = f
        ev['zarr'] = bool(f.is_zarr)

    def badopen(self, op):
        """asks for what there is not"""
        b, x, zarr = op['badhow'], op['mode'], self.fmt != 'n5'
        if b == 'format':
            if op['how'] % 2:
                return z5py.File(self.path, x, use_zarr_format=not zarr)
            return z5py.N5File(self.path, x) if zarr else z5py.ZarrFile(self.path, x)
        if b == 'alien':
            return self.alien(x, op['how'])
        if b == 'mode':
            return z5py.File(self.path, ['q', 'wr', '', 'R', 'r +', 'rb'][op['how'] % 6])
        if b == 'version':
            return z5py.File(self.path, x, zarr_format=[1, 4, 0, 23, -2, 99][op['how'] % 6])
        return z5py.File(self.path, x, dimension_separator=['-', '', '..', './', '0', ' '][op['how'] % 6])

    def alien(self, mode, how):
        """the container as a later version of the format"""
        name = {'n5': 'attributes.json', 'zarr2': '.zgroup', 'zarr3': 'zarr.json'}[self.fmt]
        p = os.path.join(self.path, name)
        with open(p) as f:
            old = f.read()
        d = json.loads(old)
        if self.fmt == 'n5':
            d['n5'] = ['5.0.0', '10.0.0', '7.1.2-SNAPSHOT', '12.3'][how % 4]
        else:
            d['zarr_format'] = [1, 4, 5, 23][how % 4]
        new = json.dumps(d)
        with open(p, 'w') as f:
            f.write(new)
        try:
            return self.open(mode, how)
        finally:
            if open(p).read() == new:       # what the code under test changed stays
                with open(p, 'w') as f:
                    f.write(old)

    def do_move(self, op, ev):
        """the directory gets another name"""
        ev['path'] = []
        if not os.path.isdir(self.path):
            raise Harness('nothing to move')
        new = os.path.join(os.path.dirname(self.path), op['to'])
        os.rename(self.path, new)
        self.path, self.handles, self.objs = new, {}, {}

    def do_mkgroup(self, op, ev):
        g, name = self.at(op)
        r = g.create_group(name)
        self.kept(op, r)

    def do_reqgroup(self, op, ev):
        g, name = self.at(op)
        r = g.require_group(name)
        self.kept(op, r)

    def kept(self, op, obj):
        self.objs[(op['mode'], tuple(op['path']))] = obj

    def do_mkds(self, op, ev):
        g, name = self.at(op)
        ds = g.create_dataset(name, **self.kwargs(op['m'], op['bad'], op['v'], op))
        self.kept(op, ds)
        ev['om'] = self.observe(ds)

    def do_clone(self, op, ev):
        """create with the options an existing dataset reports; copy its contents"""
        ev['src'] = op['src']
        f = self.file(op['mode'])
        ds = f[spell(op['src'], 0)]
        if not isinstance(ds, z5py.Dataset):
            raise RuntimeError('not a dataset')
        g, name = self.at(op)
        d = self.meta(op['mm'])
        kw = dict(ds.compression_opts)
        if self.fmt == 'zarr3':                  # what a dataset does not report of itself
            kw['chunk_key_encoding'] = d.get('enc', 'default')
        if d['fill']:
            kw['fillvalue'] = d['fill']
        new = g.create_dataset(name, shape=ds.shape, dtype=ds.dtype, chunks=ds.chunks, shards=ds.shards,
                               compression=ds.compression, **kw)
        ev['om'] = self.observe(new)
        a, b = self.metadoc(op['src']), self.metadoc(op['path'])
        ev['docsame'] = bool(a == b and a is not None)
        new[...] = ds[...]
        ev['v'] = self.value(new, op['mm'])
        self.kept(op, new)

    def metadoc(self, path):
        """the stored description of a dataset, without its attributes"""
        name = {'n5': 'attributes.json', 'zarr2': '.zarray', 'zarr3': 'zarr.json'}[self.fmt]
        with open(os.path.join(self.path, *path, name)) as f:
            d = json.load(f)
        if self.fmt == 'n5':
            return {k: d.get(k) for k in ('dimensions', 'blockSize', 'dataType', 'compression')}
        d.pop('attributes', None)
        return d

    def do_reqds(self, op, ev):
        g, name = self.at(op)
        kw = self.kwargs(op['m'], op['bad'], op['v'], op)
        if not op['wc']:
            kw.pop('chunks', None)
        if not op['wt']:
            kw.pop('dtype', None)
        if op.get('listargs'):
            kw = {k: list(x) if isinstance(x, tuple) else x for k, x in kw.items()}
        ds = g.require_dataset(name, **kw)
        ev['om'] = self.observe(ds)

    def do_del(self, op, ev):
        g, name = self.at(op)
        del g[name]
        self.objs = {}

    def do_has(self, op, ev):
        g, name = self.at(op)
        ev['val'] = bool(name in g) if name else True
        if op.get('get') and name:
            if (g.get(name) is not None) != ev['val']:
                ev['val'] = 'get disagrees'

    def do_isg(self, op, ev):
        g, name = self.at(op)
        ev['val'] = bool(g.is_sub_group(name))

    def describe(self, obj, ev, path):
        if isinstance(obj, z5py.Dataset):
            ev['kind'] = 'd'
            ev['om'] = self.observe(obj)
        elif isinstance(obj, z5py.Group):
            ev['kind'] = 'g'
        else:
            ev['kind'] = type(obj).__name__
        if bool(obj.is_zarr) != (self.fmt != 'n5'):
            ev['kind'] = 'is_zarr wrong'
        ev['name'] = parts(obj.name)
        if self.s3:
            if not isinstance(obj.file, z5py.S3File):
                ev['name'] = [type(obj.file).__name__]
        elif os.path.abspath(obj.file.filename) != os.path.abspath(self.path):
            ev['name'] = [obj.file.filename]

    def do_get(self, op, ev):
        obj = self.node(op)
        self.describe(obj, ev, op['path'])

    def do_keys(self, op, ev):
        g = self.node(op)
        if not isinstance(g, z5py.Group):
            raise RuntimeError('not a group')
        how = op.get('how', 0)
        if how == 1:
            ev['keys'] = [str(x) for x in g]
        elif how == 2:
            ev['keys'] = [k for k, v in g.items() if parts(v.name)[-1] == k]
        elif how == 3:
            ev['keys'] = [parts(v.name)[-1] for v in g.values()]
        else:
            ev['keys'] = list(g.keys())
        ev['len'] = len(g)

    def do_visit(self, op, ev):
        g = self.node(op)
        if not isinstance(g, z5py.Group):
            raise RuntimeError('not a group')
        items = []

        def f(name, obj):
            k = 'd' if isinstance(obj, z5py.Dataset) else 'g' if isinstance(obj, z5py.Group) else '?'
            if parts(obj.name) != op['path'] + parts(name):
                k = 'wrong object'
            items.append([parts(name), k])
        if g.visititems(f) is not None:
            items.append([['returned'], '?'])
        ev['items'] = items

    def do_visitstop(self, op, ev):
        g = self.node(op)
        if not isinstance(g, z5py.Group):
            raise RuntimeError('not a group')
        seen = []

        def f(name, obj):
            if seen:
                seen.append('again')
            if parts(name)[-1] == op['stop']:
                seen.append(parts(name))
                return name
        r = g.visititems(f)
        ev['found'] = parts(r) if r else []
        if len(seen) > 1 or (seen and seen[0] != ev['found']):
            ev['found'] = ['stopped', 'late']

    # ---------------------------------------------------------- attributes
    def do_aset(self, op, ev):
        vals = self.cfg['jvals']
        at = self.node(op).attrs
        items = {k: vals[v] for k, v in op['items']}
        if op['bad']:
            items[op.get('badkey', 'bad')] = NONJSON[op.get('badval', 'nan')]
        with codec(op.get('codec')):
            if op.get('codec'):
                items = {k: native(v) for k, v in items.items()}
            if len(items) == 1 and not op.get('upd'):
                k, = items
                at[k] = items[k]
            elif op.get('upd') == 2:
                at.update(list(items.items()))
            else:
                at.update(items)

    def do_adel(self, op, ev):
        at = self.node(op).attrs
        if op.get('pop'):
            v = at.pop(op['key'])
        else:
            del at[op['key']]

    def value_of(self, op, f):
        with codec(op.get('codec')):
            v = f()
        if op.get('codec') and isinstance(v, dict) and '__ext__' in v and set(v) == {'__ext__'}:
            return 'not decoded'
        return canon(v)

    def do_aget(self, op, ev):
        at = self.node(op).attrs
        ev['val'] = self.value_of(op, lambda: at[op['key']])

    def do_ahas(self, op, ev):
        ev['val'] = bool(op['key'] in self.node(op).attrs)

    def do_aall(self, op, ev):
        at = self.node(op).attrs
        how = op.get('how', 0)
        with codec(op.get('codec')):
            if how == 1:
                it = [(k, at[k]) for k in at.keys()]
            elif how == 2:
                it = [(k, at.get(k)) for k in list(at)]
            else:
                it = list(at.items())
            ev['len'] = len(at)
        if self.fmt == 'n5' and not op['path']:      # the version key of the container is readable
            if 'n5' not in dict(it) or not str(dict(it)['n5'])[:1].isdigit():
                it, ev['len'] = [['n5', 'no version']], -1
            it = [x for x in it if x[0] != 'n5']
            ev['len'] -= 1
        ev['items'] = [[k, canon(v)] for k, v in it]

    # ------------------------------------------------------------- content
    def do_dset(self, op, ev):
        ds = self.node(op)
        if not isinstance(ds, z5py.Dataset):
            raise RuntimeError('not a dataset')
        v, m, how = op['v'], op['mm'], op.get('how', 0)
        x = np.dtype(self.meta(m)['rdtype']).type(self.real(m, v))
        if how == 1:
            ds[...] = np.full(ds.shape, x, ds.dtype)
        elif how == 2:
            for p in self.chunkgrid(ds):
                shp = ds.chunks if self.fmt != 'n5' else \
                    tuple(min((q + 1) * c, s) - q * c for q, c, s in zip(p, ds.chunks, ds.shape))
                ds.write_chunk(p, np.full(shp, x, ds.dtype))
        elif how == 3 and v == 0:
            for p in self.chunkgrid(ds):
                ds._impl.remove_chunk(p)
        elif how == 4:
            ds.n_threads = 3
            ds.write_subarray(tuple(0 for _ in ds.shape), np.full(ds.shape, x, ds.dtype))
        else:
            ds[...] = x

    def do_dget(self, op, ev):
        ds = self.node(op)
        if not isinstance(ds, z5py.Dataset):
            raise RuntimeError('not a dataset')
        v = self.value(ds, op['mm'])
        ex = [bool(ds.chunk_exists(p)) for p in self.chunkgrid(ds)]
        ev['v'] = v if len(set(ex)) == 1 else -3
        ev['present'] = ex[0]

    def do_pickle(self, op, ev):
        obj = self.node(op)
        new = pickle.loads(pickle.dumps(obj))
        self.describe(new, ev, op['path'])
        same = isinstance(new, (z5py.File, z5py.S3File)) == isinstance(obj, (z5py.File, z5py.S3File)) and dict(new.attrs) == dict(obj.attrs)
        same = same and new.file._handle.mode().mode() == obj.file._handle.mode().mode()
        if isinstance(obj, z5py.Dataset):
            same = same and bool(np.array_equal(new[...], obj[...])) and new.n_threads == obj.n_threads
        else:
            same = same and sorted(new.keys()) == sorted(obj.keys())
        ev['same'] = bool(same)
        if op.get('use'):        # go on with the copy
            self.objs[(op['mode'], tuple(op['path']))] = new
            if not op['path']:
                self.handles[op['mode']] = new


if __name__ == '__main__':
    pybase.main(Runner)
