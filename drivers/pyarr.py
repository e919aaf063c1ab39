"""Dataset operations through the z5py package; same events as zdrv."""
import json
import copy
import itertools
import os
import sys
import threading
import pickle
import subprocess
import sys

import numpy as np

import enc
import pybase
import z5py
from pybase import Harness


def fill_of(cfg):
    s = cfg.get('fillspecial')
    return {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}[s] if s else cfg.get('fillreal', 0)


def mul(a, b):
    return [int(x) * int(y) for x, y in zip(a, b)]


def cl(a):
    """TLC integers have 32 bits"""
    return [max(-(1 << 30), min(1 << 30, int(x))) for x in a]


def prod(a):
    r = 1
    for x in a:
        r *= int(x)
    return r


class Runner:
    def __init__(self, tr, root):
        self.cfg = c = tr['cfg']
        self.root = root
        self.path = os.path.join(root, c.get('file') or ('c.n5' if c['fmt'] == 'n5' else 'c.zarr'))
        self.key = c.get('key', 'data')
        self.cd = enc.Codec(c['dtype'], fill_of(c))
        self.sc = c['scale']
        self.ds = None
        self.ro = False

    # --- encoding of boxes
    def expand(self, data, off, shp):
        a = np.asarray(data, dtype=np.int64).reshape(tuple(shp))
        for d, k in enumerate(self.sc):
            a = np.repeat(a, k, axis=d)
        return self.cd.encode(a.ravel(), mul(off, self.sc), a.shape)

    def contract(self, arr, off, shp):
        if list(arr.shape) != mul(shp, self.sc):
            return [-3]
        v = self.cd.decode(arr, mul(off, self.sc))
        nd = len(shp)
        v = v.reshape([x for s, k in zip(shp, self.sc) for x in (s, k)])
        v = np.moveaxis(v, [2 * d + 1 for d in range(nd)], list(range(nd, 2 * nd)))
        v = v.reshape(tuple(shp) + (-1,))
        a = v[..., 0].copy()
        a[(v != v[..., :1]).any(axis=-1)] = -1
        return [int(x) for x in a.ravel()]

    def stored_varlen(self, p):
        """mode field of the stored n5 chunk (1-D results alone do not tell)"""
        try:
            with open(os.path.join(self.path, self.key, *[str(x) for x in reversed(p)]), 'rb') as f:
                return f.read(2) == b'\0\1'
        except OSError:
            return False

    def file(self, mode):
        c = self.cfg
        zf = 3 if c['fmt'] == 'zarr3' else 2
        if c['fmt'] == 'n5':
            return z5py.File(self.path, mode, use_zarr_format=False)
        return z5py.File(self.path, mode, use_zarr_format=True, zarr_format=zf, dimension_separator=c['sep'])

    def create(self, via):
        c = self.cfg
        f = self.file('a')
        kw = dict(c['opts'])
        kw.pop('useZlib', None)
        if c['fmt'] == 'zarr3':
            kw['chunk_key_encoding'] = c['enc']
            if c['shards']:
                kw['shards'] = tuple(mul(c['shards'], self.sc))
        if c['fmt'] != 'n5' or fill_of(c) != 0:
            kw['fillvalue'] = fill_of(c)
        name = self.key
        args = dict(shape=tuple(mul(c['shape'], self.sc)), dtype=c['dtype'], chunks=tuple(mul(c['chunks'], self.sc)),
                    compression=c['codec'], **kw)
        if via == 'require':
            self.ds = f.require_dataset(name, **args)
        else:
            self.ds = f.create_dataset(name, **args)

    def reopen(self, op):
        how = op.get('how', 'open')
        self.ro = op.get('mode', 'a') == 'r'
        if how == 'pickle':
            if self.ds is None:
                self.ds = self.file('a')[self.key]
            self.ds = pickle.loads(pickle.dumps(self.ds))
        elif how == 'groupkey':
            self.ds = self.file(op.get('mode', 'a'))['/' + self.key]
        else:
            self.ds = z5py.File(self.path, op.get('mode', 'a'))[self.key]

    def sel(self, off, shp):
        return tuple(slice(int(o), int(o) + int(s)) for o, s in zip(mul(off, self.sc), mul(shp, self.sc)))

    def par(self, op, ev):
        """threads running programs on the dataset object (or on one object each)"""
        clock = itertools.count()
        barrier = threading.Barrier(len(op['progs']))
        res = [[] for _ in op['progs']]
        bad = []

        def go(i, me):
            barrier.wait()
            for o in op['progs'][i]:
                e = {'op': o['op'], 'res': 'ok'}
                ts = next(clock)
                try:
                    me.op(o, e)
                except Harness:
                    bad.append(1)
                except Exception as x:
                    pybase.err_event(e, x)
                e['ts'], e['te'] = ts, next(clock)
                res[i].append(e)
        mes = [copy.copy(self) for _ in op['progs']]
        if op.get('handles'):
            for m in mes:
                m.ds = z5py.File(self.path, 'r+')[self.key]
        sys.setswitchinterval(op.get('switch', 0.005))
        th = [threading.Thread(target=go, args=(i, m)) for i, m in enumerate(mes)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        if bad:
            raise Harness('par')
        ev['progs'] = res

    def foreign(self, op):
        """a dataset of another implementation appears: its files, or what that implementation writes"""
        if 'files' in op:
            for k, h in op['files'].items():
                p = os.path.join(self.path, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(bytes.fromhex(h))
            return
        import extlib
        a = self.expand(op['data'], [0] * len(self.cfg['shape']), self.cfg['shape'])
        r = extlib.guarded(extlib.write, op['lib'], self.cfg, self.path, self.key, a, fill_of(self.cfg))
        if r is not None:
            raise Harness('%s %s: %s' % (op['lib'], self.cfg, r))

    def extread(self, op, ev):
        """another implementation reads the dataset"""
        import extlib
        ev['lib'] = op['lib']
        r = extlib.guarded(extlib.read, op['lib'], self.cfg, self.path, self.key)
        if isinstance(r, str):               # the other implementation refuses or fails: a fact about the files
            ev.update(res='err', what=r)
            return
        ev['data'] = [-4] if r.dtype.newbyteorder('=') != np.dtype(self.cfg['dtype']) else self.contract(r, [0] * len(self.cfg['shape']), self.cfg['shape'])

    def op(self, op, ev):
        name = op['op']
        c = self.cfg
        if self.ro and name != 'open':
            ev['ro'] = True
        if name == 'create':
            return self.create(op.get('via'))
        if name == 'open':
            return self.reopen(op)
        if name == 'foreign':
            ev.update({k: op[k] for k in ('st', 'ext', 'variant') if k in op})
            return self.foreign(op)
        if name == 'extread':
            return self.extread(op, ev)
        if name == 'par':
            return self.par(op, ev)
        if name == 'disk':
            base = os.path.join(self.path, self.key)
            fs = {}
            for d, _, files in os.walk(base):
                for f in files:
                    if f not in pybase.META:
                        p = os.path.join(d, f)
                        with open(p, 'rb') as fh:
                            fs[os.path.relpath(p, base)] = fh.read().hex()
            ev['files'] = fs
            return
        if name == 'metadoc':
            with open(os.path.join(self.path, self.key, {'n5': 'attributes.json', 'zarr2': '.zarray', 'zarr3': 'zarr.json'}[c['fmt']])) as fh:
                ev['doc'] = json.load(fh)
            return
        if self.ds is None:
            raise RuntimeError('no dataset')
        ds = self.ds
        if 'thr' in op:
            ds.n_threads = op['thr']
        if name == 'meta':
            ev.update(shape=list(ds.shape), chunks=list(ds.chunks), shards=list(ds.shards or []),
                      nchunks=int(ds.number_of_chunks), grid=list(ds.chunks_per_dimension), zarr=bool(ds.is_zarr),
                      sharded=ds.shards is not None, dtype=str(ds.dtype), size=int(ds.size), csize=prod(ds.chunks),
                      codec=ds.compression, opts=ds.compression_opts)
            if len(ds) != ds.shape[0] or ds.ndim != len(ds.shape):
                ev['dtype'] = 'len/ndim wrong'
            return
        if name == 'exists':
            ev['p'] = cl(op['p'])
            ev['val'] = bool(ds.chunk_exists(tuple(op['p'])))
            return
        if name == 'rmchunk':
            ev['p'] = cl(op['p'])
            ds._impl.remove_chunk(tuple(op['p']))
            return
        if name in ('write', 'read', 'scalar'):
            off, shp = op['off'], op['shp']
            ev['off'], ev['shp'] = cl(off), cl(shp)
            raw = op.get('rawreq')
            sel = tuple(slice(o, o + s) for o, s in zip(off, shp)) if raw else self.sel(off, shp)
            api = op.get('api', 'item')
            start = [int(x) for x in off] if raw else [s.start for s in sel]
            stop = [s.stop for s in sel]
            if name == 'scalar':
                ev['v'] = op['v']
                v = self.cd.scalar(op['v'])
                if op.get('py', False):
                    v = v.item()
                ds[sel] = v
            elif name == 'write':
                ev['data'] = op['data']
                a = np.zeros(tuple(shp), c['dtype']) if raw else self.expand(op['data'], off, shp)
                lay = op.get('lay', 0)
                if lay == 1:
                    a = np.asfortranarray(a)
                elif lay == 2:
                    b = np.full([2 * x for x in a.shape], self.cd.const[0], a.dtype)
                    b[tuple(slice(0, None, 2) for _ in a.shape)] = a
                    a = b[tuple(slice(0, None, 2) for _ in a.shape)]
                elif lay == 3 and api == 'item':
                    a = a.astype(a.dtype.newbyteorder('>'))
                keep = a.copy()
                if api == 'item':
                    ds[sel] = a
                elif api == 'sub':
                    ds.write_subarray(start, a)
                else:
                    full = np.full([x + 2 for x in a.shape], self.cd.const[1], a.dtype)
                    src = tuple(slice(1, 1 + x) for x in a.shape)
                    full[src] = a
                    ds.write_direct(full, source_sel=src, dest_sel=sel)
                ev['guard'] = bool(keep.tobytes() == a.tobytes())
            else:
                ev['guard'] = True
                if api == 'item':
                    r = ds[sel]
                elif api == 'sub':
                    r = ds.read_subarray(start, stop)
                elif api == 'asarray' and [int(x) for x in shp] == list(c['shape']):
                    r = np.asarray(ds)
                else:
                    can = self.cd.const[1]
                    full = np.full([int(x) + 2 for x in mul(shp, self.sc)], can, c['dtype'])
                    dst = tuple(slice(1, 1 + int(x)) for x in mul(shp, self.sc))
                    ds.read_direct(full, source_sel=sel, dest_sel=dst)
                    r = full[dst].copy()
                    full[dst] = can
                    ev['guard'] = bool(np.all(self.cd._eq(full, can)))
                if r.dtype != np.dtype(c['dtype']):
                    ev['data'] = [-4]
                else:
                    ev['data'] = [] if raw else self.contract(r, off, shp)
            return
        if name in ('wchunk', 'rchunk', 'cinfo'):
            p = op['p']
            ev['p'] = cl(p)
            shape, chunks = c['shape'], c['chunks']
            grid = [(s + k - 1) // k for s, k in zip(shape, chunks)]
            ok = len(p) == len(shape) and all(0 <= a < b for a, b in zip(p, grid))
            off = [a * b for a, b in zip(p, chunks)] if ok else [0] * len(p)
            clip = [min(o + k, s) - o for o, k, s in zip(off, chunks, shape)] if ok else [1] * len(p)
            zarr = c['fmt'] != 'n5'
            full = mul(chunks, self.sc)
            rc = mul(clip, self.sc)
            if name == 'wchunk':
                ev['var'] = bool(op.get('var'))
                ev['data'] = op['data']
                if op.get('var'):
                    n = len(op['data'])
                    a = self.cd.encode(op['data'], list(p) + [0], (1,) * len(p) + (n,)).reshape(n) if n else np.zeros(0, c['dtype'])
                    ds.write_chunk(tuple(p), a, True)
                    return
                if op.get('count') is not None:
                    a = np.full(op['count'], self.cd.const[0], c['dtype'])
                    ds.write_chunk(tuple(p), a)
                    return
                a = self.expand(op['data'], off, clip) if ok else np.full(prod(full), self.cd.const[0], c['dtype'])
                if zarr and ok:
                    b = np.full(full, self.cd.const[0] if op.get('junk') else self.cd.fill, c['dtype'])
                    b[tuple(slice(0, x) for x in rc)] = a
                    a = b
                ds.write_chunk(tuple(p), a)
                return
            if name == 'cinfo':
                ev['cshape'] = list(ds.get_chunk_shape(tuple(p)))
                if not zarr and ds.chunk_exists(tuple(p)):
                    ev['hshape'] = list(ds.get_chunk_shape(tuple(p), True))
                return
            r = ds.read_chunk(tuple(p))
            if r is None:
                ev.update(none=True, var=False, data=[])
                return
            ev['none'] = False
            if not zarr and ok and self.stored_varlen(p):
                ev['var'] = r.ndim == 1
                v = self.cd.decode(r.reshape((1,) * len(p) + (-1,)), list(p) + [0]).ravel() if r.size else []
                ev['data'] = [int(x) for x in v]
                return
            ev['var'] = r.ndim != len(full) or list(r.shape) != (full if zarr else rc)
            if not ev['var']:
                ev['data'] = self.contract(r[tuple(slice(0, x) for x in rc)], off, clip)
            else:
                ev['data'] = []
            return
        raise Harness('unknown op ' + name)


if __name__ == '__main__':
    if os.environ.get('Z5_EXTLIBS'):         # once, before forking
        import zarr                          # noqa: F401
        import tensorstore                   # noqa: F401
    pybase.main(Runner)
