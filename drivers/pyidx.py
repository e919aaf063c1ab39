"""Index expressions on a z5py dataset (or, with "ref", on a numpy array: the specification's own touchstone)."""
import os

import numpy as np

import pybase
import z5py
from pybase import Harness

WRAP = [int, np.int64, np.int32, np.int8, np.uint8, np.uint64]


class Odd:
    """an integer by __index__ only"""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


def num(v, w):
    if w == 0 or (v < 0 and w >= 4) or not -100 <= v <= 100:
        return int(v)
    return WRAP[w % len(WRAP)](v)


BADIX = {'none': None, 'list': [0], 'array': np.array([0]), 'mask': True, 'float': 0.5, 'str': 'a', 'step2': slice(0, None, 2),
         'stepm': slice(None, None, -1), 'npmask': np.bool_(True), 'fbound': slice(0.0, 1.0), 'step0': slice(None, None, 0), 'fl': 1.0}


class Runner:
    def __init__(self, tr, root):
        self.cfg = c = tr['cfg']
        self.ref = c.get('ref')
        self.dt = np.dtype(c['dtype'])
        if self.ref:
            self.ds = np.zeros(c['shape'], self.dt)
            return
        f = z5py.File(os.path.join(root, 'c.n5' if c['fmt'] == 'n5' else 'c.zarr'), 'a', use_zarr_format=c['fmt'] != 'n5',
                      **({} if c['fmt'] == 'n5' else {'zarr_format': 3 if c['fmt'] == 'zarr3' else 2}))
        kw = {'shards': tuple(c['shards'])} if c.get('shards') else {}
        self.ds = f.create_dataset('data', shape=tuple(c['shape']), chunks=tuple(c['chunks']), dtype=c['dtype'],
                                   compression='raw', n_threads=c.get('thr', 1), **kw)

    def index(self, op):
        out = []
        for it in op['ix']:
            w = op.get('wrap', 0)
            if it['t'] == 'i':
                out.append(num(it['v'], w))
            elif it['t'] == 's':
                b = [num(x[0], w) if x else None for x in (it['a'], it['b'])]
                out.append(slice(b[0], b[1], op.get('step')))
            elif it['t'] == 'e':
                out.append(Ellipsis)
            else:
                out.append(BADIX[it['what']])
        if len(out) == 1 and op.get('bare'):
            return out[0]
        return tuple(out)

    def op(self, op, ev):
        name = op['op']
        if name == 'init':
            return
        if name == 'all':
            if self.ref:
                a = self.ds
            else:
                a = self.ds.read_subarray([0] * len(self.cfg['shape']), list(self.cfg['shape']))
            ev['data'] = [int(x) for x in a.ravel()]
            return
        ev['ix'] = op['ix']
        if name == 'get':
            ix = self.index(op)
            r = self.ds[ix]
            a = np.asarray(r)
            ev['shape'] = list(a.shape)
            ev['data'] = [int(x) for x in a.ravel()]
            ev['dt'] = bool(a.dtype == self.dt and (isinstance(r, np.ndarray) or (isinstance(r, np.generic) and a.shape == ())))
            return
        if name == 'set':
            v = op['val']
            ev['val'] = v
            ix = self.index(op)
            if v['t'] == 'sc':
                kind = op.get('as', 0)
                x = v['v'] if kind == 0 else self.dt.type(v['v']) if kind == 1 else float(v['v']) if kind == 2 else np.int16(v['v']) \
                    if kind == 3 else np.float64(v['v'])
            elif v['t'] == 'arr':
                kind = op.get('as', 0)
                x = np.array(v['data'], self.dt).reshape(v['shape'])
                if kind == 1:
                    x = x.astype('float64')
                elif kind == 2:
                    x = x.tolist()
                elif kind == 3:
                    x = np.asfortranarray(x)
                elif kind == 4:
                    b = np.full([2 * n for n in x.shape], 99, x.dtype)
                    b[tuple(slice(None, None, -2) for _ in x.shape)] = x
                    x = b[tuple(slice(None, None, -2) for _ in x.shape)]
                elif kind == 5:
                    x = x.astype(x.dtype.newbyteorder('>'))
                keep = np.array(x, copy=True)
            else:
                x = {'str': 'abc', 'none': None, 'obj': object(), 'cplx': 1j, 'strs': np.array(['a', 'b']), 'ragged': [[1], [2, 3]],
                     'dict': {'a': 1}}[v['what']]
            self.ds[ix] = x
            if v['t'] == 'arr' and not np.array_equal(keep, np.asarray(x)):
                raise Harness('the value was changed')
            return
        if name in ('wdirect', 'rdirect'):
            for k in ('six', 'sshape', 'sdata'):
                ev[k] = op[k]
            a = np.array(op['sdata'], self.dt).reshape(op['sshape'])
            lay = op.get('lay', 0)
            if lay == 1:
                a = np.asfortranarray(a)
            elif lay == 2:
                b = np.full([2 * n for n in a.shape], 99, a.dtype)
                b[tuple(slice(None, None, -2) for _ in a.shape)] = a
                a = b[tuple(slice(None, None, -2) for _ in a.shape)]
            sel = [None if op.get(n) else tuple(slice(i['a'][0], i['b'][0]) for i in op[k]) for n, k in (('none', 'ix'), ('snone', 'six'))]
            try:
                if self.ref:
                    f = lambda s, x: tuple(slice(0, n) for n in x.shape) if s is None else s
                    v = a[f(sel[1], a)] if name == 'wdirect' else self.ds[f(sel[0], self.ds)]
                    dst, ds = (self.ds, f(sel[0], self.ds)) if name == 'wdirect' else (a, f(sel[1], a))
                    if dst[ds].shape != v.shape:
                        raise ValueError('shapes')
                    dst[ds] = v
                elif name == 'wdirect':
                    self.ds.write_direct(a, source_sel=sel[1], dest_sel=sel[0])
                else:
                    self.ds.read_direct(a, source_sel=sel[0], dest_sel=sel[1])
            finally:
                if name == 'rdirect':
                    ev['after'] = [int(x) for x in a.ravel()]
            return
        raise Harness(name)


if __name__ == '__main__':
    pybase.main(Runner)
