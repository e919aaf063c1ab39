"""numpy counterpart of enc.hxx (see there)."""
import numpy as np

K = [0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0xD6E8FEB86659FD93,
     0xA0761D6478BD642F, 0xE7037ED1A0B428DB, 0x8EBC6AF09C88C6E3, 0x589965CC75374CC3]
U64 = np.uint64
M64 = (1 << 64) - 1


def hash_grid(offset, shape):
    """hash of every coordinate of the box offset/shape"""
    h = np.full(tuple(shape), 0x27D4EB2F165667C5, dtype=U64)
    nd = len(shape)
    with np.errstate(over='ignore'):
        for d in range(nd):
            c = (np.arange(int(shape[d]), dtype=U64) + U64((int(offset[d]) + 1) & M64)) * U64(K[d])
            h = h + c.reshape([-1 if i == d else 1 for i in range(nd)])
        h = h ^ (h >> U64(29))
        h = h * U64(0xBF58476D1CE4E5B9)
        h = h ^ (h >> U64(32))
    return h


class Codec:
    def __init__(self, dtype, fill):
        self.dt = np.dtype(dtype)
        k = self.dt.kind
        t = self.dt.type
        if k == 'c':
            u = np.float32 if self.dt.itemsize == 8 else np.float64
            self.fill = t(u(fill))
            self.const = [t(complex(np.finfo(u).max, -1)), t(complex(0, -np.inf)), t(complex(np.nan, 2))]
        elif k == 'f':
            self.fill = t(fill)
            fi = np.finfo(t)
            # the neighbour of the fill value for some fill values
            near = np.isfinite(fill) and fill not in (0, -42)
            cand = [np.nextafter(self.fill, t(np.inf)) if near else fi.max, t(-np.inf), t(np.nan), fi.smallest_subnormal, t(2), t(-4)]
            self.const = [t(c) for c in cand if not self._same(t(c), self.fill)][:3]
        else:
            ii = np.iinfo(t)
            f = min(int(fill), ii.max)
            self.fill = t(f)
            cand = [ii.max, ii.min, f - 1 if f == ii.max else f + 1, ii.max - 1, 1, 2, 0]
            self.const = [t(c) for c in dict.fromkeys(int(c) for c in cand) if c != f][:3]
            w = self.dt.itemsize * 8
            self.mask = (1 << w) - 1
            self.ex = sorted(int(c) & self.mask for c in [self.fill] + self.const)

    @staticmethod
    def _same(a, b):
        return (np.isnan(a) and np.isnan(b)) or a == b

    @staticmethod
    def _eq(a, b):
        if a.dtype.kind == 'c':
            f = lambda x, y: (x == y) | (np.isnan(x) & np.isnan(y))
            return f(a.real, np.asarray(b).real) & f(a.imag, np.asarray(b).imag)
        if a.dtype.kind == 'f':
            return (a == b) | (np.isnan(a) & np.isnan(b))
        return a == b

    def _fl(self, u, h, v):
        n = ((h >> U64(3)) & U64(0x3FFFF)) * U64(16) + U64(v)
        x = (2 * n + U64(1)).astype(u) / u(128)
        return np.where(((h >> U64(40)) & U64(1)) == 1, -x, x).astype(u)

    def _pos(self, v, h):
        k = self.dt.kind
        if k == 'c':
            u = np.float32 if self.dt.itemsize == 8 else np.float64
            with np.errstate(over='ignore'):
                h2 = h * U64(0x2545F4914F6CDD1D)
            out = np.empty(h.shape, self.dt)
            out.real = self._fl(u, h, v)
            out.imag = self._fl(u, h2, v)
            return out
        if k == 'f':
            return self._fl(self.dt.type, h, v)
        dom = U64(self.mask - 3)
        r0 = h % dom
        add = U64(v * 29)
        with np.errstate(over='ignore'):
            r = np.where(r0 >= dom - add, r0 - (dom - add), r0 + add)
        for e in self.ex:
            r = np.where(r >= U64(e), r + U64(1), r)
        return r.astype('u%d' % self.dt.itemsize).view(self.dt) if k == 'i' else r.astype(self.dt)

    def encode(self, vals, offset, shape):
        """abstract values (flat list, row-major) of the box -> array"""
        v = np.asarray(vals, dtype=np.int64).reshape(tuple(shape))
        h = hash_grid(offset, shape)
        out = np.full(v.shape, self.fill, dtype=self.dt)
        for a in range(1, 5):
            m = v == a
            if m.any():
                out[m] = self._pos(a, h)[m]
        for a in range(5, 8):
            out[v == a] = self.const[a - 5]
        return out

    def decode(self, arr, offset):
        arr = np.asarray(arr)
        if arr.dtype.newbyteorder('=') != self.dt:
            raise ValueError("dtype %s, expected %s" % (arr.dtype, self.dt))
        arr = arr.astype(self.dt)
        h = hash_grid(offset, arr.shape)
        out = np.full(arr.shape, -1, dtype=np.int64)
        for a in range(4, 0, -1):
            out[self._eq(arr, self._pos(a, h))] = a
        for a in range(7, 4, -1):
            out[self._eq(arr, self.const[a - 5])] = a
        out[self._eq(arr, self.fill)] = 0
        return out

    def scalar(self, v):
        return self.fill if v == 0 else self.const[v - 5]
