"""C13: array-style indexing selects and assigns exactly what numpy would."""
import json
import random

import tours as T
import vlib
from arr import drive

NUM = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64']
BADIX = ['none', 'list', 'array', 'mask', 'float', 'str', 'step2', 'stepm', 'npmask', 'fbound', 'step0', 'fl']
BADVAL = ['str', 'none', 'obj', 'cplx', 'strs', 'ragged', 'dict']
REFBAD = ['float', 'str', 'fbound']        # what numpy refuses as well


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def rand_value(rng, shape, ix, rank):
    """values that fit, nearly fit, or do not fit"""
    if rng.random() < .35:
        return {'t': 'sc', 'v': rng.randint(0, 100)}, rng.randrange(5)
    ext, kept = extents(shape, ix)
    r = rng.random()
    if r < .3:
        v = list(kept) or [1]
    elif r < .45:
        v = list(ext)
    elif r < .6:
        v = list(ext)
        while len(v) > 1 and v[0] == 1 and rng.random() < .7:
            v.pop(0)
        while len(v) > 1 and v[-1] == 1 and rng.random() < .7:
            v.pop()
        v = [1] * rng.choice([0, 0, 1, 2]) + v + [1] * rng.choice([0, 0, 1])
    elif r < .75:                                  # the same number of elements, another shape
        v = list(ext)
        rng.shuffle(v)
        if rng.random() < .4:
            v = [prod(ext)]
        elif rng.random() < .5 and len(v) > 1:
            v = [v[0] * v[1]] + v[2:]
    else:
        v = [rng.randint(1, 3) for _ in range(rng.randint(0, rank + 1))]
    v = [x for x in v]
    if prod(v) > 300 or 0 in v:
        v = [1]
    return {'t': 'arr', 'shape': v, 'data': [rng.randint(0, 100) for _ in range(prod(v))]}, (rng.choice([0, 1, 2, 3, 4, 5]) if v else 0)


def extents(shape, ix):
    """only to choose values that are likely to fit"""
    n = sum(1 for i in ix if i['t'] != 'e')
    full = []
    seen = False
    for it in ix:
        if it['t'] == 'e' and not seen:
            seen = True
            full += [{'t': 's', 'a': [], 'b': []}] * max(0, len(shape) - n)
        elif it['t'] != 'e':
            full.append(it)
    full += [{'t': 's', 'a': [], 'b': []}] * (len(shape) - len(full))
    ext, kept = [], []
    for it, s in zip(full, shape):
        if it['t'] == 'i':
            ext.append(1)
        elif it['t'] == 's':
            k = len(range(*slice(it['a'][0] if it['a'] else None, it['b'][0] if it['b'] else None).indices(s)))
            ext.append(k)
            kept.append(k)
        else:
            ext.append(1)
    return ext, kept


def rand_ix(rng, shape):
    out = []
    n = rng.choice([len(shape)] * 4 + [rng.randint(0, len(shape)), len(shape) + 1])
    for d in range(n):
        s = shape[min(d, len(shape) - 1)]
        r = rng.random()
        b = lambda: [] if rng.random() < .3 else [rng.choice([rng.randint(-s - 2, s + 2), rng.randint(0, s), 1 << 29, -(1 << 29)]
                                                             if rng.random() < .15 else [rng.randint(0, s), rng.randint(-s, s)])]
        if r < .3:
            out.append({'t': 'i', 'v': rng.randint(-s, s - 1) if rng.random() < .9 else rng.choice([s, -s - 1, s + 5])})
        else:
            out.append({'t': 's', 'a': b(), 'b': b()})
    if rng.random() < .3:
        out.insert(rng.randint(0, len(out)), {'t': 'e'})
    if rng.random() < .04:
        out.insert(rng.randint(0, len(out)), {'t': 'e'})
    if rng.random() < .06 and out:
        out[rng.randrange(len(out))] = {'t': 'x', 'what': rng.choice(BADIX)}
    return out


def dataset(rng, shape):
    fmt = rng.choice(['n5', 'zarr2', 'zarr3'])
    chunks = [rng.randint(1, s) for s in shape]
    c = {'fmt': fmt, 'shape': list(shape), 'chunks': chunks, 'dtype': rng.choice(NUM), 'thr': rng.choice([1, 1, 2])}
    if fmt == 'zarr3' and rng.random() < .5:
        c['shards'] = [k * rng.randint(1, 2) for k in chunks]
    return c


def ask(rng, shape, ix, ops):
    wrap = rng.choice([0, 0, 0, 1, 2, 3, 4, 5])
    bare = rng.random() < .7
    step = rng.choice([None, None, None, 1])
    extra = dict(ix=ix, wrap=wrap, bare=bare, step=step)
    ops.append(dict(op='get', **extra))
    if any(i['t'] == 'x' for i in ix):
        ops.append(dict(op='set', val={'t': 'sc', 'v': 7}, **extra))
        return
    v, kind = rand_value(rng, shape, ix, len(shape))
    if rng.random() < .05:
        v, kind = {'t': 'bad', 'what': rng.choice(BADVAL)}, 0
    ops.append({'op': 'set', 'val': v, 'as': kind, **extra})


def box(rng, shape, ext=None):
    out = []
    for d, s in enumerate(shape):
        k = min(s, ext[d]) if ext else rng.randint(1, s)
        a = rng.randint(0, s - k)
        out.append({'t': 's', 'a': [a], 'b': [a + k]})
    return out


def whole(shape):
    return [{'t': 's', 'a': [0], 'b': [s]} for s in shape]


def direct(rng, shape):
    """write_direct / read_direct: selections of the dataset and of an array"""
    o = {'op': rng.choice(['wdirect', 'rdirect']), 'lay': rng.choice([0, 0, 1, 2])}
    o['none'] = rng.random() < .25
    o['ix'] = whole(shape) if o['none'] else box(rng, shape)
    ext = [i['b'][0] - i['a'][0] for i in o['ix']]
    o['snone'] = rng.random() < .4
    if o['snone']:
        o['sshape'] = list(ext)
        if rng.random() < .35:                # another size
            o['sshape'] = [max(1, e + rng.choice([-1, 0, 0, 1])) for e in ext]
        o['six'] = whole(o['sshape'])
    else:
        o['sshape'] = [e + rng.choice([0, 0, 1, 2]) for e in ext]
        o['six'] = box(rng, o['sshape'], ext if rng.random() < .7 else None)
    o['sdata'] = [rng.randint(0, 100) for _ in range(prod(o['sshape']))]
    return o


def scripts(chk, exprs, n_random):
    rng = random.Random('c13-%s' % chk.seed)
    by = {}
    for e in exprs:
        by.setdefault(json.dumps(e['shape']), []).append(e['ix'])
    out = []
    for k, ixs in sorted(by.items()):
        shape = json.loads(k)
        rng.shuffle(ixs)
        for lo in range(0, len(ixs), 30):
            out.append(script(rng, 'enum-%d' % len(out), shape, ixs[lo:lo + 30]))
    for i in range(n_random):
        rank = rng.choice([1, 2, 2, 3, 3, 4])
        hi = {1: 9, 2: 6, 3: 4, 4: 3}[rank]
        shape = [rng.randint(1, hi) for _ in range(rank)]
        out.append(script(rng, 'rnd-%d' % i, shape, [rand_ix(rng, shape) for _ in range(30)]))
    return out


def script(rng, name, shape, ixs):
    ops = [{'op': 'init'}, {'op': 'set', 'ix': [{'t': 'e'}], 'val': {'t': 'arr', 'shape': shape, 'data': [1 + i % 100 for i in range(prod(shape))]}, 'bare': True}]
    for i, ix in enumerate(ixs):
        ask(rng, shape, ix, ops)
        if rng.random() < .3:
            ops.append(direct(rng, shape))
        if i % 6 == 5:
            ops.append({'op': 'all'})
    ops.append({'op': 'all'})
    return {'id': name, 'cfg': dataset(rng, shape), 'ops': ops, 'hash': True}


def go(scripts):
    res = vlib.run_py('pyidx', scripts)
    return [{'id': s['id'], 'cfg': {'shape': s['cfg']['shape']}, 'ev': r} for s, r in zip(scripts, res)]


def reference(scripts):
    """the same expressions on numpy arrays, where the statement lets numpy decide"""
    out = []
    for s in scripts:
        ops = [o for o in s['ops'] if not any(i['t'] == 'x' and i['what'] not in REFBAD for i in o.get('ix', []))
               and not any(i['t'] == 's' and i['a'] and i['a'][0] < -n for i in o.get('ix', []) for n in s['cfg']['shape'])]
        ops = [o for o in ops if o['op'] != 'set' or o['val']['t'] != 'bad']
        out.append(dict(s, id='np-' + s['id'], cfg=dict(s['cfg'], ref=True), ops=ops))
    return out


def numpy_traces(scripts):
    """numpy refuses values with surplus trailing axes and leaves the array alone: such events carry no information"""
    tr = go(scripts)
    for t in tr:
        t['ev'] = [e for e in t['ev'] if not (e['op'] == 'set' and e['res'] == 'err' and e['val']['t'] == 'arr')]
    return tr


def run(chk):
    exprs = T.edges('MCIndex', 'MCIndexEdges1', chk.stats) + T.edges('MCIndex', 'MCIndexEdgesN', chk.stats)
    for cfg, inv in (('MCIndexNegStrict', 'AlgorithmAgrees'), ('MCIndexNegSingle', 'RectifyAgrees'), ('MCIndexNegScan', 'RectifyAgrees')):
        vlib.model_check(chk.stats, 'MCIndex', cfg, expect_violation=inv)
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCIndex', 'MCIndexQuick', timeout=1500)
        vlib.model_check(chk.stats, 'MCIndex', 'MCIndexFull', timeout=1500)
    chk.notes['expressions_enumerated'] = len(exprs)
    sc = scripts(chk, exprs, chk.n(250, 6000))
    # the specification against numpy itself
    rej = vlib.validate(chk.stats, 'TraceIndex', numpy_traces(reference(sc)))
    if rej:
        raise vlib.HarnessError('Z5Index disagrees with numpy in %d traces, first %s' % (len(rej), rej[:3]))
    drive(chk, go, sc, module='TraceIndex')
