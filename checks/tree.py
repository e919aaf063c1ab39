"""Shared machinery of the container properties: scripts -> real executions -> TraceTree."""
import random

import arr
import gen_tree as GT
import tours as T
import vlib
from arr import drive

SPEC = 'TraceTree'
FMTS = ['n5', 'zarr2', 'zarr3']


def models(chk):
    vlib.model_check(chk.stats, 'MCTreeCfg', 'MCTreeThorough' if chk.thorough() else 'MCTreeQuick', timeout=3000)
    for cfg in ('MCTreeNegDirs', 'MCTreeNegParents', 'MCTreeNegProtect'):
        vlib.model_check(chk.stats, 'MCTreeCfg', cfg, expect_violation='Refines')


def py_runner(chk, faults=False):
    e = {'LD_PRELOAD': vlib.build_cxx('faultlib', ['faultlib.cxx'], shared=True, libs=False)} if faults else {}

    def go(scripts):
        res = vlib.run_py('pytree', scripts, extra_env=e)
        return [{'id': s['id'], 'cfg': GT.for_tla(s['cfg']), 'ev': r} for s, r in zip(scripts, res)]
    return go


def tour_scripts(chk, share=1.0, maxlen=40, fmts=FMTS):
    """walks that take every edge of the state graph (or a share of the walks), with questions in between"""
    es = T.edges('MCTreeCfg', 'MCTreeEdges', chk.stats)
    rng = random.Random('tree-%s' % chk.seed)
    scripts = []
    init = {'ex': False, 'n': []}
    for fmt in fmts:
        ws = T.tours(es, maxlen=maxlen, rng=rng, init=init)
        if share < 1:
            ws = rng.sample(ws, max(1, int(share * len(ws))))
        for w in ws:
            cfg = GT.config(rng, fmt, 2)
            tr = GT.Tracker()
            ops = []
            for o in w:
                o = dict(o)
                if o['op'] == 'aset':
                    o['items'] = [[x[0], rng.randrange(len(GT.JVALS))] for x in o['items']]
                ops += GT.finish(rng, cfg, tr, [o])
                ops += GT.finish(rng, cfg, tr, GT.queries(rng, tr, ['a', 'b', 'c', '0'], 1))
            ops += GT.finish(rng, cfg, tr, GT.audit(tr))
            scripts.append({'id': 'tree-%s-%d' % (fmt, len(scripts)), 'cfg': cfg, 'ops': ops, 'hash': True})
    chk.notes['edges_toured'] = len(es)
    vlib.log('%d edges in %d walks' % (len(es), len(scripts)))
    return scripts


W_TREE = {'mkgroup': 4, 'reqgroup': 3, 'mkds': 4, 'reqds': 2, 'del': 4, 'q': 6, 'audit': 1, 'aset': 1, 'dset': 2, 'fopen': 1, 'move': 1}
W_MODE = {'mkgroup': 3, 'reqgroup': 2, 'mkds': 3, 'reqds': 2, 'del': 2, 'q': 2, 'aset': 3, 'adel': 2, 'dset': 5, 'fopen': 6, 'pickle': 2}
W_ATTR = {'mkgroup': 2, 'mkds': 2, 'aset': 12, 'adel': 6, 'q': 8, 'dset': 3, 'fopen': 1, 'audit': 1, 'del': 1}
W_CREATE = {'mkgroup': 1, 'reqgroup': 4, 'mkds': 8, 'reqds': 10, 'del': 2, 'q': 3, 'dset': 2, 'audit': 1}
W_OPEN = {'clone': 4, 'mkgroup': 1, 'mkds': 5, 'reqds': 2, 'dset': 6, 'aset': 3, 'pickle': 10, 'fopen': 8, 'q': 4, 'move': 2}


def random_scripts(chk, n, weights, nops=30, read_only=0.0, nmetas=3):
    rng = chk.rng
    out = []
    for i in range(n):
        cfg = GT.config(rng, None, nmetas)
        tr = GT.Tracker()
        names = rng.sample(GT.NAMES, 4) + ['a', '0']
        ops = GT.random_ops(rng, cfg, tr, nops, names, weights)
        if rng.random() < read_only:      # everything once more through read-only handles
            ops += GT.finish(rng, cfg, tr, ro_ops(rng, cfg, tr, names))
            ops += GT.finish(rng, cfg, tr, GT.audit(tr))
        out.append({'id': 'rnd-%d' % i, 'cfg': cfg, 'ops': ops, 'hash': True})
    return out


W_BUILD = {'mkgroup': 4, 'mkds': 5, 'aset': 4, 'dset': 3, 'del': 1}


def fault_scripts(chk, n, hows=('fail', 'full', 'kill', 'short')):
    """operations on a container during which a storage call fails or the process ends"""
    rng = random.Random('tflt-%s' % chk.seed)
    out = []
    for i in range(n):
        cfg = GT.config(rng, FMTS[i % 3], 3)
        tr = GT.Tracker()
        names = rng.sample(GT.NAMES, 4)
        ops = [o for o in GT.random_ops(rng, cfg, tr, 14, names, W_BUILD)]
        for _ in range(6):
            o = rng.choice(['mkgroup', 'reqgroup', 'mkds', 'mkds', 'reqds', 'aset', 'aset', 'adel', 'dset', 'del'])
            new = GT.changes(rng, cfg, tr, names, o)
            if new is None:
                continue
            how = rng.choice(hows)
            ks = range(1, rng.choice([3, 5, 8])) if rng.random() < .7 else [rng.choice([1, 2, 3, 5, 8, 12])]
            for k in ks:
                ops.append({'op': 'fault', 'k': k, 'how': how, 'in': new})
                ops += GT.finish(rng, cfg, tr, GT.audit(tr))
                ops += GT.around(new)
            tr.apply(new)
            # done again, this time undisturbed
            ops.append(new)
            ops += GT.finish(rng, cfg, tr, GT.audit(tr))
        if rng.random() < .5:
            ops += GT.finish(rng, cfg, tr, [{'op': 'fopen', 'mode': 'r+'}] + GT.audit(tr, 'r+'))
        out.append({'id': 'tflt-%d' % i, 'cfg': cfg, 'ops': ops, 'hash': True})
    return out


def ro_ops(rng, cfg, tr, names):
    out = []
    for p in sorted(tr.n):
        p = list(p)
        new = p + [rng.choice(names)]
        out += [{'op': 'aset', 'mode': 'r', 'path': p, 'items': [['k', 1]], 'bad': False},
                {'op': 'adel', 'mode': 'r', 'path': p, 'key': 'k'},
                {'op': 'mkgroup', 'mode': 'r', 'path': new}, {'op': 'reqgroup', 'mode': 'r', 'path': new},
                {'op': 'mkds', 'mode': 'r', 'path': new, 'm': 1, 'v': 0, 'bad': False},
                {'op': 'reqds', 'mode': 'r', 'path': new, 'm': 1, 'v': 0, 'bad': False}]
        if p:
            out += [{'op': 'del', 'mode': 'r', 'path': p}, {'op': 'reqgroup', 'mode': 'r', 'path': p}]
        if tr.n[tuple(p)][0] == 'd':
            out += [{'op': 'dset', 'mode': 'r', 'path': p, 'v': v} for v in (0, 1, 0, 2)]
            out += [{'op': 'reqds', 'mode': 'r', 'path': p, 'm': tr.n[tuple(p)][1], 'v': 0, 'bad': False}]
    rng.shuffle(out)
    return out


# ------------------------------------------------------------- C++ interface
C_TREE = {'mkgroup': 5, 'mkds': 5, 'del': 4, 'q': 8, 'audit': 1, 'aset': 1, 'dset': 2, 'mkfile': 1}
C_MODE = {'mkgroup': 3, 'mkds': 4, 'del': 3, 'q': 2, 'aset': 3, 'adel': 3, 'dset': 5, 'mkfile': 2, 'rmfile': 1}
C_ATTR = {'mkgroup': 2, 'mkds': 2, 'aset': 12, 'adel': 6, 'q': 8, 'dset': 3, 'audit': 1, 'del': 1}
C_CREATE = {'mkgroup': 2, 'mkds': 14, 'del': 2, 'q': 4, 'dset': 2, 'audit': 1}


def cpp_runner(chk):
    exe = vlib.build_cxx('ztree', ['ztree.cxx'], san='address')

    def go(scripts):
        res = vlib.run_zdrv(exe, scripts)
        return [{'id': s['id'], 'cfg': GT.for_tla(s['cfg']), 'ev': r} for s, r in zip(scripts, res)]
    return go


def to_s3(scripts):
    """zarr containers in a bucket, through S3File"""
    out = []
    for i, s in enumerate(scripts):
        if s['cfg']['fmt'] == 'n5':       # "only the zarr format is supported over S3"
            continue
        ops = [o for o in s['ops'] if not (o['op'] == 'move' or o['op'] == 'fopen' and o.get('bad'))]
        out.append(dict(s, id='s3-' + s['id'], ops=ops, cfg=dict(s['cfg'], backend='s3', prefix=['', 'p', 'a/b'][i % 3])))
    return out


def s3_build():
    """the same on the S3 back end, on the stand-in for the SDK (None where it cannot be built)"""
    try:
        return vlib.build_cxx('ztrees3', ['ztree.cxx'], san='address', extra=vlib.S3FLAGS)
    except vlib.HarnessError as e:
        vlib.log('no S3 back end: %s' % str(e)[-300:])


def s3_build_py():
    try:
        return vlib.build_py(s3=True)
    except vlib.HarnessError as e:
        vlib.log('no S3 back end: %s' % str(e)[-300:])


def drive_s3_py(chk, mod, scripts):
    if mod is None:
        chk.notes['s3_python'] = 'could not be built on the stand-in SDK: not checked'
        return
    go = lambda x: [{'id': s['id'], 'cfg': GT.for_tla(s['cfg']), 'ev': r} for s, r in zip(x, vlib.run_py('pytree', x, moddir=mod))]
    arr.drive(chk, go, to_s3(scripts), module=SPEC)


def drive_s3(chk, exe, n, weights, **kw):
    if exe is None:
        chk.notes['s3'] = 'could not be built on the stand-in SDK: not checked'
        return
    sc = []
    for i, s in enumerate(cpp_scripts(chk, n, weights, fmts=('zarr2', 'zarr3'), **kw)):
        cfg = dict(s['cfg'], backend='s3', prefix=['', 'p', 'a/b'][i % 3])
        sc.append(dict(s, id='s3-' + s['id'], cfg=cfg))
    go = lambda x: [{'id': s['id'], 'cfg': GT.for_tla(s['cfg']), 'ev': r} for s, r in zip(x, vlib.run_zdrv(exe, x))]
    arr.drive(chk, go, sc, module=SPEC)


def cpp_scripts(chk, n, weights, nops=30, nmetas=4, fmts=FMTS):
    rng = random.Random('ctree-%s-%d' % (chk.seed, chk.rng.randrange(1 << 30)))
    out = []
    for i in range(n):
        cfg = GT.cpp_config(rng, fmts[i % len(fmts)], nmetas)
        names = rng.sample(GT.NAMES, 4) + ['a', '0']
        out.append({'id': 'cpp-%d' % i, 'cfg': cfg, 'ops': GT.cpp_ops(rng, cfg, GT.Tracker(), nops, names, weights), 'hash': True})
    return out
