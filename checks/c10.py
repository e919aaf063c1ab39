"""C10: parallel loops run each item once, finish before returning and report errors; the pool never hangs."""
import random

import tours as T
import vlib
from arr import drive

MODELS = ['MCPoolN0', 'MCPoolN1', 'MCPoolN2', 'MCPoolWait']
NEG = [('MCPoolNegFinishOne', 'Deadlock'), ('MCPoolNegRethrow', 'Contract'), ('MCPoolNegNoJoin', 'Contract'),
       ('MCPoolNegNotifyFirst', 'Deadlock'), ('MCPoolNegUnlocked', 'Deadlock'), ('MCPoolNegWakeOne', 'Deadlock')]
ITERS = ['count', 'vector', 'cptr', 'deque', 'input', 'list', 'flist']


def shake(rng):
    return rng.choice([0, rng.randint(1, 1 << 30), rng.randint(1, 1 << 30)])


def tour_scripts(chk):
    """every edge of the graph of commands on gated tasks, with 1 to 3 workers"""
    es = T.edges('MCPoolCmd', 'MCPoolCmd', chk.stats)
    rng = random.Random('c10t-%s' % chk.seed)
    out = []
    for n in (1, 2, 3):
        init = {'n': n, 'sub': 0, 'que': 0, 'run': 0, 'w': 0, 'up': 'up'}
        for rep in range(chk.n(1, 4)):
            for w in T.tours([e for e in es if e['s']['n'] == n], maxlen=25, rng=rng, init=init):
                ops = [{'op': 'pool', 'n': n, 'opt': rng.random() < .3}]
                for o in w:
                    o = dict(o)
                    if o['op'] == 'submit':
                        o.update(gated=True, void=rng.random() < .5)
                    if o['op'] == 'close':
                        o['async'] = True
                        o['pause'] = rng.choice([0, 1, 2])
                    ops += [o, {'op': 'settle'}]
                ops += finish(rng)
                out.append({'id': 'pool-%d-%d' % (n, len(out)), 'cfg': {}, 'ops': ops, 'shake': shake(rng)})
    chk.notes['edges_toured'] = len(es)
    return out


def finish(rng):
    early = rng.random() < .5
    return [{'op': 'openall'}, {'op': 'settle'}, {'op': 'joinall'}] + ([{'op': 'get'}] if early else []) + [{'op': 'close'}, {'op': 'get'}]


def loop_op(rng, c, n_threads):
    items = rng.choice([0, 1, 2, 3, n_threads, n_threads + 1, 3 * n_threads, rng.randint(0, 12), rng.randint(0, 12), rng.randint(10, 70)])
    thr = []
    r = rng.random()
    if items and r < .45:
        thr = rng.sample(range(items), min(items, rng.choice([1, 1, 2, 3, items])))
        if rng.random() < .2:
            thr = [rng.choice([0, items - 1])]
    return {'op': 'loop', 'c': c, 'items': items, 'thr': thr, 'iter': rng.choice(ITERS + ['count', 'count']), 'hint': rng.random() < .5,
            'work': rng.choice([0, 0, 1, 5, 50, 2000, 20000])}


def bulk_scripts(chk, n):
    """loops over many more items than threads, with a pool of their own or the same pool again and again"""
    rng = random.Random('c10b-%s' % chk.seed)
    out = []
    for i in range(n):
        ops = []
        t = rng.choice([0, 1, 2, 3, 4, 8])
        own = rng.random() < .5
        if not own:
            ops.append({'op': 'pool', 'n': t, 'opt': False})
        for _ in range(rng.randint(1, 4)):
            items = rng.choice([rng.randint(70, 400), rng.randint(400, 4000), rng.choice([256, 1024, 4096, 65536, 65537, 100, 1000]),
                                int(2 ** rng.uniform(6, 17))])
            if own:
                t = rng.choice([0, 1, 2, 3, 5, 7, 8, 16, -1])
            it = rng.choice(ITERS + ['count'])
            if it == 'input':
                items = min(items, 4000)
            thr = [] if rng.random() < .6 else sorted(rng.sample(range(items), rng.choice([1, 1, 2])))
            ops.append({'op': 'bulk', 'own': own, 'n': t, 'items': items, 'thr': thr, 'iter': it, 'hint': rng.random() < .5})
        if not own:
            ops += [{'op': 'close'}, {'op': 'get'}]
        out.append({'id': 'bulk-%d' % i, 'cfg': {}, 'ops': ops, 'shake': shake(rng)})
    return out


def loop_scripts(chk, n):
    """loops with a pool of their own"""
    rng = random.Random('c10l-%s' % chk.seed)
    out = []
    for i in range(n):
        ops = []
        for c in range(1, rng.randint(2, 6)):
            t = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 17, -1, -2])
            ops.append(dict(loop_op(rng, c, max(1, t)), own=True, n=t))
        out.append({'id': 'loop-%d' % i, 'cfg': {}, 'ops': ops, 'shake': shake(rng)})
    return out


def shared_scripts(chk, n):
    """pools used for tasks, waiting and (concurrent) loops at the same time"""
    rng = random.Random('c10s-%s' % chk.seed)
    out = []
    for i in range(n):
        ops, c = [], 0
        for _ in range(rng.randint(1, 2)):
            t = rng.choice([0, 1, 2, 2, 3, 4, 6, -2])
            few = t in (0, 1)
            ops.append({'op': 'pool', 'n': t, 'opt': rng.random() < .3})
            live, waiters = [], 0
            for _ in range(rng.randint(3, 14)):
                r = rng.random()
                if r < .5:
                    ops.append({'op': 'submit', 'thr': rng.random() < .3, 'void': rng.random() < .5, 'work': rng.choice([0, 0, 1, 50, 5000, 50000])})
                elif r < .6:
                    ops.append({'op': 'wait', 'sync': rng.random() < .5})
                elif r < .68:
                    ops.append({'op': 'get'})
                elif r < .72 and live:
                    ops.append({'op': 'joinloop', 'c': live.pop(rng.randrange(len(live)))})
                elif r < .9:
                    c += 1
                    if few:
                        ops.append(dict(loop_op(rng, c, 1), own=False))
                    elif rng.random() < .6:
                        ops.append(dict(loop_op(rng, c, max(1, t)), own=False, op='loopa'))
                        live.append(c)
                    else:
                        ops.append(dict(loop_op(rng, c, max(1, t)), own=False))
                else:
                    c += 1
                    ops.append(dict(loop_op(rng, c, 2), own=True, n=rng.choice([0, 1, 2, 3]), op='loopa'))
                    live.append(c)
            ops += [{'op': 'joinall'}]
            if rng.random() < .6:
                ops.append({'op': 'get'})
            if rng.random() < .3:       # close while tasks are under way
                ops += [{'op': 'submit', 'thr': rng.random() < .3, 'work': rng.choice([0, 5, 5000, 100000])} for _ in range(rng.randint(1, 6))]
            ops += [{'op': 'close'}, {'op': 'get'}]
        out.append({'id': 'shared-%d' % i, 'cfg': {}, 'ops': ops, 'shake': shake(rng)})
    return out


def build(chk):
    """the forward iterator kinds are part of the documented interface"""
    try:
        return vlib.build_cxx('poolf', ['pool.cxx'], san='address', extra=['-DPOOL_FORWARD']), True
    except vlib.HarnessError as e:
        vlib.log('forward iterators are not accepted:', str(e)[-800:])
        return vlib.build_cxx('pool', ['pool.cxx'], san='address'), False


def run(chk):
    for m in MODELS:
        vlib.model_check(chk.stats, 'MCPoolCfg', m)
    for m, v in NEG:
        vlib.model_check(chk.stats, 'MCPoolCfg', m, expect_violation=v)
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCPoolCfg', 'MCPoolN3', timeout=1500)
        vlib.model_check(chk.stats, 'MCPoolCfg', 'MCPoolN3Wait', timeout=3000)
    exe, fwd = build(chk)
    sc = tour_scripts(chk) + loop_scripts(chk, chk.n(1500, 20000)) + shared_scripts(chk, chk.n(1500, 20000)) \
        + bulk_scripts(chk, chk.n(150, 3000))

    def go(scripts):
        part = scripts if fwd else [dict(s, ops=[dict(o, iter='vector') if o.get('iter') in ('list', 'flist') else o for o in s['ops']]) for s in scripts]
        res = vlib.run_zdrv(exe, part, timeout_per=45, envv={'ASAN_OPTIONS': 'detect_stack_use_after_return=1:exitcode=99:detect_leaks=0'})
        if not fwd:
            res = [[{'op': 'uncompilable', 'what': 'forward iterators'}] if any(o.get('iter') in ('list', 'flist') for o in s['ops']) else r
                   for s, r in zip(scripts, res)]
        return [{'id': s['id'], 'cfg': {}, 'ev': r} for s, r in zip(scripts, res)]
    drive(chk, go, sc, exact=True, module='TracePool')
