"""Scripts about sharing datasets with other implementations of the formats (C04)."""
import arr
import extlib
import foreign
import gen_array as G
import vlib

EXT = {'extra_env': {'Z5_EXTLIBS': '1'}}


def base_config(rng, i, nocopts=True):
    cfg = arr.strong_config(rng, i)
    cfg['nocopts'] = nocopts
    while cfg['fmt'] != 'n5' and cfg['codec'] == 'lz4':          # numcodecs frames lz4 blocks, see DESIGN.md
        cfg['codec'], cfg['opts'] = G.codec_for(rng, cfg['fmt'])
    if cfg['fmt'] == 'zarr2' and rng.random() < .5:
        cfg['sep'] = '.'
    cfg['key'] = rng.choice(['data', 'data', 'a/data', 'a/b/x'])
    return cfg


def looks(cfg, rng, fx, ents):
    """everything the library can be asked about the dataset"""
    ops = [{'op': 'meta'}]
    var = [foreign.unlin(k, foreign.grid(cfg)) for k, e in enumerate(ents) if e['kind'] == 'var']
    if not var:
        ops.append(dict(G.full_read(cfg), thr=G.thr(rng)))
    for _ in range(3):
        off, shp = G.rand_region(rng, cfg)
        ops.append({'op': 'read', 'off': off, 'shp': shp, 'thr': G.thr(rng)})
    for o in G.all_exists(cfg, 12):
        ops.append(o)
        if not fx.get('padded'):             # blocks beyond the array come as they are stored
            ops += [{'op': k, 'p': o['p']} for k in rng.sample(['rchunk', 'rraw', 'cinfo'], 2)]
    return ops


def foreign_scripts(chk, n, py=False, offset=0):
    """formats' freedoms, one script per dataset of another writer: understood, and written on"""
    rng = chk.rng
    out = []
    tables = [('must', foreign.MUST)] * 3 + [('may', foreign.MAY)] * 2
    names = {k: list(t) for k, t in (('must', foreign.MUST), ('may', foreign.MAY))}
    count = {'must': 0, 'may': 0}
    i = 0
    while len(out) < n:
        i += 1
        cfg = base_config(rng, i)
        kind, table = rng.choice(tables)
        # every variant in its turn, with others that apply
        first = names[kind][(count[kind] + offset) % len(names[kind])]
        fits = lambda v: cfg['fmt'] in table[v][0] and table[v][1](cfg)          # noqa: E731
        for _ in range(400):
            if fits(first):
                break
            cfg = base_config(rng, rng.randrange(3))
        else:
            raise RuntimeError('no configuration for ' + first)
        if first == 'fill-big' and not py:
            count[kind] += 1
            continue
        if py and (cfg['dtype'].startswith('complex') or cfg['fmt'] != 'n5' and cfg['codec'] == 'lz4'):
            continue
        count[kind] += 1
        use = [first]
        if kind == 'must':
            use += [v for v in names[kind] if v != first and fits(v) and rng.random() < .2]
            if 'n5-old' in use:
                use = [v for v in use if v not in ('n5-defaults', 'n5-level-1', 'n5-noZlib')]
        ext = kind
        files, ents, fx, c2 = foreign.build(rng, cfg, use, table)
        if fx.get('fillbig') is not None:
            cfg['fillreal'] = c2['fillreal']
        if fx.get('unreadable'):
            ext = 'never'
        ops = [{'op': 'foreign', 'files': files, 'st': ents, 'ext': ext, 'variant': '+'.join(use)}, {'op': 'open', 'mode': 'r'}]
        ops += looks(cfg, rng, fx, ents)
        if ext == 'must' and not fx.get('readonly'):
            ops.append({'op': 'open', 'mode': rng.choice(['r+', 'a'])})
            if not fx.get('varlen'):
                ops += [o for o in G.array_ops(rng, cfg, 8, reopen=False, chunk_level=not fx.get('padded')) if o['op'] != 'rraw' or not py]
                ops += [G.full_read(cfg)]
                ops += [{'op': 'open', 'mode': 'r'}, G.full_read(cfg)]
                ops += [{'op': 'extread', 'lib': x} for x in ext_readers(cfg, fx)] if py else []
            else:
                for _ in range(3):
                    p = G.rand_pos(rng, cfg)
                    ops += [{'op': 'wchunk', 'p': p, 'data': G.rand_chunk_data(rng, G.prod(G.clip(cfg, p)))}, {'op': 'rchunk', 'p': p}]
        if py:
            ops = [o for o in ops if o['op'] != 'rraw']
        out.append({'id': 'foreign-%s-%d' % (use[0], i), 'cfg': cfg, 'ops': ops, 'hash': not fx.get('reorg')})
    return out


def ext_readers(cfg, fx):
    return [] if fx.get('padded') else [x for x in extlib.libs(cfg) if x == 'zarr' or not (fx.get('checksum') or fx.get('old'))]


def libwrite_scripts(chk, n):
    """datasets written by zarr-python and tensorstore"""
    rng = chk.rng
    out = []
    i = 0
    while len(out) < n:
        i += 1
        cfg = base_config(rng, i)
        if not extlib.libs(cfg, True) or cfg['dtype'].startswith('complex'):
            continue
        lib = rng.choice(extlib.libs(cfg, True))
        cfg['writeempty'] = rng.random() < .5
        cfg['key'] = 'data'
        if lib == 'zarr' and cfg['shards']:
            cfg['writeempty'] = True
        if i % 16 == 0 and G.prod(cfg['shape']) <= 24:
            cfg['scale'] = G.huge_scale(rng, cfg)
        data = [rng.randint(0, 7) for _ in range(G.prod(cfg['shape']))] if rng.random() < .6 else [rng.choice([0, 0, 0, 5]) for _ in range(G.prod(cfg['shape']))]
        st = []
        for k in range(G.prod(foreign.grid(cfg))):
            p = foreign.unlin(k, foreign.grid(cfg))
            x = []
            cl = G.clip(cfg, p)
            for j in range(G.prod(cl)):
                c = [q * a + b for q, a, b in zip(p, cfg['chunks'], foreign.unlin(j, cl))]
                m = 0
                for y, s in zip(c, cfg['shape']):
                    m = m * s + y
                x.append(data[m])
            st.append({'kind': 'reg', 'x': x})
        ops = [{'op': 'foreign', 'lib': lib, 'data': data, 'st': st, 'ext': 'must', 'variant': lib}, {'op': 'open', 'mode': 'r'}, {'op': 'meta'}]
        for _ in range(3):
            off, shp = G.rand_region(rng, cfg)
            ops.append({'op': 'read', 'off': off, 'shp': shp, 'thr': G.thr(rng)})
        ops.append(G.full_read(cfg))
        legs = [{'layer': 'py', 'ops': ops[:2]}]
        first = {'layer': rng.choice(['cxx', 'py']), 'ops': [{'op': 'open', 'mode': 'r'}] + ops[2:]}
        legs.append(first)
        body = [{'op': 'open', 'mode': 'a'}]
        for o in G.array_ops(rng, cfg, 6, reopen=False, chunk_level=False):
            body.append(o)
        legs.append({'layer': rng.choice(['cxx', 'py']), 'ops': body + [G.full_read(cfg)]})
        legs.append({'layer': 'py', 'ops': [{'op': 'open', 'mode': 'r'}, G.full_read(cfg)] + [{'op': 'extread', 'lib': x} for x in extlib.libs(cfg)]})
        out.append({'id': 'lib-%s-%d' % (lib, i), 'cfg': cfg, 'legs': legs, 'ops': sum((x['ops'] for x in legs), [])})
    return out


def extread_scripts(chk, n):
    """datasets z5 has written, with any history, read by the others"""
    rng = chk.rng
    out = []
    i = 0
    while len(out) < n:
        i += 1
        cfg = base_config(rng, i, nocopts=False)
        if not extlib.libs(cfg):
            continue
        layer = rng.choice(['cxx', 'cxx', 'py'])
        if cfg['dtype'].startswith('complex'):
            layer = 'cxx'
        if cfg['fmt'] == 'n5' or layer == 'py':
            cfg['chunks'] = [min(a, b) for a, b in zip(cfg['chunks'], cfg['shape'])]
            if cfg['shards']:
                cfg['shards'] = [c * rng.randint(1, 3) for c in cfg['chunks']]
        cfg['key'] = 'data'
        ops = [{'op': 'create'}, {'op': 'meta'}]
        ops += [o for o in G.array_ops(rng, cfg, 7, reopen=False) if layer == 'cxx' or o['op'] != 'rraw']
        if layer == 'py':
            p = arr.to_py(rng, [{'id': '', 'cfg': cfg, 'ops': ops}])[0]
            cfg, ops = p['cfg'], p['ops']
        if i % 16 == 0 and G.prod(cfg['shape']) <= 24:
            cfg['scale'] = G.huge_scale(rng, cfg)         # the other libraries decode it, that is enough
        else:
            ops.append({'op': 'disk'})
        ops.append({'op': 'metadoc'})
        legs = [{'layer': layer, 'ops': ops}, {'layer': 'py', 'ops': [{'op': 'open', 'mode': 'r'}] + [{'op': 'extread', 'lib': x} for x in extlib.libs(cfg)]}]
        if cfg['dtype'].startswith('complex'):
            legs[1]['ops'] = legs[1]['ops'][1:]
        out.append({'id': 'ext-%d' % i, 'cfg': cfg, 'legs': legs, 'ops': sum((x['ops'] for x in legs), [])})
    return out


def known_lz4(chk, exe):
    """the recorded defect: zarr v2 with the codec lz4, see known_findings.jsonl"""
    cfg = G.config(chk.rng, fmt='zarr2', max_dim=2, dtypes=['int32', 'uint16'])
    cfg.update(codec='lz4', opts={}, key='data', file='c.zarr')
    ops = [{'op': 'create'}, {'op': 'write', 'off': [0] * len(cfg['shape']), 'shp': cfg['shape'], 'data': [5 + i % 3 for i in range(G.prod(cfg['shape']))]},
           {'op': 'disk'}, G.full_read(cfg)]
    legs = [{'layer': 'cxx', 'ops': ops}, {'layer': 'py', 'ops': [{'op': 'open', 'mode': 'r'}, {'op': 'extread', 'lib': 'zarr'}]}]
    sc = [{'id': 'zarr2-lz4', 'cfg': cfg, 'legs': legs, 'ops': ops + legs[1]['ops']}]
    go = arr.relay(exe, pykw=EXT)
    traces = go(sc)
    rej = vlib.validate(chk.stats, arr.SPEC, traces)
    tag = [k for k in chk.known_tags() if k['tag'] == 'zarr2-lz4-frame']
    if tag and rej == [(0, len(ops) + 1)] and traces[0]['ev'][-1]['res'] == 'err':
        chk.report_known('zarr2-lz4-frame', 'zarr-python cannot read lz4 chunks of Zarr v2 datasets (no size in front of the block)')
    elif rej:
        vlib.reproduce_and_report(chk, sc, traces, rej, go, arr.SPEC)
