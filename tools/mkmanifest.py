"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/z5env/bin/python'
TECH = {
    'C01': 'TLA+ chunk-store model shown by TLC to refine a flat array; tours over every edge of its state graph and random histories of the real code validated by TLC as behaviours of Z5Dataset',
    'C02': 'TLA+ chunk-store model (sparseness invariants); stored objects decoded after every operation of graph tours and validated by TLC against Z5Dataset/Z5Layout',
    'C03': 'TLA+ trace validation (Z5Dataset, Z5Tree) of histories continued through reopening, pickling and the other language binding',
    'C04': 'TLA+ layout model checked by TLC (Z5Layout, MCLayout); files written by z5 and by other implementations decoded independently and validated against Z5Interop',
    'C05': 'TLA+ storage-protocol model with damage (MCFaults); histories of sharded datasets with injected damage validated by TLC against Z5Faults',
    'C06': 'TLA+ model of directories and documents refining a tree (MCTree); graph tours and random histories through z5py validated by TLC against Z5Tree',
    'C07': 'TLA+ container model with access modes (Z5Tree, MCTree); histories with fingerprints of the storage validated by TLC',
    'C08': 'TLA+ container model with attribute maps sharing metadata documents (MCTree: DocsSafe); histories validated by TLC against Z5Tree',
    'C09': 'TLA+ concurrency model (MCPar: Linearizable); concurrent histories recorded under delay injection, linearized by TLC against Z5Dataset (Z5Par)',
    'C10': 'TLA+ model of pool and loop algorithm (MCPool, all interleavings, contract monitor Z5Pool); command-graph tours and histories of the real pool validated by TLC',
    'C11': 'TLA+ trace validation: rejected requests are stuttering steps of Z5Dataset (error and unchanged fingerprint of the storage)',
    'C12': 'TLA+ models of interrupted and damaged storage (MCFaults, MCTreeFaults); fault injection at each storage call, histories validated by TLC against Z5Faults and Z5TreeFaults',
    'C13': 'TLA+ index semantics (Z5Index, validated against numpy); normalisation algorithm model checked, every expression of the model and random ones executed and validated by TLC',
    'C14': 'TLA+ chunk-store model; graph tours with chunk-level reads and N5 varlen histories validated by TLC against Z5Dataset',
    'C15': 'TLA+ grid model checked exhaustively (MCGrid); recorded iterations and utilities validated by TLC against Z5Dataset',
    'C16': 'TLA+ container model (MCTree); creation/require histories with generated descriptions validated by TLC against Z5Tree',
}
NOTE = {
    'C09': 'TLC exhausts the concurrency model within its constants; real schedules are sampled (delays injected around storage calls), every recorded history is decided by a linearization search',
    'C10': 'TLC exhausts all interleavings of the algorithm for up to 3 workers; the real pool is driven through every edge of the command graph and through sampled schedules',
    'C12': 'TLC exhausts interruption points in the models; on the code every storage call of the generated operations can be the one that fails; operations are sampled',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': '%s checks/run.py %s quick' % (PY, i),
                       'thorough_cmd': '%s checks/run.py %s thorough' % (PY, i),
                       'technique': TECH.get(i, TECH['C01']), 'level': 'model_checking',
                       'level_note': NOTE.get(i, 'TLC exhausts the model within its constants; the code is bound by trace validation of executions generated from the model state graph and at random; bounds in DESIGN.md')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': '%s tools/selfcheck.py' % PY, 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
