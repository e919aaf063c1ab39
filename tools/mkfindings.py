"""known_findings.jsonl from the fix: commits of /repo (one-off helper; the result is committed)."""
import json
import subprocess

PROP = [
    ('zarr versions, separators', ['C16', 'C07']), ('more than one digit', ['C07']), ('offsets with the wrong number', ['C11']),
    ('s3 requests', ['C12']), ('unsupported datasets on s3', ['C16']),
    ('after an interrupted creation', ['C12', 'C06']),
    ('chunk grids, key encodings', ['C04']), ('not made of whole chunks', ['C04']), ('n5 defaults for compression', ['C04']),
    ('fill values that would be rounded', ['C04']), ('negative extents', ['C04']), ('NaN is the fill value', ['C02']),
    ('other threads remove', ['C09']), ('chunks of zero bytes', ['C12', 'C05']),
    ('small numpy integers', ['C13']), ('single element', ['C13']), ('same number of elements', ['C13']),
    ('forward iterators', ['C10']), ('wake all threads', ['C10']),
    ('useZlib option', ['C04', 'C03']),
    ('beyond the selection', ['C13']), ('not integers', ['C16']), ('index -n', ['C13']), ('non-integer numbers', ['C13']), ('only fail when the buffered', ['C12']),
    ('metadata and attribute documents as a whole', ['C08', 'C12']), ('shard and chunk files as a whole', ['C12', 'C05']),
    ('empty chunks', ['C16']), ('gzip compressed zarr', ['C16', 'C04']),
    ('fill values n5 metadata', ['C16', 'C03']), ('blosc level', ['C16']), ('compression names', ['C03', 'C16']),
    ('slash-decorated', ['C06']), ('missing parents', ['C06']), ('chunk directories as sub', ['C06']), ('chunk directories', ['C06']),
    ('expected size', ['C12']), ('n5 chunk headers', ['C12', 'C04', 'C14']), ('reset the padding', ['C02']), ('padding of zarr border', ['C15']),
    ('wrong number of dimensions in sharded', ['C11']), ('chunk indices with the wrong', ['C11']), ('wrap around', ['C11', 'C15']),
    ('readChunk and removeChunk of sharded', ['C11', 'C14']), ('zarr v3 byte orders', ['C04']),
    ('missing fields', ['C12']), ('fill values to integer', ['C04', 'C16']), ('mix NaN', ['C15']), ('require_dataset accept', ['C16']), ('empty compression options', ['C03']), ('reset the padding', ['C02']), ('chunk directories as sub', ['C06'])]

out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    ps = [p for k, p in PROP if k in s]
    assert ps, s
    for p in ps[0]:
        out.append({'property': p, 'status': 'fixed', 'commit': h, 'what': s[5:], 'line': 'fixed: property=%s %s %s' % (p, h, s[5:])})
# defects that are recorded, not repaired
KNOWN = [{'property': 'C04', 'status': 'known', 'tag': 'zarr2-lz4-frame',
          'what': 'a Zarr v2 dataset created with the codec lz4 (C++ only) stores bare LZ4 blocks; the codec "lz4" it declares '
                  '(numcodecs) puts the size of the data in front of the block, so other readers fail and such data of others is refused. '
                  'Writing the size would make all data z5 has written so far unreadable.'}]
out += KNOWN
with open('/verif/known_findings.jsonl', 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
print(len(out))
