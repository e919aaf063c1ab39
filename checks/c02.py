"""C02: only chunks holding non-fill data occupy storage, and presence queries agree."""
import arr
import vlib


def run(chk):
    exe, s3 = vlib.build_zdrv_s3()
    vlib.model_check(chk.stats, 'MCArrayCfg', 'MCArrayThorough' if chk.thorough() else 'MCArrayQuick', timeout=3000)
    go = arr.runner(chk, exe)
    arr.drive(chk, go, arr.edge_scripts(chk, chk.seed, extra=('exists',), disk_every=1))
    for rnd in range(chk.n(1, 12)):
        arr.drive(chk, go, arr.presence_scripts(chk, chk.n(200, 800)))
    arr.drive_s3(chk, exe, s3, arr.presence_scripts(chk, chk.n(60, 600)))
    gop = arr.py_runner(chk)
    for rnd in range(chk.n(1, 6)):
        arr.drive(chk, gop, arr.to_py(chk.rng, arr.presence_scripts(chk, chk.n(100, 400))))
