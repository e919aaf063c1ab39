"""C01: region reads return the last written values; writes touch only their region."""
import arr
import vlib


def run(chk):
    exe, s3 = vlib.build_zdrv_s3()
    vlib.model_check(chk.stats, 'MCGrid')
    vlib.model_check(chk.stats, 'MCArrayCfg', 'MCArrayThorough' if chk.thorough() else 'MCArrayQuick', timeout=3000)
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCGrid', 'MCGridBig', timeout=3000)
    go = arr.runner(chk, exe)
    arr.drive(chk, go, arr.edge_scripts(chk, chk.seed, extra=('read',), reopen_every=7))
    for rnd in range(chk.n(1, 12)):
        arr.drive(chk, go, arr.random_scripts(chk, chk.n(260, 1000), varlen=True))
        arr.drive(chk, go, arr.random_scripts(chk, chk.n(40, 200), nops=14, big_scale=True, max_cells=24))
        arr.drive(chk, go, arr.random_scripts(chk, chk.n(24, 120), nops=8, full_every=0, big_scale='huge', max_cells=12))
        arr.drive_s3(chk, exe, s3, arr.random_scripts(chk, chk.n(60, 500), varlen=False))
