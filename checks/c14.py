"""C14: chunk-level access agrees with region access; N5 variable-length chunks survive."""
import arr
import vlib


def run(chk):
    exe, s3 = vlib.build_zdrv_s3()
    vlib.model_check(chk.stats, 'MCArrayCfg', 'MCArrayThorough' if chk.thorough() else 'MCArrayQuick', timeout=3000)
    go = arr.runner(chk, exe)
    arr.drive(chk, go, arr.edge_scripts(chk, chk.seed, extra=('rchunk', 'cinfo'), reopen_every=9))
    for rnd in range(chk.n(1, 12)):
        arr.drive(chk, go, arr.chunk_scripts(chk, chk.n(240, 900)))
    arr.drive_s3(chk, exe, s3, arr.chunk_scripts(chk, chk.n(80, 600)))
    gop = arr.py_runner(chk)
    for rnd in range(chk.n(1, 6)):
        arr.drive(chk, gop, arr.to_py(chk.rng, arr.chunk_scripts(chk, chk.n(120, 400))))
