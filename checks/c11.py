"""C11: invalid requests are rejected without any effect."""
import arr
import vlib


def run(chk):
    exe, s3 = vlib.build_zdrv_s3()
    vlib.model_check(chk.stats, 'MCArrayCfg', 'MCArrayThorough' if chk.thorough() else 'MCArrayQuick', timeout=3000)
    go = arr.runner(chk, exe)
    for rnd in range(chk.n(1, 12)):
        arr.drive(chk, go, arr.invalid_scripts(chk, chk.n(300, 1000)))
    arr.drive_s3(chk, exe, s3, arr.invalid_scripts(chk, chk.n(80, 600), varlen=False))
    gop = arr.py_runner(chk)
    for rnd in range(chk.n(1, 6)):
        arr.drive(chk, gop, arr.to_py_invalid(chk.rng, arr.invalid_scripts(chk, chk.n(120, 400), py=True)))
