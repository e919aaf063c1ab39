"""C15: chunk iteration and dataset utilities cover the data exactly once."""
import arr
import vlib


def run(chk):
    exe, s3 = vlib.build_zdrv_s3()
    vlib.model_check(chk.stats, 'MCGrid')
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCGrid', 'MCGridBig', timeout=3000)
    go = arr.runner(chk, exe)
    for rnd in range(chk.n(1, 12)):
        arr.drive(chk, go, arr.util_scripts(chk, chk.n(300, 1200)))
        arr.drive_s3(chk, exe, s3, arr.util_scripts(chk, chk.n(60, 400)))
