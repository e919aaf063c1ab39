"""C03: a reopened dataset is the same dataset."""
import arr
import tree
import vlib
from arr import drive


def run(chk):
    s3py = vlib.background(tree.s3_build_py)
    tree.models(chk)
    exe, s3 = vlib.build_zdrv_s3()
    go, pygo, relay = arr.runner(chk, exe), arr.py_runner(chk), arr.relay(exe)
    for rnd in range(chk.n(1, 8)):
        sc = arr.reopen_scripts(chk, chk.n(200, 700))
        drive(chk, go, sc)
        arr.drive_s3(chk, exe, s3, arr.reopen_scripts(chk, chk.n(60, 400)))
        drive(chk, pygo, arr.to_py(chk.rng, arr.reopen_scripts(chk, chk.n(160, 600))))
        drive(chk, relay, arr.relay_scripts(chk, chk.n(120, 400)))
        drive(chk, tree.py_runner(chk), tree.random_scripts(chk, chk.n(150, 600), tree.W_OPEN, nops=24, nmetas=4), module=tree.SPEC)
        tree.drive_s3_py(chk, s3py.result(), tree.random_scripts(chk, chk.n(100, 500), tree.W_OPEN, nops=24, nmetas=4))
