"""C07: access modes are honoured; read-only handles never modify storage."""
import arr
import tree
import vlib
from arr import drive


def run(chk):
    s3, s3py = vlib.background(tree.s3_build), vlib.background(tree.s3_build_py)
    tree.models(chk)
    go = tree.py_runner(chk)
    drive(chk, go, tree.tour_scripts(chk, share=chk.n(.3, 1)), module=tree.SPEC)
    for rnd in range(chk.n(1, 10)):
        drive(chk, go, tree.random_scripts(chk, chk.n(240, 900), tree.W_MODE, nops=24, read_only=.7), module=tree.SPEC)
    go = tree.cpp_runner(chk)
    for rnd in range(chk.n(1, 10)):
        drive(chk, go, tree.cpp_scripts(chk, chk.n(400, 1500), tree.C_MODE), module=tree.SPEC)
    tree.drive_s3(chk, s3.result(), chk.n(120, 1000), tree.C_MODE)
    tree.drive_s3_py(chk, s3py.result(), tree.random_scripts(chk, chk.n(120, 900), tree.W_MODE, nops=24, read_only=.7))
    # data-level requests through read-only datasets of both interfaces
    exe, has_s3 = vlib.build_zdrv_s3()
    for rnd in range(chk.n(1, 10)):
        sc = arr.ro_scripts(chk, chk.n(200, 900))
        drive(chk, arr.runner(chk, exe), sc)
        drive(chk, arr.py_runner(chk), arr.to_py(chk.rng, sc))
        arr.drive_s3(chk, exe, has_s3, arr.ro_scripts(chk, chk.n(60, 400)))
