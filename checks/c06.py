"""C06: the container behaves as a faithful tree of named groups and datasets."""
import tree
import vlib
from arr import drive


def run(chk):
    s3, s3py = vlib.background(tree.s3_build), vlib.background(tree.s3_build_py)
    tree.models(chk)
    go = tree.py_runner(chk)
    drive(chk, go, tree.tour_scripts(chk, share=chk.n(.5, 1)), module=tree.SPEC)
    for rnd in range(chk.n(1, 10)):
        drive(chk, go, tree.random_scripts(chk, chk.n(240, 900), tree.W_TREE), module=tree.SPEC)
    go = tree.cpp_runner(chk)
    for rnd in range(chk.n(1, 10)):
        drive(chk, go, tree.cpp_scripts(chk, chk.n(400, 1500), tree.C_TREE), module=tree.SPEC)
    tree.drive_s3(chk, s3.result(), chk.n(120, 1000), tree.C_TREE)
    tree.drive_s3_py(chk, s3py.result(), tree.random_scripts(chk, chk.n(100, 900), tree.W_TREE))
    tree.drive_s3_py(chk, s3py.result(), tree.random_scripts(chk, chk.n(40, 400), tree.W_ATTR))
