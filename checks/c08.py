"""C08: attributes are a persistent map that cannot damage the node's metadata."""
import tree
import vlib
from arr import drive


def run(chk):
    s3 = vlib.background(tree.s3_build)
    tree.models(chk)
    go = tree.py_runner(chk)
    drive(chk, go, tree.tour_scripts(chk, share=chk.n(.3, 1)), module=tree.SPEC)
    for rnd in range(chk.n(1, 10)):
        drive(chk, go, tree.random_scripts(chk, chk.n(260, 900), tree.W_ATTR, nops=32), module=tree.SPEC)
    go = tree.cpp_runner(chk)
    for rnd in range(chk.n(1, 10)):
        drive(chk, go, tree.cpp_scripts(chk, chk.n(400, 1500), tree.C_ATTR), module=tree.SPEC)
    tree.drive_s3(chk, s3.result(), chk.n(120, 1000), tree.C_ATTR)
