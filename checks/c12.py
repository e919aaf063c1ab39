"""C12: damaged storage and failing writes raise errors and stay contained."""
import arr
import faults
import tree
import vlib


def run(chk):
    for cfg, inv in (('MCFaultsThorough' if chk.thorough() else 'MCFaultsQuick', None), ('MCFaultsNegInPlace', 'Readable'),
                     ('MCFaultsNegTrust', 'Allowed'), ('MCFaultsNegSwallow', 'Readable')):
        vlib.model_check(chk.stats, 'MCFaults', cfg, expect_violation=inv, timeout=3000)
    for cfg, inv in (('MCTreeFaultsThorough' if chk.thorough() else 'MCTreeFaultsQuick', None), ('MCTreeFaultsNegList', 'Usable'),
                     ('MCTreeFaultsNegInPlace', 'Outcomes'), ('MCTreeFaultsNegParents', 'FRefines')):
        vlib.model_check(chk.stats, 'MCTreeFaults', cfg, expect_violation=inv, timeout=3000)
    exe = vlib.build_zdrv()
    go = arr.runner(chk, exe)
    arr.drive(chk, go, faults.chunk_scripts(chk, chk.n(300, 4000)))
    arr.drive(chk, go, faults.every_cut(chk, chk.n(60, 600)))
    exe, s3 = vlib.build_zdrv_s3(san=None)
    go = arr.runner(chk, exe)
    arr.drive(chk, go, faults.fault_scripts(chk, chk.n(200, 3000)))
    arr.drive_s3(chk, exe, s3, faults.chunk_scripts(chk, chk.n(60, 800)))
    arr.drive_s3(chk, exe, s3, faults.fault_scripts(chk, chk.n(150, 2000)))
    go = tree.py_runner(chk, faults=True)
    arr.drive(chk, go, tree.fault_scripts(chk, chk.n(150, 2000)), module=tree.SPEC)
