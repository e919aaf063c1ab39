"""C05: a shard keeps its chunks independent and is never trusted when damaged."""
import arr
import faults
import vlib


def run(chk):
    for cfg, inv in (('MCFaultsQuick', None), ('MCFaultsNegTrust', 'Allowed')):
        vlib.model_check(chk.stats, 'MCFaults', cfg, expect_violation=inv)
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCArrayCfg', 'MCArrayThorough', timeout=3000)
    exe, s3 = vlib.build_zdrv_s3()
    go = arr.runner(chk, exe)
    arr.drive(chk, go, faults.shard_histories(chk, chk.n(150, 2000)))
    arr.drive(chk, go, faults.shard_scripts(chk, chk.n(300, 4000)))
    arr.drive_s3(chk, exe, s3, faults.shard_histories(chk, chk.n(40, 500)))
    arr.drive_s3(chk, exe, s3, faults.shard_scripts(chk, chk.n(60, 800)))
