"""C04: the stored layout is the one the format specifications prescribe, in both directions."""
import arr
import interop
import vlib
from arr import drive


def run(chk):
    # the layout model: keys and slots are one to one, the objects written represent the store and only that store
    for cfg, inv in (('MCLayoutQuick', None), ('MCLayoutNegNoReverse', 'Represents'), ('MCLayoutNegDims', 'Represents'),
                     ('MCLayoutNegColumn', 'Represents'), ('MCLayoutNegKeepEmpty', 'Represents')):
        vlib.model_check(chk.stats, 'MCLayout', cfg, expect_violation=inv)
    if chk.thorough():
        vlib.model_check(chk.stats, 'MCLayout', 'MCLayoutThorough', timeout=3000)
    exe, s3 = vlib.build_zdrv_s3()
    go, pygo, relay = arr.runner(chk, exe), arr.py_runner(chk, **interop.EXT), arr.relay(exe, pykw=interop.EXT)
    # z5 writes: decoded independently, and by other implementations
    drive(chk, go, arr.presence_scripts(chk, chk.n(120, 1500)))
    drive(chk, relay, interop.extread_scripts(chk, chk.n(150, 1500)))
    interop.known_lz4(chk, exe)
    # others write: z5 understands, or refuses
    drive(chk, go, interop.foreign_scripts(chk, chk.n(260, 3000)))
    arr.drive_s3(chk, exe, s3, interop.foreign_scripts(chk, chk.n(80, 800)))
    drive(chk, pygo, interop.foreign_scripts(chk, chk.n(160, 1500), py=True, offset=7))
    drive(chk, relay, interop.libwrite_scripts(chk, chk.n(120, 1500)))
