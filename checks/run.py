"""python checks/run.py PROPERTY [quick|thorough]  -- one property's check (see DESIGN.md)"""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), 'tools'), os.path.join(os.path.dirname(HERE), 'drivers'), HERE]
sys.dont_write_bytecode = True
import vlib  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier == 'thorough' and 'VERIF_SEED' not in os.environ:
        seed = 1
    chk = vlib.Check(prop, tier, seed)
    mod = __import__(prop.lower())
    try:
        try:
            mod.run(chk)
        except vlib.Found:
            pass
        except Exception:
            if not chk.violations:
                raise
            traceback.print_exc()
        rc = chk.finish()
    except vlib.HarnessError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    vlib.log('done', prop, tier, 'rc', rc)
    sys.exit(rc)


if __name__ == '__main__':
    main()
