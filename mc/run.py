"""Entry point: python -m mc.run <property id> """
import importlib
import os
import sys
import tempfile
import shutil
import traceback


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    mpl = tempfile.mkdtemp(prefix='verif_mpl_')
    os.environ['MPLCONFIGDIR'] = mpl
    ck = None
    try:
        from mc import common
        mod = importlib.import_module(f'mc.{prop.lower()}')
        ck = common.Check(prop, mod.LEVEL)
        ck.rule = mod.RULE
        try:
            mod.run(ck)
        except common.Abort:
            pass
        rc = ck.finish()
    except BaseException as e:  # pylint: disable=broad-except
        traceback.print_exc()
        rc = 2
        frames = traceback.extract_tb(e.__traceback__)
        if ck is not None and frames and any(f.filename.startswith(os.path.join(common.REPO, 'src')) for f in frames):
            # the code under test failed on an input within the bounds of the property
            ck.violation('setup:exception', f'{type(e).__name__}: {e} at {frames[-1].filename}:{frames[-1].lineno}')
            rc = ck.finish()
    finally:
        shutil.rmtree(mpl, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
