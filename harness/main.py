"""python main.py P01 : run the check of one property against /repo's working tree."""
import importlib, os, sys, tempfile, traceback, warnings
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
os.environ.setdefault("MPLCONFIGDIR", tempfile.mkdtemp(prefix="verif_mpl_"))
import core
sys.path.insert(0, core.REPO)
warnings.simplefilter("ignore")


def main():
    prop = sys.argv[1]
    chk = None
    try:
        chk = core.Check(prop)
        try:
            import numpy, sklearn, quantificationlib  # noqa: the code under test
        except Exception:
            pass
        mod = importlib.import_module(prop.lower())
        rc = mod.main(chk)
    except core.Machinery as e:
        print("MACHINERY %s: %s" % (prop, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        import shutil
        if chk:
            shutil.rmtree(chk.scratch, ignore_errors=True)
        if "verif_mpl_" in os.environ["MPLCONFIGDIR"]:
            shutil.rmtree(os.environ["MPLCONFIGDIR"], ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
