"""Executes tasks of one property in a process of its own and reports what the monitors saw."""
import importlib, json, os, sys, traceback

OUT = os.dup(1)
os.dup2(2, 1)  # anything the code under test prints must not reach the protocol
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import faulthandler

faulthandler.enable()
from mon.core import Monitor, ApiFailed  # noqa


def main():
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    import interpolation
    got = os.path.realpath(interpolation.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("wrong package under test: " + got)
    for line in sys.stdin:
        spec = json.loads(line)
        mon = Monitor(spec)
        err = None
        try:
            mod.run(spec, mon)
        except ApiFailed:
            pass
        except (OSError, MemoryError, ImportError, KeyboardInterrupt):
            err = traceback.format_exc()
        except Exception as e:
            # the unchanged tree never gets here: what the code returned broke the harness' expectations
            mon.fail("unexpected " + type(e).__name__,
                     "while judging the result of: %s\n%s" % (mon.current, traceback.format_exc()))
        mon.step("")
        res = mon.result()
        res["error"] = err
        os.write(OUT, (json.dumps(res, default=str) + "\n").encode())


main()
