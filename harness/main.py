import importlib, os, shutil, subprocess, sys, traceback
from . import lib

LIB = "/repo/neural_graph_composer"
MODULES = ["containers", "notes", "sequences", "signatures", "reading", "writing", "graphs", "dataset",
           "transforms", "theory", "training", "beats", "events", "trees", "views", "scoring"]


def find(pid):
    for m in MODULES:
        if not os.path.exists(os.path.join(os.path.dirname(__file__), m + ".py")):
            continue
        src = open(os.path.join(os.path.dirname(__file__), m + ".py")).read()
        if "def %s(" % pid in src:
            with lib.quiet():
                mod = importlib.import_module("harness." + m)
            return getattr(mod, pid)
    raise SystemExit("no check for " + pid)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    run = lib.Run(pid, tier, seed)
    lib.Watch()
    try:
        with lib.quiet():
            find(pid)(run)
        lib.Watch.stop()
        rc = run.finish()
    except lib.Hang as ex:
        # the specification answers every request; the library does not
        lib.Watch.stop()
        run.viol.append(("a call into the library does not return: %s" % ex, dict(traceback=traceback.format_exc())))
        run._pending = []
        run.finish()
        sys.stdout.flush()
        os._exit(1)
    except lib.MachineryError:
        traceback.print_exc()
        rc = 2
    except Exception as ex:
        traceback.print_exc()
        frames = [f.filename for f in traceback.extract_tb(ex.__traceback__)]
        if isinstance(ex, (OSError, MemoryError, subprocess.SubprocessError)) and not any(f.startswith(LIB) for f in frames):
            rc = 2
        else:
            # the library failed, or answered with something that cannot even be observed, where the
            # specification predicts an answer
            who = "from the library" if any(f.startswith(LIB) for f in frames) else "in observing the library"
            run.viol.append(("unexpected %s %s: %s" % (type(ex).__name__, who, ex),
                             dict(traceback=traceback.format_exc())))
            run._pending = []
            run.finish()
            sys.stdout.flush()
            os._exit(1)
    shutil.rmtree(run.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
