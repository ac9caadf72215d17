import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from base import *
import threading, traceback, resource


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    import registry
    fn = registry.CHECKS[pid]
    rep = Report(pid, tier)
    build()
    prog = export()
    limit = int(os.environ.get("VERIF_WATCHDOG", "700"))

    def watchdog():
        for c in list(getattr(rep, "kids", ())):
            try:
                os.kill(c, signal.SIGKILL)
            except OSError:
                pass
        rep.unsure("analysis finishes", pid, "time limit of %d s" % limit)
        rep.violations = []
        rc = rep.finish()
        os._exit(rc)

    t = threading.Timer(limit, watchdog)
    t.daemon = True
    t.start()
    try:
        fn(prog, rep, tier)
    except (interp.Limit, Undecided, RecursionError, OverflowError) as x:
        rep.unsure("analysis finishes", pid, "%s: %s" % (type(x).__name__, x))
    except MemoryError:
        rep.violations = []
        rep.unsure("analysis finishes", pid, "memory limit")
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        rep.unsure("analysis finishes", pid, "internal %s: %s" % (type(x).__name__, x))
    t.cancel()
    rc = rep.finish()
    sys.stdout.flush()
    os._exit(rc)


resource.setrlimit(resource.RLIMIT_DATA, (10 << 30, 10 << 30))
threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=main)
th.start()
th.join()
