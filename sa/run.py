"""Static checks for CCBlade:  python3-vt sa/run.py C01 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import resource
import threading


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import core
    import lib
    import world
    import pyinterp
    rep = lib.Report(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    m = importlib.import_module("checks." + a.pid.lower())
    try:
        m.run(rep)
    except core.Unsupported as e:
        print("ERROR: %s: construct outside the analysed fragment: %s" % (a.pid, e))
        if os.environ.get("SA_TRACE"):
            traceback.print_exc()
        if any(k not in lib.known_findings(a.pid) for k in rep.viol):
            return rep.finish()
        return 2
    except world.AnchorLost as e:
        print("ERROR: %s: anchor lost: %s" % (a.pid, e))
        return 2
    except pyinterp.PyRaise as e:
        rep.check(False, "no-exception", type(e.exc).__name__, "%s:%s" % tuple(e.where[:2]) if e.where else "?",
                  "the analysed call raises %s: %s" % (type(e.exc).__name__, e.exc))
        if os.environ.get("SA_TRACE"):
            traceback.print_exc()
        return rep.finish()
    return rep.finish()


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            traceback.print_exc()
            rc[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
