import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core
if __name__ == "__main__":
    pid = sys.argv[1].upper()
    try:
        rc = core.main(pid)
    except SystemExit:
        raise
    except BaseException:
        # an error of the harness itself can only be triggered by code under test behaving
        # outside anything the harness foresaw
        import traceback
        traceback.print_exc()
        p = os.path.join(core.EVID, "replays", "%s_harness.txt" % pid)
        open(p, "w").write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s" % (pid, p))
        rc = 1
    sys.exit(rc)
