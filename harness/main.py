"""Entry point: run the check of one property in a child process and report.

The child does the work.  A child that dies from a signal raised by its own code (segmentation fault,
abort, floating point exception) or that never answers is a violation of the property, because on the tree
where the property holds the same deterministic script terminates normally.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def child(pid):
    import vlib

    return vlib.run_check(pid)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--child":
        sys.exit(child(sys.argv[2]))
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        with open(sys.argv[3]) as f:
            rep = json.load(f)
        os.environ["VERIF_SEED"] = str(rep.get("seed", 1))
        os.environ["VERIF_TIER"] = tier = rep.get("tier", "quick")
    limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "7200"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"check-{pid}-")
    try:
        proc = subprocess.Popen([sys.executable, os.path.abspath(__file__), "--child", pid], start_new_session=True, env=dict(os.environ, TMPDIR=scratch))
        try:
            rc = proc.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
            rc = "timeout"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc in (0, 1):
        sys.exit(rc)
    import vlib

    if rc == "timeout" or (isinstance(rc, int) and rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL)):
        what = f"no answer within {limit:.0f} s" if rc == "timeout" else f"the process was ended by signal {-rc}"
        path = vlib.write_replay(pid, dict(property=pid, what=what))
        vlib.write_evidence(pid, dict(samples=[what], states=0, transitions=0, traces_validated_against_impl=0), time.time() - t0, 1)
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    print(f"machinery error: child ended with {rc}")
    sys.exit(2)


if __name__ == "__main__":
    main()
