"""Entry point of a check: runs harness/child.py and maps every way it can end to the two outcomes.

The code under test runs in the child.  If that code takes the child down (a fatal signal), makes it hang, or
breaks the interface so badly that the driver cannot go on, that is an observation about the code, reported as a
violation; only failures of TLC or of the harness itself end with another status."""
import json
import os
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def violation(prop, why):
    rep = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
    if not os.path.exists(rep) or "driver" not in why:
        with open(rep, "w") as f:
            json.dump({"property": prop, "why": why}, f)
    print("rejected: " + why)
    print("VIOLATION property=%s replay=%s" % (prop, rep))
    return 1


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 780 if tier == "quick" else 20000
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
    try:
        os.remove(rep)
    except FileNotFoundError:
        pass
    sys.path.insert(0, HERE)
    import tlc
    tlc.build_java()
    p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "child.py"), prop, tier, str(seed)],
                         start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return violation(prop, "the code under test did not answer within %d s" % limit)
    if rc in (0, 1):
        return rc
    if rc == 3:
        return violation(prop, "the driver could not go on with what the code returned")
    if -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        return violation(prop, "the code under test crashed the process (signal %d)" % -rc)
    return 2


sys.exit(main())
