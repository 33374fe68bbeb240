"""Run TLC and collect what it reports."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAVA_OUT = os.path.join(VERIF, "build", "java")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"


def build_java():
    """Compile the TLC operator overrides when the class files are missing or older than the sources."""
    srcs = glob.glob(os.path.join(SPEC, "java", "*.java"))
    stale = [s for s in srcs
             if not os.path.exists(os.path.join(JAVA_OUT, os.path.basename(s)[:-5] + ".class"))
             or os.path.getmtime(os.path.join(JAVA_OUT, os.path.basename(s)[:-5] + ".class")) < os.path.getmtime(s)]
    if not stale:
        return
    os.makedirs(JAVA_OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vf_javac_")
    try:
        subprocess.run(["javac", "-cp", TLA, "-d", tmp] + srcs, check=True)
        for f in os.listdir(tmp):
            shutil.move(os.path.join(tmp, f), os.path.join(JAVA_OUT, f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class TLCResult:
    def __init__(self):
        self.rc = None
        self.out = ""
        self.states = 0
        self.transitions = 0
        self.emitted = {}      # tag -> list of decoded JSON values
        self.error = None
        self.wall = 0.0


_ESC = {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}
_LINE = re.compile(r'^"(@@[A-Z]+) (.*)"$')


def _parse(res):
    for line in res.out.splitlines():
        m = _LINE.match(line)
        if m:
            body = re.sub(r"\\(.)", lambda k: _ESC.get(k.group(1), k.group(1)), m.group(2))
            try:
                res.emitted.setdefault(m.group(1), []).append(json.loads(body))
            except ValueError:
                res.emitted.setdefault("@@BAD", []).append(line)
            continue
        m = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct states found", line)
        if m:
            res.transitions = int(m.group(1).replace(",", ""))
            res.states = int(m.group(2).replace(",", ""))
        m = re.match(r"^The number of states generated: ([\d,]+)", line)
        if m:
            res.transitions = res.states = int(m.group(1).replace(",", ""))
    i = res.out.find("Error:")
    if i >= 0:
        res.error = res.out[i:i + 4000]
    elif res.rc != 0:
        res.error = "TLC ended with %r\n%s" % (res.rc, res.out[-3000:])


def run(module, cfg=None, env=None, workers=4, simulate=None, depth=None, seed=None, heap="3g", timeout=800, coverage=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    build_java()
    meta = tempfile.mkdtemp(prefix="vf_tlc_")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-cp", ":".join([TLA, COMM, JAVA_OUT]), "tlc2.TLC",
           "-deadlock", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", (cfg or module) + ".cfg"]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
    if depth is not None:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    res = TLCResult()
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        res.rc, res.out = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        res.rc, res.out = -9, (x.stdout or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.wall = time.time() - t0
    _parse(res)
    return res
