"""Building the driver, running sessions through it, running TLC, writing evidence."""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVIDENCE = os.path.join(ROOT, "evidence")
TARGET = os.path.join(HARNESS, "target")
BIN = os.path.join(TARGET, "debug")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    """Something other than the code under test went wrong: the check cannot decide."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(binary="csdriver"):
    """Compile the driver against the current working tree of /repo."""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", binary], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the driver does not build:\n" + r.stdout[-4000:])


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_chunk(items, out, limit_ms, max_hangs, errors, binary):
    """items: list of (index, session)"""
    todo = list(items)
    hangs = 0
    while todo:
        if hangs >= max_hangs:
            for i, _ in todo:
                out[i] = None
            return
        data = "".join(json.dumps(s) + "\n" for _, s in todo)
        p = subprocess.Popen([os.path.join(BIN, binary), str(limit_ms)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, preexec_fn=_limits)
        got, err = p.communicate(data)
        lines = got.split("\n")
        lines = [x for x in lines[:-1] if x]        # an unterminated last line is dropped
        for (i, _), line in zip(todo, lines):
            out[i] = json.loads(line)["steps"]
        done = len(lines)
        if p.returncode == 0:
            if done != len(todo):
                errors.append("driver stopped early")
                return
            return
        if p.returncode == 3:
            hangs += 1
        elif p.returncode == 4 or done >= len(todo):
            errors.append(f"driver failed ({p.returncode}): {err[-500:]}")
            return
        else:                                        # killed: out of memory, stack overflow, abort
            out[todo[done][0]] = [{"crash": f"exit {p.returncode}: {err[-200:]}"}]
            done += 1
            hangs += 1
        todo = todo[done:]


def run_sessions(sessions, limit_ms=30000, max_hangs=3, binary="csdriver"):
    """Execute sessions with the real code.  Returns one list of steps per session; None for
    sessions not executed because too many before them did not return."""
    out = [None] * len(sessions)
    errors = []
    chunks = [[] for _ in range(CORES)]
    for i, s in enumerate(sessions):
        chunks[i % CORES].append((i, s))
    ths = [threading.Thread(target=_run_chunk, args=(c, out, limit_ms, max_hangs, errors, binary)) for c in chunks if c]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise ToolError("; ".join(errors))
    return out


class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.initial = 0
        self.prints = []
        self.text = ""
        self.violated = None
        self.wall = 0.0


def tlc(module, cfg=None, env=None, workers=CORES, timeout=800, heap="6g", allow_violation=False):
    """Run TLC on spec/<module>.tla; every line printed by the specification is returned."""
    meta = tempfile.mkdtemp(prefix="tlc_")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}",
           "-cp", JARS, "tlc2.TLC", "-config", cfg or module + ".cfg", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, module + ".tla"]
    t0 = time.time()
    res = TlcResult()
    e = dict(os.environ, SGDATA=os.path.join(SPEC, "SGData.json"))
    e.update(env or {})
    try:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC on {module} did not finish within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res.wall = time.time() - t0
    res.text = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if m:
        res.generated, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"Finished computing initial states: (\d+)", r.stdout)
    if m:
        res.initial = int(m[-1])
    res.prints = [x.strip('"') for x in r.stdout.split("\n") if x.startswith('"')]
    if r.returncode != 0:
        v = re.search(r"Error: Invariant (\S+) is violated|Error: (Temporal properties were violated)|"
                      r"Error: (Action property \S+) ", r.stdout)
        if v and allow_violation:
            res.violated = next(x for x in v.groups() if x)
        else:
            raise ToolError(f"TLC failed on {module} (exit {r.returncode}):\n" + r.stdout[-3000:])
    return res


REJECT = re.compile(r'<<\\?"REJECT\\?", (\d+), (\d+), \{(.*)\}>>')


def validate(traces, timeout=700, heap="8g"):
    """Decide recorded traces with the Conformance specification.
    Returns (list of (trace index, event index, label), TlcResult)."""
    fd, path = tempfile.mkstemp(prefix="traces_", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(traces, f, separators=(",", ":"))
        res = tlc("Conformance", env={"TRACES": path}, timeout=timeout, heap=heap)
    finally:
        os.unlink(path)
    rejects = []
    for line in res.prints:
        m = REJECT.search(line)
        if m:
            for lab in re.findall(r'[a-z0-9_]+\.[a-z0-9-]+', m.group(3)):
                rejects.append((int(m.group(1)) - 1, int(m.group(2)) - 1, lab))
        elif "REJECT" in line:
            raise ToolError("unreadable verdict: " + line)
    want = len(traces)
    if res.distinct < want:
        raise ToolError(f"TLC saw {res.distinct} states for {want} traces")
    return rejects, res


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)
