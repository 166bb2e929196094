"""Runs sessions through the Python interface of the crate."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading

import common
from geom import inv, mv


def given(op):
    """the construction as the caller sees it: the Python functions take the structure with every call"""
    lat = op["lattice"]
    if op["is_cart"]:
        li = inv(lat)
        frac, cart = [mv(li, c) for c in op["coords"]], op["coords"]
    else:
        frac, cart = op["coords"], [mv(lat, c) for c in op["coords"]]
    return {"ok": {"lattice": lat, "species": op["species"], "frac": frac, "cart": cart}}


def _chunk(todo, sessions, out, tmp, errors):
    deaths = 0
    while todo and deaths < 3:
        data = "".join(json.dumps(sessions[i].driver()) + "\n" for i in todo)
        p = subprocess.run([sys.executable, os.path.join(common.ROOT, "tools", "pyrun.py"), tmp], input=data,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=common._limits)
        lines = p.stdout.split("\n")[:-1]
        for i, line in zip(todo, lines):
            out[i] = [given(sessions[i].ops[0])] + json.loads(line)["steps"]
        if p.returncode == 0:
            return
        if "Traceback" in p.stderr or len(lines) >= len(todo):
            errors.append("python: " + p.stderr[-1500:])
            return
        deaths += 1
        bad = todo[len(lines)]
        out[bad] = [given(sessions[bad].ops[0]), {"hang" if p.returncode == -signal.SIGALRM else "crash": p.returncode}]
        todo = todo[len(lines) + 1:]


def run(sessions):
    lib = os.path.join(common.TARGET, "debug", "deps", "libcrystsymm.so")
    if not os.path.exists(lib):
        raise common.ToolError("the Python module was not built: " + lib)
    tmp = tempfile.mkdtemp(prefix="pyapi_")
    out = [None] * len(sessions)
    errors = []
    try:
        shutil.copy(lib, os.path.join(tmp, "crystsymm.so"))
        ths = [threading.Thread(target=_chunk, args=(list(range(k, len(sessions), common.CORES)), sessions, out, tmp, errors))
               for k in range(common.CORES)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if errors:
        raise common.ToolError("; ".join(errors))
    return out
