"""Executes sessions through the Python module (run by the system python, one session per line)."""
import json
import signal
import sys

sys.path.insert(0, sys.argv[1])
import crystsymm  # noqa: E402

FUN = {"primitive": "find_primitive", "niggli": "niggli_reduce", "stdconv": "get_standard_conventional_structure",
       "stdprim": "get_standard_primitive_structure", "sginfo": "get_space_group_info"}


def flat(lattice):
    """vector by vector"""
    return [lattice[i][j] for j in range(3) for i in range(3)]


def call(new, op):
    args = [flat(new["lattice"]), list(new["species"]), [list(c) for c in new["coords"]], new["is_cart"]]
    k = op["op"]
    args += [op.get("tol", 1e-5)] if k == "niggli" else [op["dtol"], op.get("atol", 5.0)]
    r = getattr(crystsymm, FUN[k])(*args)
    if k == "sginfo":
        number, symbol, ops = r
        return {"number": number, "symbol": symbol, "untouched": True,
                "ops": [{"r": [o[0][0:3], o[0][3:6], o[0][6:9]], "t": list(o[1])} for o in ops]}
    v, species, frac = r
    lat = [[v[3 * j + i] for j in range(3)] for i in range(3)]
    cart = [[sum(lat[i][k] * f[k] for k in range(3)) for i in range(3)] for f in frac]
    return {"lattice": lat, "species": species, "frac": frac, "cart": cart, "untouched": True}


for line in sys.stdin:
    ops = json.loads(line)["ops"]
    new = ops[0]
    steps = []
    for op in ops[1:]:
        signal.alarm(30)
        try:
            steps.append({"ok": call(new, op)})
        except BaseException as e:       # PanicException is not an Exception
            steps.append({"panic": f"{type(e).__name__}: {e}"})
        signal.alarm(0)
    print(json.dumps({"steps": steps}), flush=True)
