"""Turns what the driver reported for a session into a trace for the Conformance specification."""
import math

import proj
from geom import adj, det, mm, mv, tr

STRUCT = ("new", "transform", "normalize", "primitive", "niggli", "delaunay", "stdconv", "stdprim")
BIG = proj.BIG


def event(ev, op, step, ctx, cell):
    """one event; cell is the integer basis of the current presentation"""
    k = ev["k"]
    e = {a: b for a, b in ev.items() if not a.startswith("_")}
    e["rt"] = ev.get("rt", ctx.rt if ctx else 1)
    if "ok" not in step:
        e["st"] = next(iter(step))
        return e
    e["st"] = "ok"
    o = step["ok"]
    if k in STRUCT:
        e["o"] = proj.structure(o, ctx, op.get("dtol", op.get("tol", 0.05)))
        e.setdefault("peek", bool(op.get("peek", False)))
        e["untouched"] = o.get("untouched", True)
        e["same"] = o.get("same", True)
    elif k == "sginfo":
        d = abs(det(cell))
        e["ops"], e["res"] = proj.ops(o["ops"], ctx.n * d)
        e["number"], e["symbol"], e["untouched"] = o["number"], o["symbol"], o["untouched"]
    elif k in ("sggen", "sgtrans"):
        e["out" if k == "sgtrans" else "ops"], e["res"] = proj.ops(o["ops"], ev["_unit"])
    elif k == "pg":
        e.update(o)
    elif k == "opapply":
        v, r = proj.ints([[ev["n"] * x for x in o]], 10 ** 6) if proj.allfinite(o) else (None, BIG)
        e["out"], e["res"] = (v[0], proj.micro(r)) if v else ([0, 0, 0], BIG)
    elif k in ("opmul", "opnorm"):
        out, e["res"] = proj.ops([o], ev["n"], 10000)
        e["out"] = out[0] if out else [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0]]
    elif k in ("opeq", "decodeop"):
        e.update(o)
    elif k in ("decode", "parse", "bravais", "numeq", "listeq", "mateq", "signs"):
        e["out"] = o
    elif k == "wrap":
        v, r = proj.ints([[ev["n"] * x for x in w] for w in o], 10 ** 6) if proj.allfinite(o) else (None, BIG)
        e["out"], e["res"] = (v, proj.micro(r)) if v is not None else ([], BIG)
    elif k == "formula":
        e["formula"], e["reduced"] = o["formula"], o["reduced"]
    elif k == "census":
        e["names"] = sorted(ctx.names, key=ctx.names.get)
        e["formula"], e["reduced"], e["min"], e["num_sites"] = o["formula"], o["reduced"], o["min"], o["num_sites"]
        e["keys"] = sorted(o["counts"]) == e["names"] == sorted(o["inds"])
        e["counts"] = [o["counts"].get(x, -1) for x in e["names"]]
        cells = o["volume"] / abs(det(ctx.lref)) if proj.allfinite(o["volume"]) else 0.0
        e["cells"] = int(round(cells)) if abs(cells) < 10 ** 6 else 0
        e["res"] = proj.micro(abs(cells - e["cells"]))
    elif k == "minele":
        e["min"], e["num_sites"] = o["min"], o["num_sites"]
        e["keys"] = sorted(o["counts"]) == e["names"] == sorted(o["inds"])
        e["counts"] = [o["counts"].get(x, -1) for x in e["names"]]
        e["inds"] = [o["inds"].get(x, -1) for x in e["names"]]
    elif k == "scalars":
        e.update(scalars(o, ctx))
    elif k in ("tofrac", "tocart"):
        ok = proj.allfinite(o) and len(o) == len(ev["pts"])
        cart = ([mv(ctx.last_lattice, f) for f in o] if k == "tofrac" else o) if ok else []
        v, r = proj.ints([[ctx.n * x for x in mv(ctx.inv, c)] for c in cart], 10 ** 5) if ok else (None, BIG)
        e["out"], e["res"] = (v, proj.micro(r)) if v is not None else ([], BIG)
    elif k == "tmat":
        a, r1 = tm(o["from_saved"], det(ev["_saved"]))
        b, r2 = tm(o["to_saved"], det(cell))
        e["fwd"], e["bwd"], e["res"] = a, b, max(r1, r2)
    elif k == "relate":
        v, r = proj.ints(mm(ev["from"], o), 10 ** 5) if proj.allfinite(o) else (None, BIG)
        e["out"], e["res"] = (v, proj.micro(r)) if v is not None else ([[0] * 3] * 3, BIG)
    return e


def tm(m, d):
    if not proj.allfinite(m):
        return [[0] * 3] * 3, BIG
    i, r = proj.ints([[d * x for x in row] for row in m], 10 ** 4)
    return (i, proj.micro(r)) if i else ([[0] * 3] * 3, BIG)


def scalars(o, ctx):
    """squares of lengths, twice the scalar products, 8 V^2 in units of the scale of the crystal"""
    flat = [o[k] for k in ("a", "b", "c", "alpha", "beta", "gamma", "volume")]
    bad = {"a2": 0, "b2": 0, "c2": 0, "xi": 0, "eta": 0, "zeta": 0, "metric": [[0] * 3] * 3, "v8": 0, "vsign": 0,
           "dual": [[0] * 3] * 3, "super": [[0] * 3] * 4, "num_sites": o["num_sites"], "res": BIG}
    if not (proj.allfinite(flat) and proj.allfinite(o["metric"]) and proj.allfinite(o["recip"]) and proj.allfinite(o["delaunay"])):
        return bad
    s2 = ctx.scale ** 2
    a, b, c = o["a"], o["b"], o["c"]
    cs = lambda x: math.cos(math.radians(o[x]))
    row1 = [[a * a / s2, b * b / s2, c * c / s2, 2 * b * c * cs("alpha") / s2, 2 * a * c * cs("beta") / s2, 2 * a * b * cs("gamma") / s2]]
    v1, r1 = proj.ints(row1, 10 ** 6)
    v2, r2 = proj.ints([[2 * x / s2 for x in r] for r in o["metric"]], 10 ** 6)
    v3, r3 = proj.ints([[8 * (o["volume"] / ctx.scale ** 3) ** 2]], 10 ** 8)
    # reciprocal vectors against the cell vectors the session itself works with
    lat = ctx.last_lattice
    v4, r4 = proj.ints([[x / (2 * math.pi) for x in r] for r in mm(tr(o["recip"]), lat)], 100)
    v5, r5 = proj.ints([mv(ctx.inv, [o["delaunay"][i][j] for i in range(3)]) for j in range(4)], 1000)
    if None in (v1, v2, v3, v4, v5):
        return bad
    # relative precision is what floating point offers for large values
    big = max(1.0, max(abs(x) for x in v1[0]), v3[0][0] / 10.0)
    res = max(r1 / big, r2 / big, r3 / big, r4, r5)
    return {"a2": v1[0][0], "b2": v1[0][1], "c2": v1[0][2], "xi": v1[0][3], "eta": v1[0][4], "zeta": v1[0][5],
            "metric": v2, "v8": v3[0][0], "vsign": 1 if o["volume"] > 0 else -1, "dual": v4, "super": v5,
            "num_sites": o["num_sites"], "res": proj.micro(res)}


def trace(sess, steps):
    """steps: what the driver reported; fewer steps than operations when a call did not return"""
    out = []
    cell = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if steps and "crash" in steps[0] and sess.evs[0]["k"] == "new" and len(sess.evs) > 1:
        # the process died somewhere in this session: charge the first call after the construction
        steps = [None, steps[0]]
    for i, (ev, op) in enumerate(zip(sess.evs, sess.ops)):
        if i >= len(steps):
            break
        if steps[i] is None:
            continue
        if ev["k"] == "scalars":
            sess.ctx.scale = sess.scale
        e = event(ev, op, steps[i], sess.ctx, cell)
        out.append(e)
        if e["st"] == "ok" and ev["k"] in STRUCT and not op.get("peek"):
            cell = e["o"]["t"]
            if sess.ctx:
                sess.ctx.last_lattice = steps[i]["ok"]["lattice"]
    t = {"ev": out}
    if sess.c is not None:
        t["c"] = sess.c.json()
    return t
