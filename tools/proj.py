"""From the numbers the implementation returned to the integers the specification speaks about."""
from geom import adj, cols, det, mm, mv, norm

BIG = 10 ** 9
TMAX = 40
NOSTRUCT = {"t": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "s": [], "hand": 1, "res": BIG, "cres": BIG,
            "same_views": False, "ft": [0, 0, 0]}


def finite(x):
    return isinstance(x, (int, float)) and abs(x) < 1e9


def allfinite(o):
    return all(allfinite(x) for x in o) if isinstance(o, list) else finite(o)


def micro(x):
    return min(BIG, int(x * 1e6))


class Ctx:
    """what is needed to express results in the reference basis of a crystal"""

    def __init__(self, lref, n, names, rt=1):
        self.lref = lref
        d = det(lref)
        self.inv = [[x / d for x in r] for r in adj(lref)]
        self.hand = 1 if d > 0 else -1
        self.n = n
        self.names = {s: i + 1 for i, s in enumerate(names)}
        self.rt = rt


def ints(m, bound):
    """nearest integers and the largest distance to them; None if out of bounds"""
    out, res = [], 0.0
    for r in m:
        row = []
        for x in r:
            k = round(x)
            if abs(k) > bound:
                return None, BIG
            res = max(res, abs(x - k))
            row.append(k)
        out.append(row)
    return out, res


def structure(o, ctx, dtol):
    lat, frac, cart = o["lattice"], o["frac"], o["cart"]
    if not (allfinite(lat) and allfinite(frac) and allfinite(cart)):
        return dict(NOSTRUCT)
    t, res = ints(mm(ctx.inv, lat), TMAX)
    if t is None:
        return dict(NOSTRUCT)
    pos, res2 = ints([[ctx.n * x for x in mv(ctx.inv, mv(lat, f))] for f in frac], 30 * TMAX * ctx.n)
    if pos is None:
        return dict(NOSTRUCT)
    cres = 0.0
    for f, c in zip(frac, cart):
        a = mv(lat, f)
        cres = max(cres, max(abs(ctx.n * x) for x in mv(ctx.inv, [a[i] - c[i] for i in range(3)])))
    lens = [norm(c) for c in cols(lat)]
    # the tolerance is an integer number of ten-thousandths of the cell vector, rounded towards leniency
    ft = [min(9999, int(10000 * dtol / x)) if x > 0 else 0 for x in lens]
    sp = [ctx.names.get(s, 0) for s in o["species"]]
    return {"t": t, "s": [[a] + p for a, p in zip(sp, pos)],
            "hand": 1 if det(lat) > 0 else -1, "res": micro(max(res, res2)), "cres": micro(cres),
            "same_views": len(frac) == len(cart) == len(sp), "ft": ft}


def ops(lst, unit, bound=100):
    """rotations as they are, translations in 1/unit of the cell vectors"""
    out, res = [], 0.0
    for o in lst:
        if not allfinite(o["t"]):
            return [], BIG
        v, r = ints([[unit * x for x in o["t"]]], bound * unit if unit < 1000 else bound * 1000)
        if v is None or any(abs(x) > 127 for row in o["r"] for x in row):
            return [], BIG
        res = max(res, r)
        out.append([list(row) for row in o["r"]] + [v[0]])
    return out, micro(res)
