"""Workloads: each returns a list of sessions for a seeded random generator and a size."""
import itertools
import math

import gen
from gen import Real, Session, present
from geom import I3, adj, amax, det, mm

TOL = {}


def begin(rng, crystal, t, real=None, rt=1, **kw):
    real = real or Real(rng, crystal)
    s = Session(crystal, real.ctx(rt))
    s.real = real
    s.scale = real.scale
    s.add(*present(rng, real, t, **kw))
    return s


def small_cell(rng, dmax=4, p1=0.4):
    d = 1 if rng.random() < p1 else rng.randint(2, dmax)
    return gen.supercell(rng, d, steps=rng.choice((0, 1, 3, 5)), bound=5)


def some_form(rng, forms):
    return forms.pick(rng) if rng.random() < 0.6 else gen.family_form(rng)


class Extent:
    """how large the entries of the current cell can be; beyond 40 the specification does not represent it"""

    def __init__(self, t):
        self.t, self.b = t, amax(t)

    def after(self, m):
        return amax(mm(self.t, m)) if self.t else self.b * max(sum(abs(r[j]) for r in m) for j in range(3))

    def matrix(self, make, limit=36):
        """a matrix the cell can be transformed by"""
        for _ in range(30):
            m = make()
            if self.after(m) <= limit:
                break
        else:
            m = [r[:] for r in I3]
        self.b = self.after(m)
        self.t = self.t and mm(self.t, m)
        return m

    def reduced(self, k):
        if k != "normalize":                 # the cell is chosen by the implementation
            self.t = None
            self.b = self.b if k == "primitive" else min(self.b, 9)


def histories(rng, size, forms):
    """random sequences of calls on one structure"""
    out = []
    for _ in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=6)
        t = small_cell(rng, 3)
        s = begin(rng, c, t)
        dtol = s.real.dtol(rng)
        vol = abs(det(t))
        ext = Extent(t)
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(("transform", "normalize", "primitive", "niggli", "delaunay", "delaunay", "stdconv", "stdprim"))
            if k == "transform":
                d = rng.randint(1, 3)
                if vol * d * len(c.sites) > 60 or vol * d > 8:
                    d = 1
                vol *= d
                m = ext.matrix(lambda: gen.supercell(rng, d, steps=2, bound=3))
                s.add({"op": k, "m": m, "tol": dtol}, {"k": k, "m": m, "den": 1})
            else:
                ext.reduced(k)
                if k == "delaunay":
                    full = rng.random() < 0.4
                    s.add({"op": k, "full": full, "dtol": dtol}, {"k": k, "full": full})
                elif k == "normalize":
                    s.add({"op": k, "tol": dtol}, {"k": k})
                else:
                    s.add({"op": k, "dtol": dtol}, {"k": k})
                if k in ("primitive", "stdprim"):
                    vol = 1
                if k == "stdconv":
                    vol = 4
        out.append(s)
    return out


def grid_matrix(t, t2):
    """the matrix taking cell t to cell t2 as (integer matrix, denominator)"""
    d = det(t)
    m = mm(adj(t), t2)
    if d < 0:
        m, d = [[-x for x in r] for r in m], -d
    import math
    g = d
    for r in m:
        for x in r:
            g = math.gcd(g, x)
    return [[x // g for x in r] for r in m], d // g


def fmat(m, den):
    return [[x / den for x in r] for r in m]


def transforms(rng, size, forms):
    """changes of cell by integer and rational matrices, there and back"""
    out = []
    hnfs = all_hnf(4)
    for i in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=6)
        t = small_cell(rng, 4)
        s = begin(rng, c, t)
        tol = s.real.dtol(rng)
        cur = t
        for _ in range(rng.choice((1, 2, 2, 3))):
            kind = rng.random()
            if kind < 0.35:
                m, den = (hnfs[(i * 7 + rng.randrange(3)) % len(hnfs)], 1) if rng.random() < 0.5 else (gen.supercell(rng, rng.randint(1, 6), 3, 4), 1)
                new = mm(cur, m)
            else:
                new = gen.supercell(rng, rng.choice((1, 1, 2, 3, 4, 6)), 3, 4)
                m, den = grid_matrix(cur, new)
            if abs(det(new)) * len(c.sites) > 72 or amax(new) > 12 or amax(m) > 40:
                continue
            s.add({"op": "save"}, {"k": "save"})
            s.add({"op": "transform", "m": fmat(m, den), "tol": tol}, {"k": "transform", "m": m, "den": den})
            prev, cur = cur, new
            if rng.random() < 0.4:
                m, den = grid_matrix(cur, prev)
                if amax(m) <= 40:
                    s.add({"op": "transform", "m": fmat(m, den), "tol": tol}, {"k": "transform", "m": m, "den": den})
                    cur = prev
        out.append(s)
    return out


def all_hnf(dmax):
    out = []
    for d in range(1, dmax + 1):
        for a in range(1, d + 1):
            if d % a:
                continue
            for b in range(1, d // a + 1):
                if (d // a) % b:
                    continue
                c = d // a // b
                for p in range(b):
                    for q in range(c):
                        for r in range(c):
                            out.append([[a, 0, 0], [p, b, 0], [q, r, c]])
    return out


def primitives(rng, size, forms, dmax=8):
    """supercells of every shape, reduced to a primitive cell"""
    out = []
    hnfs = all_hnf(dmax)
    for i in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=8)
        h = hnfs[rng.randrange(len(hnfs))]
        if len(c.sites) <= 3 and rng.random() < 0.15:            # many cells
            h = gen.hnf(rng, rng.choice((9, 12, 16, 18, 24, 27))) if rng.random() < 0.7 else rng.choice(BLOCKS)
        if det(h) * len(c.sites) > 80:
            h = gen.hnf(rng, rng.randint(1, 3))
        if len(c.sites) <= 8 and i % 150 == 0:                   # more than a hundred sites
            h = rng.choice([b for b in LARGE if 100 < det(b) * len(c.sites) <= 320] or [h])
        t = mm(gen.unimodular(rng, 2), mm(h, gen.unimodular(rng, rng.choice((0, 1, 3)))))
        if amax(t) > 12:
            t = h
        if amax(c.g) <= 20 and rng.random() < 0.1:
            k = mm(stretched(rng, 30), gen.hnf(rng, rng.randint(1, 4)))
            t = k if amax(k) <= 38 else t
        s = begin(rng, c, t)
        dtol = s.real.dtol(rng)
        s.add({"op": "primitive", "dtol": dtol, "twice": True}, {"k": "primitive"})
        if rng.random() < 0.5:
            s.add({"op": "primitive", "dtol": dtol}, {"k": "primitive"})
        out.append(s)
    return out


LARGE = [[[a, 0, 0], [0, b, 0], [0, 0, c]] for a, b, c in
         ((3, 3, 3), (4, 4, 2), (3, 4, 4), (4, 4, 4), (2, 5, 4), (5, 5, 3), (5, 5, 5), (7, 5, 3), (3, 11, 3), (6, 6, 6), (2, 3, 17))]
BLOCKS = [[[2, 0, 0], [0, 2, 0], [0, 0, 2]], [[3, 0, 0], [0, 3, 0], [0, 0, 2]], [[3, 0, 0], [0, 3, 0], [0, 0, 3]],
          [[2, 0, 0], [0, 3, 0], [0, 0, 4]], [[4, 0, 0], [0, 4, 0], [0, 0, 1]], [[5, 0, 0], [0, 5, 0], [0, 0, 1]]]


def pseudo_translations(rng, size, forms):
    """crystals with translations that only look like ones"""
    out = []
    for _ in range(size):
        c = gen.pseudo_crystal(rng, some_form(rng, forms), 12)
        s = begin(rng, c, gen.supercell(rng, rng.choice((1, 1, 2, 3, 4) if len(c.sites) <= 8 else (1, 2)), 2, 5))
        dtol = s.real.dtol(rng)
        s.add({"op": "primitive", "dtol": dtol, "twice": True}, {"k": "primitive"})
        k = rng.choice(("stdconv", "stdprim", "niggli", "primitive"))
        s.add({"op": k, "dtol": dtol}, {"k": k})
        out.append(s)
    return out


def rod(rng, forms, most=72):
    """a crystal with neighbouring sites along one axis, and a cell much longer in this direction"""
    while True:
        n = rng.choice((1, 2, 3, 4, 5, 6))
        g = some_form(rng, forms)
        axis = rng.randrange(3)
        k = rng.choice((6, 8, 10, 12, 16, 20, 24))
        pos = {tuple(rng.randrange(n) for _ in range(3)) for _ in range(rng.randint(1, 2))}
        p = list(rng.choice(sorted(pos)))
        p[axis] = (p[axis] + 1) % n
        pos.add(tuple(p))
        if len(pos) * k > most:
            continue
        nsp = rng.choice((1, 1, 2))
        sites = [(rng.randint(1, nsp),) + p for p in sorted(pos)]
        used = sorted({x[0] for x in sites})
        ren = {u: i + 1 for i, u in enumerate(used)}
        c = gen.Crystal(g, n, [(ren[x[0]],) + x[1:] for x in sites], gen.pick_names(rng, len(used)))
        if not c.primitive():
            continue
        return c, [[(k if i == axis else 1) if i == j else 0 for j in range(3)] for i in range(3)]


def elongated(rng, size, forms):
    """cells much longer in one direction, with neighbouring sites along it, and tolerances as large as the domain allows"""
    out = []
    while len(out) < size:
        c, long = rod(rng, forms)
        u = gen.unimodular(rng, rng.choice((0, 1, 2)), 2)
        if amax(mm(u, long)) > 30:
            continue
        top = rng.random() < 0.6
        start = rng.choice((True, False, False))
        s = begin(rng, c, mm(u, long) if start else u)
        dtol = min(s.real.sep / 6, s.real.amin / 30) * (0.99 if top else rng.choice((0.5, 0.1)))
        if start:
            a, b = rng.sample([i for i in range(3)], 2)
            m = [r[:] for r in I3]
            m[a][b] = rng.choice((-1, 1))
            s.add({"op": "transform", "m": m, "tol": dtol}, {"k": "transform", "m": m, "den": 1})
        else:
            s.add({"op": "transform", "m": long, "tol": dtol}, {"k": "transform", "m": long, "den": 1})
        s.add({"op": "normalize", "tol": dtol}, {"k": "normalize"})
        if rng.random() < 0.5:
            s.add({"op": "primitive", "dtol": dtol}, {"k": "primitive"})
        out.append(s)
    return out


def faces(rng, size, forms):
    """sites a fraction of the tolerance inside and outside the faces of the cell, on a fine grid"""
    out = []
    while len(out) < size:
        g = some_form(rng, forms)
        t = compact_cell(rng, g, 2) if rng.random() < 0.6 else gen.unimodular(rng, 2, 2)
        if t is None:
            continue
        n, steps = rng.choice(((40, 1.3), (60, 1.3), (60, 0.7), (90, 2.4), (120, 2.4), (120, 3.6)))
        near = lambda: rng.choice((0, 0, -1, 1, -2, 2, -3, 3, -4, rng.randrange(n)))
        pos = {tuple(near() % n for _ in range(3)) for _ in range(rng.randint(1, 3))}
        nsp = rng.choice((1, 2))
        sites = [(rng.randint(1, nsp),) + p for p in sorted(pos)]
        used = sorted({x[0] for x in sites})
        ren = {u: i + 1 for i, u in enumerate(used)}
        c = gen.Crystal(g, n, [(ren[x[0]],) + x[1:] for x in sites], gen.pick_names(rng, len(used)))
        if not c.primitive() or not min_dist_ok(c, 6.5 * steps) or not no_near_translation(c, 6.5 * steps):
            continue
        s = begin(rng, c, t)
        dtol = s.real.sep * steps
        for _ in range(rng.choice((1, 1, 2))):
            k = rng.choice(("normalize", "normalize", "transform", "primitive", "niggli", "delaunay", "stdconv", "stdprim"))
            if k == "transform":
                m = gen.supercell(rng, rng.choice((1, 1, 2)), 1, 2)
                s.add({"op": k, "m": m, "tol": dtol}, {"k": k, "m": m, "den": 1})
            elif k == "delaunay":
                s.add({"op": k, "dtol": dtol, "full": False}, {"k": k, "full": False})
            else:
                s.add({"op": k, "dtol": dtol} if k != "normalize" else {"op": k, "tol": dtol}, {"k": k})
        out.append(s)
    return out


def skewed(rng, steps, bound):
    m = [r[:] for r in I3]
    for _ in range(steps):
        e = [r[:] for r in I3]
        i, j = rng.sample(range(3), 2)
        e[i][j] = rng.choice((-3, -2, -1, -1, 1, 1, 2, 3))
        k = mm(m, e)
        if amax(k) <= bound:
            m = k
    return m


def stretched(rng, bound):
    """a basis with vectors many times longer than those of the lattice, which takes hundreds of steps to reduce"""
    m = [r[:] for r in I3]
    for _ in range(rng.randint(2, 7)):
        e = [r[:] for r in I3]
        i, j = rng.sample(range(3), 2)
        e[i][j] = rng.randint(-bound, bound)
        k = mm(m, e)
        if amax(k) <= bound:
            m = k
    return m


def loosest(s):
    """a reduction tolerance well below the differences between scalar products in the lattice of a session"""
    return 0.25 * s.scale ** 2 / abs(gen.det3(s.ops[0]["lattice"])) ** (1 / 3)


def reductions(rng, size, forms, kinds=("niggli", "delaunay")):
    """every enumerated reduced form, presented by skewed bases"""
    out = []
    for i in range(size):
        g = forms.pick(rng, i) if i % 3 else some_form(rng, forms)
        c = gen.random_crystal(rng, g, max_sites=4) if rng.random() < 0.5 else gen.Crystal(g, 1, [(1, 0, 0, 0)], ["Fe"])
        far = amax(g) <= 60 and rng.random() < 0.15
        t = mm(skewed(rng, 12 if far else rng.choice((0, 1, 2, 4, 8)), 22 if far else 9), gen.hnf(rng, rng.choice((1, 1, 1, 2, 3))))
        if amax(t) > (30 if far else 14):
            t = gen.unimodular(rng)
        if amax(g) <= 20 and rng.random() < 0.15:
            t = stretched(rng, 38)
        # scalar products well below and well above one
        tiny = rng.random() < 0.25
        s = begin(rng, c, t, real=Real(rng, c, scale=math.exp(rng.uniform(math.log(0.12), math.log(0.8)))) if tiny else None)
        dtol = s.real.dtol(rng)
        for k in kinds:
            op, ev = {"op": k, "dtol": dtol, "twice": True, "peek": True, "go_on": True}, {"k": k}
            if k == "niggli":
                op["tol"] = rng.choice((1e-5, 1e-4, 1e-6, 1e-7, loosest(s), 0.3 * loosest(s)))
            if k == "delaunay":
                op["full"] = ev["full"] = rng.random() < 0.45
            s.add(op, ev)
        if rng.random() < 0.3:                       # reduce what is already reduced
            k = rng.choice(kinds)
            for _ in range(2):
                op, ev = {"op": k, "dtol": dtol}, {"k": k}
                if k == "delaunay":
                    op["full"] = ev["full"] = False
                s.add(op, ev)
        out.append(s)
    return out


def niggli_only(rng, size, forms):
    return reductions(rng, size, forms, ("niggli",))


def delaunay_only(rng, size, forms):
    return reductions(rng, size, forms, ("delaunay",))


def std_calls(s, dtol, sg=True):
    base = {"dtol": dtol, "go_on": True}
    s.add(dict(base, op="stdconv", peek=True, twice=True), {"k": "stdconv"})
    s.add(dict(base, op="stdprim", peek=True, twice=True), {"k": "stdprim"})
    t0 = next(e["t0"] for e in reversed(s.evs) if e["k"] == "new")
    if sg and spread(s.c.g, t0) <= 120:
        s.add(dict(base, op="sginfo"), {"k": "sginfo"})


def spread(g, t):
    """no isometry has a larger matrix element in this cell; the implementation stores them in a byte"""
    h = gen.congr(g, t)
    d, a = det(h), adj(h)
    return max(h[j][j] for j in range(3)) ** 0.5 * max(a[i][i] / d for i in range(3)) ** 0.5


def standards(rng, size, forms, sg=False):
    """standard cells of every enumerated lattice"""
    out = []
    for i in range(size):
        g = forms.pick(rng, i) if i % 3 else some_form(rng, forms)
        c = gen.random_crystal(rng, g, max_sites=4) if rng.random() < 0.4 else gen.Crystal(g, 1, [(1, 0, 0, 0)], ["Fe"])
        s = begin(rng, c, stretched(rng, 38) if amax(g) <= 20 and rng.random() < 0.1 else small_cell(rng, 4))
        std_calls(s, s.real.dtol(rng), sg)
        out.append(s)
    return out


def bravais_groups(rng, size, forms):
    """lattices and simple decorations of them: always identifiable"""
    out = []
    for i in range(size):
        g = forms.pick(rng, i) if i % 3 else some_form(rng, forms)
        sites, n, names = [(1, 0, 0, 0)], 1, ["Fe"]
        if rng.random() < 0.5:
            n = 2
            sites.append((2,) + rng.choice(((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1))))
            names = gen.pick_names(rng, 2)
        c = gen.Crystal(g, n, sites, names)
        s = begin(rng, c, small_cell(rng, 4))
        std_calls(s, s.real.dtol(rng))
        out.append(s)
    return out


def long_cells(rng, size, forms):
    """cells much longer in one direction than in the others, identified with tolerances as large as the domain allows"""
    out = []
    while len(out) < size:
        g = some_form(rng, forms)
        c = gen.random_crystal(rng, g, max_sites=3) if rng.random() < 0.5 else gen.Crystal(g, 1, [(1, 0, 0, 0)], ["Fe"])
        k, e = rng.choice((5, 6, 8, 10, 12, 16)), rng.randrange(3)
        t = mm(gen.unimodular(rng, rng.choice((0, 1))), [[(k if i == e else 1) if i == j else 0 for j in range(3)] for i in range(3)])
        if amax(t) > 30 or amax(g) > 200 or len(c.sites) * k > 32:
            continue
        s = begin(rng, c, t)
        std_calls(s, min(s.real.sep / 6, s.real.amin / 6) * rng.choice((0.99, 0.99, 0.5)))
        out.append(s)
    return out


def presentations(rng, size, forms):
    """the same crystal presented several times in one session"""
    out = []
    for i in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=4)
        real = Real(rng, c)
        dtol = real.dtol(rng)
        s = Session(c, real.ctx())
        s.real, s.scale = real, real.scale
        for _ in range(3):
            s.add(*present(rng, real, small_cell(rng, 3)))
            std_calls(s, dtol)
            s.add({"op": "primitive", "dtol": dtol, "go_on": True}, {"k": "primitive"})
            s.add({"op": "niggli", "dtol": dtol, "go_on": True}, {"k": "niggli"})
        out.append(s)
    return out


def chains(rng, size, forms):
    """every result is the input of the next call; in between the cell is counted, standardized, reduced and identified"""
    out = []
    for i in range(size):
        c = gen.random_crystal(rng, forms.pick(rng, i) if i % 2 else some_form(rng, forms), max_sites=4)
        t = small_cell(rng, 3)
        if i % 10 == 3:
            c, t = rod(rng, forms, 50)
        s = begin(rng, c, t)
        dtol = s.real.dtol(rng)
        ext, vol = Extent(t), abs(det(t))
        prev = None
        for _ in range(rng.randint(3, 6)):
            # now and then the call that was made last, on its own result
            k = prev if prev and rng.random() < 0.3 else rng.choice(
                ("transform", "normalize", "primitive", "niggli", "delaunay", "stdconv", "stdconv", "stdprim", "stdprim"))
            op, ev = {"op": k, "dtol": dtol}, {"k": k}
            if k == "transform":
                d = rng.choice((1, 2, 3)) if vol <= 3 else 1
                if vol == 1 and rng.random() < 0.25:               # much longer in one direction
                    d = rng.choice([x for x in (9, 12, 16, 24, 30) if x * len(c.sites) <= 60] or [2])
                    e = rng.randrange(3)
                    m = ext.matrix(lambda: [[(d if i == e else 1) if i == j else 0 for j in range(3)] for i in range(3)])
                    d = abs(det(m))
                else:
                    m = ext.matrix(lambda: gen.supercell(rng, d, steps=2, bound=3))
                vol *= d
                op, ev = {"op": k, "m": m, "tol": dtol}, {"k": k, "m": m, "den": 1}
            else:
                prev = k
                ext.reduced(k)
                if k == "normalize":
                    op = {"op": k, "tol": dtol}
                elif k == "delaunay":
                    op["full"] = ev["full"] = False
                vol = 1 if k in ("primitive", "stdprim") else 4 if k == "stdconv" else vol
            s.add(op, ev)
            s.add({"op": "census"}, {"k": "census"})
            for peek in rng.sample(("stdconv", "stdprim", "niggli", "primitive", "sginfo"), rng.choice((1, 2, 2, 3))):
                if peek == "sginfo":
                    if k in ("niggli", "delaunay", "stdconv", "stdprim") or ext.t and spread(c.g, ext.t) <= 120:
                        s.add({"op": "stdprim", "dtol": dtol, "go_on": True, "peek": True}, {"k": "stdprim"})
                        s.add({"op": peek, "dtol": dtol, "go_on": True}, {"k": peek})
                else:
                    s.add({"op": peek, "dtol": dtol, "go_on": True, "peek": True}, {"k": peek})
        out.append(s)
    return out


# ------------------------------------------------------------------ space groups

def std_bases(rng, reqs):
    """reqs: list of (form, cell).  Lets the implementation choose its standard primitive basis for the bare
    lattice presented by that cell; returns (placement, integer basis or None)"""
    import common
    import trace
    ss = []
    for g, t in reqs:
        s = begin(rng, gen.Crystal(g, 1, [(1, 0, 0, 0)], ["Fe"]), t)
        s.add({"op": "stdprim", "dtol": s.real.amin / 60, "peek": True}, {"k": "stdprim"})
        ss.append(s)
    out = []
    for s, r in zip(ss, common.run_sessions([s.driver() for s in ss])):
        t = None
        if r and len(r) == 2 and "ok" in r[1]:
            e = trace.trace(s, r)["ev"][1]
            if e["o"]["res"] <= 100 and abs(det(e["o"]["t"])) == 1:
                t = e["o"]["t"]
        out.append((s.real, t))
    return out


def group_in(t, ops, n):
    """tabulated operations (basis t, twelfths) in the reference basis, translations in 1/n"""
    ti = gen.iinv(t)
    out = []
    for r1, r2, r3, v in ops:
        r = mm(mm(t, [r1, r2, r3]), ti)
        w = gen.mv(t, [x * n // 12 for x in v])
        out.append((r, w))
    return out


def table_crystal(rng, number, g, t, max_sites=26, generic=None):
    """orbits of a tabulated group; None if it does not come out small and primitive"""
    if generic is None:
        generic = rng.random() < 0.7
    for _ in range(40):
        n = rng.choice((24, 24, 36, 48, 60))
        ops = group_in(t, gen.SG[number - 1]["ops"], n)
        room = max(1, max(max_sites, 48 if generic else 0) // len(ops))
        if generic:                       # as many general orbits as fit: the group is hardly ever larger
            plan = [True] * min(room, 3) + [False] * rng.randint(0, 1)
        else:
            plan = [False] * rng.randint(0, 2) + [len(ops) <= max_sites]
        sites = {}
        for sp, general in enumerate(plan, 1):
            p = [rng.randrange(n) if general else rng.choice((0, n // 2, n // 4, 3 * n // 4, n // 3, 0, n // 12 * rng.randrange(12))) for _ in range(3)]
            if not general and rng.random() < 0.5:
                x = rng.randrange(n)
                p = [p[0] if rng.random() < 0.5 else x, p[1] if rng.random() < 0.5 else x, p[2] if rng.random() < 0.5 else x]
            for q in gen.orbit_sites(ops, n, rng.choice((sp, sp, 1)), gen.mv(t, p)):
                sites.setdefault(q[1:], q[0])
        if len(sites) > max(max_sites, 50 if generic else 0):
            continue
        used = sorted(set(sites.values()))
        ren = {u: i + 1 for i, u in enumerate(used)}
        c = gen.Crystal(g, n, [(ren[v],) + k for k, v in sites.items()], gen.pick_names(rng, len(used)))
        if c.primitive() and min_dist_ok(c, 2):
            return c
    return None


def near_on_grid(c, p, q, least):
    """two positions closer than a few grid steps (in units of the shortest grid vector), modulo the lattice"""
    g = c.g
    lim = 2 * (least * c.sep() * c.n) ** 2 - 1e-6      # in units of g over the grid
    for w in itertools.product((-1, 0, 1), repeat=3):
        d = [(p[k] - q[k]) % c.n + c.n * w[k] for k in range(3)]
        if sum(d[a] * g[a][b] * d[b] for a in range(3) for b in range(3)) < lim:
            return True
    return False


def min_dist_ok(c, least=3):
    """no two sites closer than that"""
    return not any(near_on_grid(c, a[1:], b[1:], least) for a, b in itertools.combinations(c.sites, 2))


def no_near_translation(c, least):
    """no translation that would be one if positions were known only that well"""
    for a, b in itertools.permutations(c.sites, 2):
        if a[0] == b[0]:
            d = [y - x for x, y in zip(a[1:], b[1:])]
            moved = [(s[0], [x + y for x, y in zip(s[1:], d)]) for s in c.sites]
            if all(any(s[0] == m[0] and near_on_grid(c, m[1], s[1:], least) for s in c.sites) for m in moved):
                return False
    return True


ORDER = {"triclinic": 2, "monoclinic": 4, "orthorhombic": 8, "rhombohedral": 12, "tetragonal": 16, "hexagonal": 24, "cubic": 48}


def lattice_of(rng, number):
    """a form of the lattice type of the space-group type, without accidental symmetry"""
    e = gen.SG[number - 1]
    while True:
        g = gen.family_form(rng, e["sys"], e["cent"], 10)
        if len(gen.aut(g)) == ORDER[e["sys"]]:
            return g


def table_groups(rng, size, forms, numbers=None, dmax=3, multi=1, max_sites=26):
    """crystals of tabulated space-group types; size = how often the whole table is gone through"""
    out = []
    for rep in range(max(1, size)):
        todo = list(numbers or range(1, 231))
        for attempt in range(8):
            if not todo:
                break
            cells = [gen.supercell(rng, 1 if len(gen.SG[k - 1]["ops"]) > 12 or rng.random() < 0.6 else rng.randint(2, dmax), 2, 4) for k in todo]
            reqs = [(lattice_of(rng, k), t) for k, t in zip(todo, cells)]
            left = []
            for k, cell, (real, t) in zip(todo, cells, std_bases(rng, reqs)):
                c = None if t is None else table_crystal(rng, k, real.c.g, t, max_sites if attempt < 5 else 50)
                if c is None:
                    left.append(k)
                    continue
                real = real.holding(c)
                dtol = real.dtol(rng)
                s = Session(c, real.ctx())
                s.real, s.scale, s.number = real, real.scale, k
                for i in range(multi):
                    s.add(*present(rng, real, cell if i == 0 else gen.supercell(rng, rng.randint(1, 2) if len(c.sites) <= 12 else 1, 2, 4)))
                    std_calls(s, dtol)
                out.append(s)
            todo = left
        if todo:
            import common
            common.log("no small crystal found for types", todo)
    return out


# ------------------------------------------------------------------ groups without a crystal

def close_ops(gens, n):
    e = (((1, 0, 0), (0, 1, 0), (0, 0, 1)), (0, 0, 0))
    out = {e}
    front = [e]
    while front:
        new = []
        for r, t in front:
            for g, u in gens:
                m = (tuple(map(tuple, mm(g, r))), tuple((a + b) % n for a, b in zip(gen.mv(g, t), u)))
                if m not in out:
                    out.add(m)
                    new.append(m)
        front = new
    return out


def random_group_ops(rng, centred=True):
    """operations of a tabulated type in a random setting: basis changed, origin moved; returns (ops, n)"""
    import math
    n = rng.choice((12, 24))
    e = rng.choice(gen.SG)
    ops = [((tuple(o[0]), tuple(o[1]), tuple(o[2])), tuple(x * n // 12 for x in o[3])) for o in e["ops"]]
    if centred and e["cent"] != "P" and rng.random() < 0.5:
        m, den = gen.PRIM[e["cent"]]
        conv = [[int(x * den) for x in r] for r in gen.inv(m)]          # conventional cell in the primitive basis
        n2 = n * abs(det(conv))
        ops = rebase(ops, n, conv)
        n = n2
    u = gen.unimodular(rng, rng.choice((0, 1, 2)), 2)
    ui = gen.iinv(u)
    w = [rng.randrange(n) if rng.random() < 0.5 else 0 for _ in range(3)]
    out = []
    for r, t in ops:
        # origin shift by w: t + (R - 1) w
        t = [t[i] + gen.mv(r, w)[i] - w[i] for i in range(3)]
        out.append((tuple(map(tuple, mm(mm(ui, r), u))), tuple(x % n for x in gen.mv(ui, t))))
    return out, n


def rebase(ops, n, m):
    """operations in the supercell m, translations in 1/(n |det m|)"""
    d = abs(det(m))
    sg = 1 if det(m) > 0 else -1
    a = [[sg * x for x in r] for r in adj(m)]
    out = set()
    reps = gen.coset_reps(m)
    for r, t in ops:
        rr = mm(a, mm(r, m))
        if any(x % d for row in rr for x in row):
            continue
        for v in reps:
            out.add((tuple(tuple(x // d for x in row) for row in rr), tuple(x % (n * d) for x in gen.mv(a, [t[i] + n * v[i] for i in range(3)]))))
    return sorted(out)


def op_json(o, n, rng=None, noise=0.0):
    return {"r": [list(x) for x in o[0]], "t": [x / n + (rng.uniform(-noise, noise) if noise else 0.0) for x in o[1]]}


def op_ev(o):
    return [list(x) for x in o[0]] + [list(o[1])]


def generated(rng, size, forms=None):
    """groups from generators"""
    out = []
    for _ in range(size):
        ops, n = random_group_ops(rng)
        gens = rng.sample(ops, min(len(ops), rng.choice((1, 2, 2, 3, 3, 4))))
        if rng.random() < 0.1:
            gens = list(ops)
        if len(close_ops(gens, n)) > (200 if rng.random() < 0.1 else 100) or amax([r for o in ops for r in o[0]]) > 4:
            continue
        if len(gens) > 4 and len(ops) > 48 and rng.random() < 0.5:
            continue
        tols = [rng.choice((1e-3, 0.01, 0.4 / n)) for _ in range(3)]
        noise = rng.choice((0.0, 0.0, 1e-8))
        # translations may be given outside the cell
        raw = [(r, tuple(x + (n * rng.choice((-1, 0, 0, 1))) for x in t)) for r, t in gens]
        s = Session()
        s.add({"op": "sggen", "gens": [op_json(o, n, rng, noise) for o in raw], "tols": tols},
              {"k": "sggen", "gens": [op_ev(o) for o in raw], "n": n, "dups": 0, "_unit": n, "rt": 100 if noise else 1})
        out.append(s)
    return out


def rebased(rng, size, forms=None):
    """groups carried to other cells"""
    out = []
    while len(out) < size:
        ops, n = random_group_ops(rng, centred=True)
        if rng.random() < 0.5:
            gens = rng.sample(ops, min(len(ops), rng.choice((1, 2))))
            ops = sorted(close_ops(gens, n))
        kind = rng.random()
        den = 1
        if kind < 0.5:
            m = gen.supercell(rng, rng.randint(1, 4), 2, 3)
        elif kind < 0.6:                                 # much longer in one direction
            if len(ops) > 24:
                ops = sorted(close_ops(rng.sample(ops, 1), n))
            k = rng.randrange(3)
            m = mm(gen.unimodular(rng, rng.choice((0, 1)), 2), [[(rng.choice((7, 9, 11, 12, 13, 16, 20)) if i == k else 1) if i == j else 0 for j in range(3)] for i in range(3)])
        else:
            # a smaller cell: spanned by translations of the group
            tl = [o[1] for o in ops if o[0] == ((1, 0, 0), (0, 1, 0), (0, 0, 1)) and any(o[1])]
            if not tl:
                m = gen.unimodular(rng, 3, 3)
            else:
                v = rng.choice(tl)
                den = n
                for x in v:
                    import math
                    den = math.gcd(den, x)
                den = n // den
                v = [x * den // n for x in v]
                m = [[den * x for x in r] for r in I3]
                i = rng.choice([i for i in range(3) if v[i]])
                for r in range(3):
                    m[r][i] = v[r]
                # v must generate, together with the other two axes, all its multiples: needs index |v_i| = 1
                if abs(v[i]) != 1:
                    continue
        d = abs(det(m))
        if d == 0 or d > (20 if kind < 0.6 else 16) or len(ops) * d > 400:
            continue
        if not all(closed_in(ops, n, m, den) for _ in (0,)):
            continue
        unit = n * d
        tols = [rng.choice((1e-3, 0.4 / unit, 0.2 / unit)) for _ in range(3)]
        s = Session()
        s.add({"op": "sgtrans", "ops": [op_json(o, n) for o in ops], "m": fmat(m, den), "tols": tols},
              {"k": "sgtrans", "ops": [op_ev(o) for o in ops], "n": n, "m": m, "den": den, "_unit": unit})
        out.append(s)
    return out


def closed_in(ops, n, m, den):
    """the vectors of the new cell are translations of the group"""
    tl = {o[1] for o in ops if o[0] == ((1, 0, 0), (0, 1, 0), (0, 0, 1))} | {(0, 0, 0)}
    for j in range(3):
        v = [m[i][j] * n for i in range(3)]
        if any(x % den for x in v) or tuple((x // den) % n for x in v) not in tl:
            return False
    return True


SUBCELLS = [[[1, 0, 0], [0, 1, 0], [0, 0, 2]], [[2, 0, 0], [0, 2, 0], [0, 0, 1]], [[2, 0, 0], [0, 2, 0], [0, 0, 2]],
            [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 2, 0], [0, 0, 1]], [[2, 1, 0], [0, 1, 0], [0, 0, 1]],
            [[1, 0, 0], [0, 1, 0], [0, 0, 3]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]]]


def point_groups(rng, size, forms=None):
    """the 32 tabulated point groups, and each in other bases"""
    s = Session()
    for k in range(1, 33):
        s.add({"op": "pg", "n": k}, {"k": "pg"})
    out = [s]
    for _ in range(size):
        for k in range(1, 33):
            m, den = gen.unimodular(rng, rng.choice((1, 2, 4)), 3), 1
            if rng.random() < 0.4:              # cells of the centred lattices, and super- and subcells
                p, den = rng.choice(list(gen.PRIM.values())) if rng.random() < 0.7 else (rng.choice(SUBCELLS), rng.choice((1, 2, 3)))
                m = mm(p, m) if rng.random() < 0.5 else p
            s = Session()
            s.add({"op": "pg", "n": k, "m": fmat(m, den)}, {"k": "pg", "m": m})
            out.append(s)
    return out


def rand_rot(rng):
    e = rng.choice(gen.SG)
    o = rng.choice(e["ops"])
    u = gen.unimodular(rng, 2, 2)
    return mm(mm(gen.iinv(u), o[:3]), u)


def operations(rng, size, forms=None):
    """application, product, comparison and normalization of single operations"""
    out = []
    for _ in range(size):
        n = rng.choice((12, 24, 60))
        tr = lambda k=3: [rng.randint(-k * n, k * n) for _ in range(3)]
        a, b = (rand_rot(rng), tr()), (rand_rot(rng), tr())
        s = Session()
        v = tr()
        s.add({"op": "opapply", "a": op_json(a, n), "v": [x / n for x in v]}, {"k": "opapply", "a": op_ev(a), "v": v, "n": n})
        s.add({"op": "opmul", "a": op_json(a, n), "b": op_json(b, n)}, {"k": "opmul", "a": op_ev(a), "b": op_ev(b), "n": n})
        # comparisons: half-integer tolerances keep away from the boundary; b close to a
        tol2 = [rng.choice((1, 3, 5)) for _ in range(3)]
        tols = [x / (2 * n) for x in tol2]
        c = (a[0] if rng.random() < 0.85 else b[0],
             [a[1][i] + n * rng.choice((-1, 0, 1)) + rng.choice((0, 0, 1, -1, 2, -2, 3)) for i in range(3)])
        dbl = lambda o: op_ev((o[0], [2 * x for x in o[1]]))
        s.add({"op": "opeq", "a": op_json(a, n), "b": op_json(c, n), "tols": tols},
              {"k": "opeq", "a": dbl(a), "b": dbl(c), "tol": tol2, "n": 2 * n})
        if rng.random() < 0.5:                       # inside the cell, at its faces
            a = (a[0], [rng.choice((0, 1, 2, n // 2, n - 3, n - 2, n - 1, rng.randrange(n))) for _ in range(3)])
        s.add({"op": "opnorm", "a": op_json(a, n), "tols": tols}, {"k": "opnorm", "a": dbl(a), "tol": tol2, "n": 2 * n})
        out.append(s)
    return out


def chemistry(rng, size, forms=None):
    """formulas and element counts"""
    out = []
    for i in range(size):
        k = rng.randint(1, 6)
        names = rng.sample(gen.NAMES, k)
        f = rng.choice((1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 30))
        counts = [f * rng.randint(1, 6) for _ in names]
        if i % 10 == 0:
            counts[0] = rng.choice((127, 128, 200, 255, 256, 300, 512))
        sp = [x for x, m in zip(names, counts) for _ in range(m)]
        rng.shuffle(sp)
        s = Session()
        n = len(sp)
        s.add({"op": "new", "lattice": [[5.0, 0, 0], [0, 6.0, 0], [0, 0, 7.0]], "species": sp,
               "coords": [[j / n, 0.5, 0.25] for j in range(n)]}, {"k": "blank"})
        s.add({"op": "formulas"}, {"k": "formula", "names": sorted(names), "species": sp})
        s.add({"op": "minele"}, {"k": "minele", "names": sorted(names), "species": sp})
        out.append(s)
    return out


def related(rng):
    """two cells on a fine grid; some of them nearly the same or nearly multiples of one another"""
    w = rng.choice((3, 12, 100, 1000))
    while True:
        a = [[rng.randint(-w, w) for _ in range(3)] for _ in range(3)]
        b = [[rng.randint(-w, w) for _ in range(3)] for _ in range(3)]
        if rng.random() < 0.6:
            m = gen.supercell(rng, rng.choice((1, 1, 2)), 1, 2)
            b = [[x + rng.choice((0, 0, -1, 1)) for x in r] for r in mm(a, m)]
        if abs(det(a)) > 0.05 * w ** 3 and det(b):
            return a, b


def lattice_numbers(rng, size, forms):
    """lengths, angles, volume, metric, reciprocal lattice, superbase, change-of-basis matrices"""
    out = []
    for _ in range(size):
        g = forms.pick(rng)
        c = gen.random_crystal(rng, g, max_sites=3)
        s = begin(rng, c, small_cell(rng, 3) if rng.random() < 0.7 else skewed(rng, rng.choice((2, 4, 6)), 9))
        s.add({"op": "scalars"}, {"k": "scalars"})
        s.add({"op": "save"}, {"k": "save"})
        saved = s.evs[0]["t0"]
        m = gen.supercell(rng, rng.choice((1, 1, 2)), 2, 2)
        s.add({"op": "transform", "m": m, "tol": 0.2 * s.real.sep}, {"k": "transform", "m": m, "den": 1})
        s.add({"op": "tmat", "slot": 0}, {"k": "tmat", "_saved": saved})
        s.add({"op": "scalars"}, {"k": "scalars"})
        a, b = related(rng)
        s.add({"op": "relate", "from": [[s.scale * x for x in r] for r in a], "to": [[s.scale * x for x in r] for r in b]},
              {"k": "relate", "from": a, "to": b})
        out.append(s)
    return out


def normalizations(rng, size, forms):
    """sites far outside the cell and at its faces"""
    out = []
    for _ in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=6)
        t = small_cell(rng, 3)
        s = begin(rng, c, t, shift=0.9)
        far = [[rng.choice((-3, -1, 0, 0, 1, 2, 5) if rng.random() < 0.9 else (-40, -17, 11, 33)) for _ in range(3)] for _ in s.ops[0]["coords"]]
        lat = s.ops[0]["lattice"]
        for i, w in enumerate(far):
            p = s.ops[0]["coords"][i]
            add = gen.mv(lat, w) if s.ops[0]["is_cart"] else w
            eps = rng.choice((0.0, 0.0, 1e-9, -1e-9)) if not s.ops[0]["is_cart"] else 0.0
            s.ops[0]["coords"][i] = [p[k] + add[k] + eps for k in range(3)]
            tv = gen.mv(t, w)
            s.evs[0]["s0"][i] = [s.evs[0]["s0"][i][0]] + [s.evs[0]["s0"][i][1 + k] + c.n * tv[k] for k in range(3)]
        s.add({"op": "normalize", "tol": s.real.dtol(rng)}, {"k": "normalize"})
        s.add({"op": "normalize", "tol": s.real.dtol(rng)}, {"k": "normalize"})
        out.append(s)
    return out


# ------------------------------------------------------------------ the Python interface

def python_calls(rng, size, forms):
    out = []
    for s in table_groups(rng, 1, forms, numbers=rng.sample(range(1, 231), 40)) + standards(rng, size, forms, sg=True):
        dtol = s.ops[1]["dtol"]
        extra = [({"op": "primitive", "dtol": dtol, "peek": True}, {"k": "primitive"}),
                 ({"op": "niggli", "tol": 1e-5, "dtol": 0.05, "peek": True}, {"k": "niggli"})]
        for op, ev in extra:
            s.add(op, ev)
        for op in s.ops[1:]:
            op["peek"] = True
        s.runner = "python"
        out.append(s)
    for s in tolerant_cells(rng, size // 3, forms):
        s.ops, s.evs = s.ops[:1], s.evs[:1]
        dtol = s.dtol
        s.add({"op": "primitive", "dtol": dtol, "peek": True}, {"k": "primitive"})
        s.runner = "python"
        out.append(s)
    return out


# ------------------------------------------------------------------ tolerances

def skewness(g, t):
    """largest product of a cell vector and the reciprocal one: 1 for orthogonal cells"""
    import math
    h = gen.congr(g, t)
    d = det(h)
    a = adj(h)
    return max(math.sqrt(h[i][i] * a[i][i] / d) for i in range(3))


def compact_cell(rng, g, dmax=1, limit=1.8):
    """a cell that is not skewed: fractional and cartesian tolerances then mean the same"""
    _, u = gen.reduce_pairs(g)
    for _ in range(60):
        t = mm(u, gen.hnf(rng, rng.randint(1, dmax)))
        p = list(range(3))
        rng.shuffle(p)
        sg = [rng.choice((-1, 1)) for _ in range(3)]
        t = mm(t, [[sg[j] if p[j] == i else 0 for j in range(3)] for i in range(3)])
        if skewness(g, t) <= limit:
            return t
    return None


def tolerances(rng, size, forms):
    """noise well below the tolerance is ignored; distances well above it are respected"""
    out = []
    sessions = table_groups(rng, max(1, size // 230), forms, numbers=None if size >= 230 else rng.sample(range(1, 231), size))
    for s in sessions:
        real = s.real
        cell = s.evs[0]["t0"]
        if abs(det(cell)) > 1 or skewness(s.c.g, cell) > 1.8:
            cell = compact_cell(rng, s.c.g)
        if cell is not None and rng.random() < 0.6:    # noise
            dtol = real.sep / 6.0
            q = Session(s.c, real.ctx(300000))
            q.add(*present(rng, real, cell, noise=dtol * rng.choice((0.02, 0.005, 0.01))))
        else:                                          # a large tolerance
            dtol = real.sep / rng.choice((2.3, 3.0, 4.0))
            q = Session(s.c, real.ctx())
            q.add(*present(rng, real, s.evs[0]["t0"]))
        q.real, q.scale = real, real.scale
        std_calls(q, dtol)
        q.add({"op": "primitive", "dtol": dtol}, {"k": "primitive"})
        q.add({"op": "niggli", "dtol": dtol}, {"k": "niggli"})
        out.append(q)
    return out


def tolerant_cells(rng, size, forms):
    """the same for calls that do not involve symmetry, on arbitrary crystals"""
    out = []
    for _ in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=6)
        real = Real(rng, c)
        noisy = rng.random() < 0.5
        t = compact_cell(rng, c.g, 4) if noisy else small_cell(rng, 4)
        if t is None or skewness(c.g, t) > 3.0:
            continue
        dtol = real.sep / (6.0 if noisy else rng.choice((5.0, 6.0, 8.0)))
        q = Session(c, real.ctx(300000) if noisy else real.ctx())
        q.real, q.scale, q.dtol = real, real.scale, dtol
        q.add(*present(rng, real, t, noise=dtol * rng.choice((0.1, 0.05, 0.01)) if noisy else 0.0))
        kinds = ["primitive", "transform", "normalize", "delaunay", "niggli"]
        for _ in range(1 if noisy else 2):
            k = rng.choice(kinds)
            if k == "transform" and len(q.ops) == 1 and abs(det(t)) > 1 and rng.random() < 0.5:    # fold the cell
                small = compact_cell(rng, c.g, 1) or gen.reduce_pairs(c.g)[1]
                m, den = grid_matrix(t, small)
                if skewness(c.g, small) <= 1.8 and amax(m) <= 40:
                    q.add({"op": k, "m": fmat(m, den), "tol": dtol}, {"k": k, "m": m, "den": den})
                    kinds.remove("transform")
            elif k == "transform":
                m = gen.supercell(rng, rng.choice((1, 2, 2, 3)), 2, 3)
                if abs(det(t)) * abs(det(m)) * len(c.sites) > 60 or skewness(c.g, mm(t, m)) > (1.8 if noisy else 3.0):
                    m = [[0, 1, 0], [0, 0, 1], [1, 0, 0]]
                q.add({"op": k, "m": m, "tol": dtol}, {"k": k, "m": m, "den": 1})
                kinds.remove("transform")
            elif k == "delaunay":
                q.add({"op": k, "dtol": dtol}, {"k": k, "full": False})
            else:
                q.add({"op": k, "dtol": dtol} if k != "normalize" else {"op": k, "tol": dtol}, {"k": k})
        out.append(q)
    return out


# ------------------------------------------------------------------ conversions and repetition

def conversions(rng, size, forms):
    """fractional and cartesian views of one structure and of free points"""
    from fractions import Fraction
    out = []
    for _ in range(size):
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=6)
        t = small_cell(rng, 3)
        s = begin(rng, c, t)
        lat = s.ops[0]["lattice"]
        pts = [[rng.randint(-w * c.n, w * c.n) for _ in range(3)] for w in (1, 3, 3, rng.choice((10, 100, 700)))]
        ti = gen.inv(t)
        frac = [[float(x / c.n) for x in gen.mv(ti, [Fraction(y) for y in p])] for p in pts]
        cart = [gen.mv(lat, f) for f in frac]
        s.add({"op": "tofrac", "coords": cart}, {"k": "tofrac", "pts": pts})
        s.add({"op": "tocart", "coords": frac}, {"k": "tocart", "pts": pts})
        k = rng.choice(("transform", "normalize", "primitive", "niggli", "delaunay", "stdconv", "stdprim"))
        dtol = s.real.dtol(rng)
        if k == "transform":
            m = gen.unimodular(rng, 3, 3)
            s.add({"op": k, "m": m, "tol": dtol}, {"k": k, "m": m, "den": 1})
        elif k == "delaunay":
            s.add({"op": k, "dtol": dtol}, {"k": k, "full": False})
        else:
            s.add({"op": k, "dtol": dtol} if k != "normalize" else {"op": k, "tol": dtol}, {"k": k})
        out.append(s)
    return out


def twin_of(rng, s, kind=None):
    """a different input agreeing with the first one in the lattice, the species, or both and most positions,
    or in everything but the size"""
    op = {k: (list(v) if isinstance(v, list) else v) for k, v in s.ops[0].items()}
    kind = kind or rng.choice(("move", "move", "species", "lattice", "turn", "mirror", "scale"))
    if kind == "scale":
        f = rng.choice((60.0, 60.0, 0.1))
        op["lattice"] = [[f * x for x in r] for r in op["lattice"]]
        if op["is_cart"]:
            op["coords"] = [[f * x for x in r] for r in op["coords"]]
    elif kind == "move":
        i = rng.randrange(len(op["coords"]))
        f = [rng.choice((0.0, 0.5, 0.25, 0.21)) for _ in range(3)]
        d = gen.mv(op["lattice"], f) if op["is_cart"] else f
        op["coords"][i] = [a + b for a, b in zip(op["coords"][i], d)]
    elif kind == "species":
        op["species"] = op["species"][1:] + op["species"][:1]
        if len(set(op["species"])) == 1:
            op["species"][0] = "Xe"
    elif kind == "lattice":                # same content, other lattice of the same volume
        f = rng.choice((1.1, 1.25, 0.8))
        op["lattice"] = [[x * (f if j == 0 else 1 / f if j == 1 else 1.0) for j, x in enumerate(r)] for r in op["lattice"]]
    elif kind == "turn":                   # other vectors, same fractional coordinates
        op["lattice"] = [[r[1], r[2], r[0]] for r in op["lattice"]]
    else:
        op["lattice"] = [[-x for x in r] for r in op["lattice"]]
    return op


def repetitions(rng, size, forms):
    """the same input again, after other inputs, in the same process"""
    out = []
    base = standards(rng, size, forms, sg=True) + table_groups(rng, 1, forms, numbers=rng.sample(range(1, 231), min(60, max(8, size // 10))))
    for s in base:
        if len(s.ops[0]["coords"]) > 30:
            continue
        dtol = s.ops[1]["dtol"]
        q = Session(s.c, s.ctx)
        q.real, q.scale = s.real, s.scale
        other = present(rng, s.real, small_cell(rng, 2))
        twin = twin_of(rng, s, "scale" if len(out) < 8 else None)      # the first ones the processes see
        tol = rng.choice((1e-5, 0.5, 0.1)) * loosest(s)
        for rep in ("twin", 0, "other", "twin", 0):
            if rep == "twin":              # not judged: another crystal that has a lot in common with this one
                q.add(dict(twin), {"k": "blank"})
            else:
                new = (s.ops[0], s.evs[0]) if rep == 0 else other
                q.add(dict(new[0]), dict(new[1]))
            for i, (op, ev) in enumerate(zip(s.ops[1:4], s.evs[1:4])):
                ev = dict(ev)
                if rep == 0:
                    ev["rep"] = f"r{i}"
                q.add(dict(op), ev if rep != "twin" else {"k": "blank"})
            for k in ("primitive", "niggli", "delaunay"):
                op, ev = {"op": k, "dtol": dtol, "peek": True, "twice": True, "go_on": True}, {"k": k}
                if k == "delaunay":
                    ev["full"] = op["full"] = False
                if k == "niggli":
                    op["tol"] = tol
                if rep == 0:
                    ev["rep"] = "r" + k
                q.add(op, ev if rep != "twin" else {"k": "blank"})
        out.append(q)
    return out


# ------------------------------------------------------------------ histories enumerated by TLC

HISTORIES = {}


def enumerated(rng, depth):
    """the histories of this length in random order, each only once in a run"""
    import common
    import json
    import os
    import tempfile
    if depth not in HISTORIES:
        fd, path = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            common.tlc("Histories", env={"OUT": path, "DEPTH": str(depth)}, workers=1)
            HISTORIES[depth] = json.load(open(path))
        finally:
            os.unlink(path)
        rng.shuffle(HISTORIES[depth])
    return HISTORIES[depth]


def histories_of_3(rng, size, forms):
    """every history of three calls (and so every shorter one)"""
    return replayed(rng, enumerated(rng, 3), size, forms)


def histories_of_4(rng, size, forms):
    return replayed(rng, enumerated(rng, 4), size, forms)


def replayed(rng, hist, size, forms):
    """histories of calls enumerated by the specification, on crystals of every lattice system"""
    mats = {"unimodular": lambda: gen.unimodular(rng, 3, 3), "double": lambda: gen.supercell(rng, 2, 1, 3),
            "triple": lambda: gen.supercell(rng, 3, 1, 3), "mirror": lambda: mm(gen.unimodular(rng, 2, 2), [[1, 0, 0], [0, -1, 0], [0, 0, 1]])}
    out = []
    while hist and len(out) < size:
        h = hist.pop()
        c = gen.random_crystal(rng, some_form(rng, forms), max_sites=4)
        t = gen.supercell(rng, h["start"], 2, 4)
        s = begin(rng, c, t)
        ext = Extent(t)
        dtol = s.real.dtol(rng)
        for k in h["calls"]:
            if k in mats:
                m = ext.matrix(mats[k])
                s.add({"op": "transform", "m": m, "tol": dtol}, {"k": "transform", "m": m, "den": 1})
                continue
            ext.reduced(k)
            if k in ("delaunay", "delaunayfull"):
                full = k != "delaunay"
                s.add({"op": "delaunay", "full": full, "dtol": dtol}, {"k": "delaunay", "full": full})
            elif k == "normalize":
                s.add({"op": k, "tol": dtol}, {"k": k})
            else:
                s.add({"op": k, "dtol": dtol}, {"k": k})
        out.append(s)
    return out


# ------------------------------------------------------------------ helper functions

def helper(*calls):
    s = Session()
    s.runner = "helpers"
    for op, ev in calls:
        s.add(dict(op, go_on=True), ev)
    return s


def encodings(rng, size, forms):
    """integers encoding digits and operations"""
    out = []
    for i in range(size):
        base = rng.choice((2, 3, 3, 5, 8, 8, 10, 16, 36, 100))
        ln = rng.randint(1, 12)
        e = rng.choice((rng.randrange(min(base ** ln, 2 ** 31 - 1)), rng.randrange(2 ** 31 - 1), rng.randrange(100)))
        sub = rng.choice((0, 1, 1, rng.randint(-20, 20)))
        a = {"op": "decode", "k": "decode", "e": e, "base": base, "sub": sub, "len": ln}
        num = rng.randrange(19683 * 512)
        if i < 512:
            num = 19683 * i + rng.randrange(19683)
        elif i < 512 + 27:
            num = rng.randrange(512) * 19683 + sum((i - 512) // 3 ** j % 3 * 3 ** rng.choice((j, j + 3, j + 6)) for j in range(3))
        b = {"op": "decodeop", "k": "decodeop", "e": num}
        out.append(helper((a, a), (b, b)))
    return out


LATTICES = ["aP", "mP", "mC", "oP", "oC", "oI", "oF", "tP", "tI", "hR", "hP", "cP", "cI", "cF"]
SYSTEMS = ["Triclinic", "Monoclinic", "Orthorhombic", "Tetragonal", "Rhombohedral", "Hexagonal", "Cubic"]


def names(rng, size, forms):
    """every lattice type, centering and lattice system by its names, and some that are none"""
    calls = [{"op": "bravais", "k": "bravais", "name": x} for x in LATTICES]
    calls += [{"op": "parse", "k": "parse", "what": "centering", "text": x} for x in "PABCIFR"]
    calls += [{"op": "parse", "k": "parse", "what": "system", "text": x} for x in SYSTEMS + list("amotrhc")]
    calls += [{"op": "parse", "k": "parse", "what": w, "text": x} for w in ("centering", "system") for x in ("", "Q", "xyz", "7", "PP")]
    return [helper((c, c)) for c in calls]


def comparisons(rng, size, forms):
    """values on a grid compared with tolerances between its points"""
    out = []
    for i in range(size):
        unit = rng.choice((1 / 64, 1e-3, 0.1, 1e-6, 7.3))
        tol = 2 * rng.choice((0, 0, 1, 1, 2, 5, 30)) + 1
        near = lambda x, t: x + rng.choice((0, 0, 1, -1, 1, -1, 2)) * ((t + 1) // 2 - rng.choice((0, 1, 1)))
        val = lambda: rng.choice((0, 0, 1, -1, rng.randint(-50, 50), rng.randint(-2000, 2000)))
        fl = lambda v: [unit * x for x in v]
        a = val()
        b = near(a, tol)
        calls = [({"op": "numeq", "a": unit * a, "b": unit * b, "tol": unit * tol / 2}, {"k": "numeq", "a": a, "b": b, "tol": tol})]
        # at most one entry out of tolerance
        u = [val() for _ in range(rng.randint(1, 7))]
        w = [near(x, tol - 2) if tol > 1 else x for x in u]
        if rng.random() < 0.5:
            j = rng.randrange(len(u))
            w[j] = u[j] + rng.choice((-1, 1)) * (tol + 1) // 2
        if rng.random() < 0.1:
            w = w[:-1] if rng.random() < 0.5 else w + [0]
        calls.append(({"op": "listeq", "a": fl(u), "b": fl(w), "tol": unit * tol / 2}, {"k": "listeq", "a": u, "b": w, "tol": tol}))
        tols = [2 * rng.choice((0, 1, 2, 5)) + 1 for _ in range(9)]
        p = [val() for _ in range(9)]
        q = [x + rng.choice((-1, 1)) * rng.randint(0, (t - 1) // 2) for x, t in zip(p, tols)]
        if rng.random() < 0.6:
            j = rng.randrange(9)
            q[j] = p[j] + rng.choice((-1, 1)) * (tols[j] + 1) // 2
        calls.append(({"op": "mateq", "a": fl(p), "b": fl(q), "tols": [unit * t / 2 for t in tols]},
                      {"k": "mateq", "a": p, "b": q, "tols": tols}))
        z = [rng.choice((1, -1)) * rng.choice((0, (tol - 1) // 2, (tol + 1) // 2, 40)) for _ in range(rng.randint(0, 8))]
        calls.append(({"op": "signs", "a": fl(z), "tol": unit * tol / 2}, {"k": "signs", "a": z, "tol": tol}))
        n = rng.choice((7, 12, 24, 60, 1000))
        ts = [2 * rng.randint(0, (n - 1) // 2 // rng.choice((1, 3, 6))) + 1 for _ in range(3)]
        ts = [min(t, n - 1 - n % 2 if n % 2 == 0 else n - 2) | 1 for t in ts]
        v = [[rng.choice((rng.randint(-3 * n, 3 * n), rng.randint(-2, 2) * n + rng.choice((0, -1, 1)) * ((ts[k] + rng.choice((-1, 1))) // 2)))
              for k in range(3)] for _ in range(rng.randint(1, 4))]
        calls.append(({"op": "wrap", "v": [[x / n for x in r] for r in v], "tols": [t / 2 / n for t in ts]},
                      {"k": "wrap", "n": n, "v": v, "tols": ts}))
        out.append(helper(*calls))
    return out
