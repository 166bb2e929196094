"""Seeded generation of crystals, presentations and sessions."""
import itertools
import json
import math
import os
from fractions import Fraction

import common
from geom import I3, adj, amax, aut_small, chol, cols, congr, det, fl, iinv, inv, mm, mv, norm, rotation, shortest
from proj import Ctx

SG = json.load(open(os.path.join(common.SPEC, "SGData.json")))
NAMES = ["Ag", "B", "Ba", "C", "Ca", "Cl", "Co", "Cs", "F", "Fe", "H", "He", "I", "In", "K", "N", "Na", "Ni", "O", "P", "Pb", "S",
         "Sc", "Si", "Sn", "V", "W", "Y", "Zn", "Zr", "Fe2+", "Fe3+", "Fe3+x", "O2-", "Na1", "Na10", "H_a", "H_b", "Uue", "X", "site 1", "site 2"]

PRIM = {"P": ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1),
        "C": ([[1, 1, 0], [-1, 1, 0], [0, 0, 2]], 2),
        "A": ([[2, 0, 0], [0, 1, 1], [0, -1, 1]], 2),
        "I": ([[-1, 1, 1], [1, -1, 1], [1, 1, -1]], 2),
        "F": ([[0, 1, 1], [1, 0, 1], [1, 1, 0]], 2),
        "R": ([[2, -1, -1], [1, 1, -2], [1, 1, 1]], 3)}

BRAVAIS = [("triclinic", "P"), ("monoclinic", "P"), ("monoclinic", "C"), ("orthorhombic", "P"), ("orthorhombic", "C"),
           ("orthorhombic", "I"), ("orthorhombic", "F"), ("tetragonal", "P"), ("tetragonal", "I"), ("rhombohedral", "R"),
           ("hexagonal", "P"), ("cubic", "P"), ("cubic", "I"), ("cubic", "F")]


# ------------------------------------------------------------------ lattices

def conv_gram(rng, system, top=14):
    """Gram matrix (integers) of a conventional cell"""
    p = lambda: rng.randint(2, top)
    if system == "cubic":
        a = p()
        return [[a, 0, 0], [0, a, 0], [0, 0, a]]
    if system == "tetragonal":
        a, c = p(), p()
        return [[a, 0, 0], [0, a, 0], [0, 0, c]]
    if system == "orthorhombic":
        return [[p(), 0, 0], [0, p(), 0], [0, 0, p()]]
    if system in ("hexagonal", "rhombohedral"):
        a, c = 2 * rng.randint(1, max(1, top // 2)), p()
        return [[a, -a // 2, 0], [-a // 2, a, 0], [0, 0, c]]
    if system == "monoclinic":
        while True:
            a, b, c, e = p(), p(), p(), rng.randint(-top, top)
            if e and e * e < a * c * 0.8:
                return [[a, 0, e], [0, b, 0], [e, 0, c]]
    while True:
        a, b, c = p(), p(), p()
        d, e, f = (rng.randint(-top // 2, top // 2) for _ in range(3))
        g = [[a, f, e], [f, b, d], [e, d, c]]
        if a * b - f * f > 0 and det(g) > 0.25 * a * b * c:
            return g


def prim_form(gram, cent):
    """twice the Gram matrix of the standard primitive basis, scaled to integers (with even diagonal)"""
    m, den = PRIM[cent]
    g = [[Fraction(x, den * den) for x in r] for r in congr(gram, m)]
    need = 1
    for i in range(3):
        for j in range(3):
            x = g[i][j] if i == j else 2 * g[i][j]
            need = need * x.denominator // math.gcd(need, x.denominator)
    return [[int(2 * need * x) for x in r] for r in g]


def family_form(rng, system=None, cent=None, top=14):
    if system is None:
        system, cent = rng.choice(BRAVAIS)
    while True:
        g = prim_form(conv_gram(rng, system, top), cent)
        if amax(g) <= 800:          # keeps every determinant within the integers of TLC
            return g


_forms = {}


def forms(bound):
    """all Niggli-reduced integer forms up to the bound, enumerated by TLC, with their number of automorphisms and lattice character"""
    if bound not in _forms:
        import tempfile
        fd, path = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            r = common.tlc("Forms", env={"OUT": path, "BOUND": str(bound)}, workers=1)
            _forms[bound] = (json.load(open(path)), r)
        finally:
            os.unlink(path)
    return _forms[bound][0]


class Forms:
    def __init__(self, bound):
        self.all = forms(bound)
        self.by = {}
        self.char = {}
        for f in self.all:
            self.by.setdefault(f["char"], []).append(f["g"])
            self.char[str(f["g"])] = f["char"]
        self.chars = sorted(self.by)

    def pick(self, rng, i=None):
        """a form of the i-th lattice character, or of a random one"""
        char = rng.choice(self.chars) if i is None else self.chars[i % len(self.chars)]
        return rng.choice(self.by[char])


# ------------------------------------------------------------------ integer matrices

def elementary(rng):
    m = [r[:] for r in I3]
    kind = rng.random()
    if kind < 0.6:
        i, j = rng.sample(range(3), 2)
        m[i][j] = rng.choice((-1, 1))
    elif kind < 0.85:
        p = list(range(3))
        rng.shuffle(p)
        m = [[1 if p[i] == j else 0 for j in range(3)] for i in range(3)]
    else:
        i = rng.randrange(3)
        m[i][i] = -1
    return m


def unimodular(rng, steps=4, bound=5):
    m = [r[:] for r in I3]
    for _ in range(steps):
        k = mm(m, elementary(rng))
        if amax(k) <= bound:
            m = k
    return m


def hnf(rng, d):
    """random column Hermite normal form of determinant d"""
    divs = [(a, b, d // a // b) for a in range(1, d + 1) if d % a == 0 for b in range(1, d // a + 1) if (d // a) % b == 0]
    a, b, c = rng.choice(divs)
    return [[a, 0, 0], [rng.randrange(b), b, 0], [rng.randrange(c), rng.randrange(c), c]]


def supercell(rng, d, steps=3, bound=6):
    h = hnf(rng, d)
    for _ in range(50):
        m = mm(unimodular(rng, steps), mm(h, unimodular(rng, steps)))
        if amax(m) <= bound:
            return m
    return h


# ------------------------------------------------------------------ crystals

class Crystal:
    def __init__(self, g, n, sites, names):
        self.g, self.n, self.names = g, n, names
        self.sites = sorted(tuple(s) for s in sites)

    def json(self):
        return {"g": self.g, "n": self.n, "sites": [list(s) for s in self.sites]}

    def primitive(self):
        count = {}
        for s in self.sites:
            count[s[0]] = count.get(s[0], 0) + 1
        sp = min(count, key=lambda k: (count[k], k))
        own = [s for s in self.sites if s[0] == sp]
        have = set(self.sites)
        a = own[0]
        for b in own[1:]:
            d = [(b[i] - a[i]) % self.n for i in (1, 2, 3)]
            if all((s[0], (s[1] + d[0]) % self.n, (s[2] + d[1]) % self.n, (s[3] + d[2]) % self.n) in have for s in self.sites):
                return False
        return True

    def sep(self):
        """shortest distance between two distinct grid points"""
        return shortest(self.g) / self.n


def pick_names(rng, k):
    return sorted(rng.sample(NAMES, k))


def orbit_sites(ops, n, sp, p):
    return {(sp,) + tuple((sum(r[i][j] * p[j] for j in range(3)) + t[i]) % n for i in range(3)) for r, t in ops}


def random_crystal(rng, form, n=None, max_sites=10, nsp=None):
    """sites at random grid points, or orbits under part of the lattice symmetry"""
    while True:
        if n is None and nsp is None and max_sites >= 6 and rng.random() < 0.12:
            return pseudo_crystal(rng, form, max_sites)
        nn = n or rng.choice((1, 2, 2, 3, 4, 4, 6, 6, 8, 12))
        k = nsp or rng.choice((1, 1, 2, 2, 3))
        sites = set()
        if rng.random() < 0.5:
            for _ in range(rng.randint(k, k + 3)):
                sites.add((rng.randint(1, k),) + tuple(rng.randrange(nn) for _ in range(3)))
        else:
            a = aut(form)
            gens = [rng.choice(a) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
            ops = close_rot(gens)
            special = rng.random() < 0.5
            for _ in range(rng.randint(1, 3)):
                p = [rng.randrange(nn) if not special else rng.choice((0, nn // 2)) for _ in range(3)]
                sites |= orbit_sites([(r, (0, 0, 0)) for r in ops], nn, rng.randint(1, k), p)
        pos = {}
        for s in sites:
            pos.setdefault(s[1:], s[0])
        sites = [(sp,) + p for p, sp in pos.items()]
        used = sorted({s[0] for s in sites})
        if not sites or len(sites) > max_sites:
            continue
        ren = {u: i + 1 for i, u in enumerate(used)}
        c = Crystal(form, nn, [(ren[s[0]],) + s[1:] for s in sites], pick_names(rng, len(used)))
        if c.primitive():
            return c


def pseudo_crystal(rng, form, max_sites=12):
    """a translation that is none: it keeps the rarest species but exchanges, displaces or loses one of the others"""
    while True:
        q = rng.choice((2, 2, 2, 3, 3, 4, 5))
        n = q * rng.choice((1, 2, 2, 3, 4) if q < 4 else (1, 2))
        v = [rng.randrange(q) for _ in range(3)]
        if not any(v):
            continue
        tau = [n // q * x for x in v]
        orb = lambda p: [tuple((p[i] + j * tau[i]) % n for i in range(3)) for j in range(q)]
        p0 = [rng.randrange(n) for _ in range(3)] if rng.random() < 0.5 else [0, 0, 0]
        pos = {p: 1 for p in orb(p0)}
        kind = rng.choice(("colour", "colour", "move", "vacancy", "odd"))
        if kind == "colour":                       # every other species as often as the first
            k = rng.choice((2, 2, 3))
            for r in range(k):
                for j, p in enumerate(orb([rng.randrange(n) for _ in range(3)])):
                    pos.setdefault(p, 2 + (r + j) % k)
        else:
            for r in range(rng.randint(1, 3)):
                for p in orb([rng.randrange(n) for _ in range(3)]):
                    pos.setdefault(p, 2)
            two = sorted(p for p in pos if pos[p] == 2)
            if not two:
                continue
            p = rng.choice(two)
            del pos[p]
            if kind == "move":
                m = list(p)
                m[rng.randrange(3)] += rng.choice((-1, 1))
                pos.setdefault(tuple(x % n for x in m), 2)
            elif kind == "odd":
                pos[p] = 3
        used = sorted(set(pos.values()))
        if len(pos) > max_sites:
            continue
        ren = {u: i + 1 for i, u in enumerate(used)}
        c = Crystal(form, n, [(ren[x],) + p for p, x in pos.items()], pick_names(rng, len(used)))
        if c.primitive():
            return c


def close_rot(gens):
    out = {((1, 0, 0), (0, 1, 0), (0, 0, 1))}
    front = list(out)
    while front:
        new = []
        for f in front:
            for g in gens:
                m = tuple(map(tuple, mm(g, f)))
                if m not in out:
                    out.add(m)
                    new.append(m)
        front = new
    return list(out)


def reduce_pairs(g):
    """a basis whose vectors are pairwise reduced and short: the columns of the returned matrix"""
    u = [r[:] for r in I3]
    changed = True
    while changed:
        changed = False
        for i in range(3):
            for j in range(3):
                if i != j:
                    k = round(g[i][j] / g[j][j])
                    if k and k * k * g[j][j] - 2 * k * g[i][j] < 0:
                        e = [r[:] for r in I3]
                        e[j][i] = -k
                        g, u, changed = congr(g, e), mm(u, e), True
        for s in itertools.product((-1, 1), repeat=3):      # diagonals of the cell
            v = list(s)
            q = sum(v[i] * g[i][j] * v[j] for i in range(3) for j in range(3))
            big = max(range(3), key=lambda i: g[i][i])
            if q < g[big][big]:
                e = [r[:] for r in I3]
                for i in range(3):
                    e[i][big] = v[i]
                g, u, changed = congr(g, e), mm(u, e), True
                break
    return g, u


def aut(g):
    """all automorphisms of a form"""
    h, u = reduce_pairs(g)
    ui = iinv(u)
    return [mm(mm(u, r), ui) for r in aut_small(h)]


# ------------------------------------------------------------------ presentations

class Real:
    """a crystal placed in space"""

    def __init__(self, rng, crystal, scale=None, aligned=None):
        self.c = crystal
        base = chol(crystal.g)
        if aligned is None:
            aligned = rng.random() < 0.2
        q = fl(I3) if aligned else rotation(rng)
        if rng.random() < 0.5:
            q = mm(q, [[1.0, 0, 0], [0, 1.0, 0], [0, 0, -1.0]])
        # lengths of a few angstroms, now and then much less or more
        edge = rng.uniform(2.5, 5.0) if rng.random() < 0.75 else math.exp(rng.uniform(math.log(0.8), math.log(40.0)))
        s = scale or edge / math.sqrt(crystal.g[0][0] / 2.0)
        self.scale = s
        self.lref = [[s * x for x in r] for r in mm(q, base)]
        self.sep = s * crystal.sep()
        self.amin = s * shortest(crystal.g)

    def holding(self, crystal):
        """the same lattice in space with another content"""
        r = Real.__new__(Real)
        r.__dict__.update(self.__dict__)
        r.c = crystal
        r.sep = self.scale * crystal.sep()
        return r

    def dtol(self, rng, frac=30.0):
        """a position tolerance well below the distance of distinct grid points"""
        top = min(self.sep / 6.0, self.amin / frac)
        return min(top, rng.choice((0.05, 0.01, 0.001, top, top / 2, top / 10)))

    def ctx(self, rt=1):
        return Ctx(self.lref, self.c.n, self.c.names, rt)


def coset_reps(t):
    d = abs(det(t))
    a = adj(t)
    seen, out = set(), []
    for v in itertools.product(range(d), repeat=3):
        k = tuple(x % d for x in mv(a, v))
        if k not in seen:
            seen.add(k)
            out.append(v)
            if len(out) == d:
                break
    return out


def present(rng, real, t, cart=None, noise=0.0, shift=0.5, shuffle=True):
    """the 'new' operation and event for cell t of the crystal"""
    c = real.c
    sites = []
    for s in c.sites:
        for v in coset_reps(t):
            p = [s[1 + i] + c.n * v[i] for i in range(3)]
            if rng.random() < shift:
                w = mv(t, [rng.choice((-1, 0, 1)) for _ in range(3)])
                p = [p[i] + c.n * w[i] for i in range(3)]
            sites.append((s[0], p))
    if shuffle:
        rng.shuffle(sites)
    lat = mm(real.lref, fl(t))
    tinv = inv(t)
    if cart is None:
        cart = rng.random() < 0.3
    coords = []
    for _, p in sites:
        f = [float(x / c.n) for x in mv(tinv, [Fraction(x) for x in p])]
        if noise:
            while True:
                e = [rng.uniform(-1, 1) for _ in range(3)]
                if norm(e) <= 1:
                    break
            e = [x * noise for x in e]
        else:
            e = [0.0] * 3
        x = mv(lat, f)
        x = [x[i] + e[i] for i in range(3)]
        coords.append(x if cart else (f if not noise else mv(inv(lat), x)))
    op = {"op": "new", "lattice": lat, "species": [c.names[s - 1] for s, _ in sites], "coords": coords, "is_cart": cart}
    ev = {"k": "new", "t0": [list(r) for r in t], "s0": [[s] + list(p) for s, p in sites]}
    return op, ev


class Session:
    """operations for the driver together with how their results become events of a trace"""

    def __init__(self, crystal=None, ctx=None):
        self.c, self.ctx = crystal, ctx
        self.ops, self.evs = [], []

    def add(self, op, ev):
        self.ops.append(op)
        self.evs.append(ev)
        return self

    def driver(self):
        return {"ops": self.ops}


def det3(m):
    return det(m)
