"""Small exact and floating-point linear algebra; matrices are lists of rows."""
import math
from fractions import Fraction

I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def mv(a, v):
    return [a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2] for i in range(3)]


def tr(a):
    return [list(r) for r in zip(*a)]


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def adj(m):
    return [[m[1][1] * m[2][2] - m[1][2] * m[2][1], m[0][2] * m[2][1] - m[0][1] * m[2][2], m[0][1] * m[1][2] - m[0][2] * m[1][1]],
            [m[1][2] * m[2][0] - m[1][0] * m[2][2], m[0][0] * m[2][2] - m[0][2] * m[2][0], m[0][2] * m[1][0] - m[0][0] * m[1][2]],
            [m[1][0] * m[2][1] - m[1][1] * m[2][0], m[0][1] * m[2][0] - m[0][0] * m[2][1], m[0][0] * m[1][1] - m[0][1] * m[1][0]]]


def inv(m):
    """exact for integers/Fractions (result in Fractions), floating point otherwise"""
    d = det(m)
    a = adj(m)
    if isinstance(d, float):
        return [[x / d for x in r] for r in a]
    return [[Fraction(x) / d for x in r] for r in a]


def iinv(m):
    """inverse of a unimodular integer matrix"""
    d = det(m)
    assert abs(d) == 1
    return [[x * d for x in r] for r in adj(m)]


def congr(g, t):
    return mm(tr(t), mm(g, t))


def fl(m):
    return [[float(x) for x in r] for r in m]


def chol(g2):
    """columns form a basis whose Gram matrix is g2/2"""
    g = [[x / 2.0 for x in r] for r in g2]
    l11 = math.sqrt(g[0][0])
    l21 = g[1][0] / l11
    l31 = g[2][0] / l11
    l22 = math.sqrt(g[1][1] - l21 * l21)
    l32 = (g[2][1] - l31 * l21) / l22
    l33 = math.sqrt(g[2][2] - l31 * l31 - l32 * l32)
    return [[l11, l21, l31], [0.0, l22, l32], [0.0, 0.0, l33]]


def rotation(rng):
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        s = math.sqrt(sum(x * x for x in q))
        if s > 1e-3:
            break
    w, x, y, z = (t / s for t in q)
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def cols(m):
    return [[m[i][j] for i in range(3)] for j in range(3)]


def amax(m):
    return max(abs(x) for r in m for x in r)


def aut_small(g):
    """automorphisms with entries in {-1,0,1} (all of them when the form is reduced)"""
    import itertools
    vs = list(itertools.product((-1, 0, 1), repeat=3))

    def b(u, v):
        return sum(u[i] * g[i][j] * v[j] for i in range(3) for j in range(3))
    c = [[v for v in vs if b(v, v) == g[i][i]] for i in range(3)]
    out = []
    for u in c[0]:
        for v in c[1]:
            if b(u, v) != g[0][1]:
                continue
            for w in c[2]:
                if b(u, w) == g[0][2] and b(v, w) == g[1][2]:
                    out.append([[u[i], v[i], w[i]] for i in range(3)])
    return out


def shortest(g2):
    """length (in units where the Gram matrix is g2/2) of the shortest lattice vector; the basis may be skewed"""
    g = [[x / 2.0 for x in r] for r in g2]
    # pairwise (semi-)reduction, then a search in a small box
    t = [r[:] for r in I3]
    changed = True
    while changed:
        changed = False
        for i in range(3):
            for j in range(3):
                if i != j:
                    k = round(g[i][j] / g[j][j])
                    if k and g[i][i] - 2 * k * g[i][j] + k * k * g[j][j] < g[i][i] - 1e-9:
                        e = [r[:] for r in I3]
                        e[j][i] = -k
                        g = congr(g, e)
                        changed = True
    best = None
    for x in range(-2, 3):
        for y in range(-2, 3):
            for z in range(-2, 3):
                if (x, y, z) != (0, 0, 0):
                    v = (x, y, z)
                    q = sum(v[i] * g[i][j] * v[j] for i in range(3) for j in range(3))
                    if best is None or q < best:
                        best = q
    return math.sqrt(best)
