"""The 230 space-group types written down as Hall symbols, and their expansion to operations.

Source of spec/SGData.json.  Nothing here is taken from the code under test: the symbols are
those of International Tables for Crystallography vol. B, table A1.4.2.7 (standard settings:
unique axis b, cell choice 1, hexagonal axes, origin choice 1).
"""
from itertools import product

HALL = """P 1|-P 1|P 2y|P 2yb|C 2y|P -2y|P -2yc|C -2y|C -2yc|-P 2y|-P 2yb|-C 2y|-P 2yc|-P 2ybc|-C 2yc|P 2 2|P 2c 2|P 2 2ab|P 2ac 2ab|C 2c 2|C 2 2|F 2 2|I 2 2|I 2b 2c|P 2 -2|P 2c -2|P 2 -2c|P 2 -2a|P 2c -2ac|P 2 -2bc|P 2ac -2|P 2 -2ab|P 2c -2n|P 2 -2n|C 2 -2|C 2c -2|C 2 -2c|A 2 -2|A 2 -2b|A 2 -2a|A 2 -2ab|F 2 -2|F 2 -2d|I 2 -2|I 2 -2c|I 2 -2a|-P 2 2|P 2 2 -1n|-P 2 2c|P 2 2 -1ab|-P 2a 2a|-P 2a 2bc|-P 2ac 2|-P 2a 2ac|-P 2 2ab|-P 2ab 2ac|-P 2c 2b|-P 2 2n|P 2 2ab -1ab|-P 2n 2ab|-P 2ac 2ab|-P 2ac 2n|-C 2c 2|-C 2bc 2|-C 2 2|-C 2 2c|-C 2b 2|C 2 2 -1bc|-F 2 2|F 2 2 -1d|-I 2 2|-I 2 2c|-I 2b 2c|-I 2b 2|P 4|P 4w|P 4c|P 4cw|I 4|I 4bw|P -4|I -4|-P 4|-P 4c|P 4ab -1ab|P 4n -1n|-I 4|I 4bw -1bw|P 4 2|P 4ab 2ab|P 4w 2c|P 4abw 2nw|P 4c 2|P 4n 2n|P 4cw 2c|P 4nw 2abw|I 4 2|I 4bw 2bw|P 4 -2|P 4 -2ab|P 4c -2c|P 4n -2n|P 4 -2c|P 4 -2n|P 4c -2|P 4c -2ab|I 4 -2|I 4 -2c|I 4bw -2|I 4bw -2c|P -4 2|P -4 2c|P -4 2ab|P -4 2n|P -4 -2|P -4 -2c|P -4 -2ab|P -4 -2n|I -4 -2|I -4 -2c|I -4 2|I -4 2bw|-P 4 2|-P 4 2c|P 4 2 -1ab|P 4 2 -1n|-P 4 2ab|-P 4 2n|P 4ab 2ab -1ab|P 4ab 2n -1ab|-P 4c 2|-P 4c 2c|P 4n 2c -1n|P 4n 2 -1n|-P 4c 2ab|-P 4n 2n|P 4n 2n -1n|P 4n 2ab -1n|-I 4 2|-I 4 2c|I 4bw 2bw -1bw|I 4bw 2aw -1bw|P 3|P 31|P 32|R 3|-P 3|-R 3|P 3 2|P 3 2"|P 31 2c (0 0 1)|P 31 2"|P 32 2c (0 0 -1)|P 32 2"|R 3 2"|P 3 -2"|P 3 -2|P 3 -2"c|P 3 -2c|R 3 -2"|R 3 -2"c|-P 3 2|-P 3 2c|-P 3 2"|-P 3 2"c|-R 3 2"|-R 3 2"c|P 6|P 61|P 65|P 62|P 64|P 6c|P -6|-P 6|-P 6c|P 6 2|P 61 2 (0 0 -1)|P 65 2 (0 0 1)|P 62 2c (0 0 1)|P 64 2c (0 0 -1)|P 6c 2c|P 6 -2|P 6 -2c|P 6c -2|P 6c -2c|P -6 2|P -6c 2|P -6 -2|P -6c -2c|-P 6 2|-P 6 2c|-P 6c 2|-P 6c 2c|P 2 2 3|F 2 2 3|I 2 2 3|P 2ac 2ab 3|I 2b 2c 3|-P 2 2 3|P 2 2 3 -1n|-F 2 2 3|F 2 2 3 -1d|-I 2 2 3|-P 2ac 2ab 3|-I 2b 2c 3|P 4 2 3|P 4n 2 3|F 4 2 3|F 4d 2 3|I 4 2 3|P 4acd 2ab 3|P 4bd 2ab 3|I 4bd 2c 3|P -4 2 3|F -4 2 3|I -4 2 3|P -4n 2 3|F -4a 2 3|I -4bd 2c 3|-P 4 2 3|P 4 2 3 -1n|-P 4n 2 3|P 4n 2 3 -1n|-F 4 2 3|-F 4a 2 3|F 4d 2 3 -1d|F 4d 2 3 -1ad|-I 4 2 3|-I 4bd 2c 3""".split("|")
assert len(HALL) == 230

LATT = {"P": [], "A": [(0, 6, 6)], "B": [(6, 0, 6)], "C": [(6, 6, 0)], "I": [(6, 6, 6)],
        "R": [(8, 4, 4), (4, 8, 8)], "F": [(0, 6, 6), (6, 0, 6), (6, 6, 0)]}
TR = {"a": (6, 0, 0), "b": (0, 6, 0), "c": (0, 0, 6), "n": (6, 6, 6), "u": (3, 0, 0),
      "v": (0, 3, 0), "w": (0, 0, 3), "d": (3, 3, 3)}
I3 = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
ROT = {("1", "z"): I3,
       ("2", "z"): ((-1, 0, 0), (0, -1, 0), (0, 0, 1)), ("2", "x"): ((1, 0, 0), (0, -1, 0), (0, 0, -1)),
       ("2", "y"): ((-1, 0, 0), (0, 1, 0), (0, 0, -1)),
       ("2", "'"): ((0, -1, 0), (-1, 0, 0), (0, 0, -1)), ("2", '"'): ((0, 1, 0), (1, 0, 0), (0, 0, -1)),
       ("3", "z"): ((0, -1, 0), (1, -1, 0), (0, 0, 1)), ("3", "*"): ((0, 0, 1), (1, 0, 0), (0, 1, 0)),
       ("4", "z"): ((0, -1, 0), (1, 0, 0), (0, 0, 1)), ("6", "z"): ((1, -1, 0), (1, 0, 0), (0, 0, 1))}


def mm(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def mv(a, v):
    return tuple(sum(a[i][k] * v[k] for k in range(3)) for i in range(3))


def compose(p, q):
    """apply q, then p; translations in twelfths"""
    return mm(p[0], q[0]), tuple((x + y) % 12 for x, y in zip(mv(p[0], q[1]), p[1]))


def generators(sym):
    """centering letter, translations and generators in the conventional basis"""
    shift = (0, 0, 0)
    if "(" in sym:
        sym, s = sym.split("(")
        shift = tuple(int(x) for x in s.rstrip(")").split())
    parts = sym.split()
    gens = []
    lat = parts[0]
    if lat[0] == "-":
        gens.append((tuple(tuple(-x for x in r) for r in I3), (0, 0, 0)))
        lat = lat[1]
    prev = None
    for pos, p in enumerate(parts[1:]):
        neg = p[0] == "-"
        p = p.lstrip("-")
        n, rest = p[0], p[1:]
        axis = None
        if pos == 0:
            axis = "z"
        elif pos == 1 and n == "2":
            axis = "x" if prev in "24" else "'"
        elif n == "3":
            axis = "*"
        elif n == "1":
            axis = "z"
        t = [0, 0, 0]
        for ch in rest:
            if ch in "xyz'\"*":
                axis = ch
            elif ch in TR:
                t = [x + y for x, y in zip(t, TR[ch])]
            else:
                t[2] += 12 * int(ch) // int(n)
        r = ROT[(n, axis)]
        if neg:
            r = tuple(tuple(-x for x in row) for row in r)
        # change of origin: V (R|t) V^-1 with the shift given in twelfths
        t = tuple(x + s - y for x, s, y in zip(t, shift, mv(r, shift)))
        gens.append((r, tuple(x % 12 for x in t)))
        prev = n
    return lat, gens


def expand(sym):
    lat, gens = generators(sym)
    cent = [(I3, v) for v in LATT[lat]]
    ops = {(I3, (0, 0, 0))}
    todo = list(ops)
    while todo:
        new = []
        for o in todo:
            for g in gens + cent:
                p = compose(g, o)
                if p not in ops:
                    ops.add(p)
                    new.append(p)
        todo = new
    return lat, ops


# primitive basis vectors as columns, in units of 1/PDEN of the conventional basis
PRIM = {"P": (((1, 0, 0), (0, 1, 0), (0, 0, 1)), 1), "A": (((2, 0, 0), (0, 1, -1), (0, 1, 1)), 2),
        "C": (((1, 1, 0), (-1, 1, 0), (0, 0, 2)), 2), "I": (((-1, 1, 1), (1, -1, 1), (1, 1, -1)), 2),
        "F": (((0, 1, 1), (1, 0, 1), (1, 1, 0)), 2), "R": (((2, -1, -1), (1, 1, -2), (1, 1, 1)), 3)}


def adj(m):
    (a, b, c), (d, e, f), (g, h, i) = m
    return ((e * i - f * h, c * h - b * i, b * f - c * e), (f * g - d * i, a * i - c * g, c * d - a * f),
            (d * h - e * g, b * g - a * h, a * e - b * d))


def det(m):
    return sum(m[0][k] * adj(m)[k][0] for k in range(3))


def primitive(lat, ops):
    """operations modulo the primitive lattice, in the primitive basis; translations in twelfths"""
    p, den = PRIM[lat]
    a, d = adj(p), det(p)
    out = set()
    for r, t in ops:
        rr = mm(mm(a, r), p)
        assert all(x % d == 0 for row in rr for x in row)
        tt = mv(a, t)
        assert all((x * den) % d == 0 for x in tt)
        out.add((tuple(tuple(x // d for x in row) for row in rr), tuple((x * den // d) % 12 for x in tt)))
    return out
