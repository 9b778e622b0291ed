"""Coordinate groups transform like point sets."""
from engine.run import Scenario

BOUNDS = "groups of up to 4 points, all coordinates and vectors arbitrary reals, element types by name"
OUTSIDE = "larger groups"
TOL = 1e-4
ELS = ["V", "C", "O_s"]


def group(ctx, name, n, els=None):
    from scaks.utilities.coordinate_utilities import CoordsGroup
    pts = [[ctx.real("%s%d%d" % (name, i, j), lo=-9, hi=9) for j in range(3)] for i in range(n)]
    return pts, CoordsGroup([list(p) for p in pts], None if els is None else list(els))


def same(ctx, got, want, label):
    ctx.check(len(got) == len(want), label + ": number")
    for g, w in zip(got, want):
        ctx.check_list(list(g), list(w), label)


def near(ctx, p, q):
    """Within the tolerance on every axis (decided by the solver)."""
    for a, b in zip(p, q):
        if a - b > TOL or b - a > TOL:
            return False
    return True


def move(ctx, n, els):
    pts, g = group(ctx, "p", n, els)
    v = [ctx.real("v%d" % j, lo=-9, hi=9) for j in range(3)]
    w = [ctx.real("w%d" % j, lo=-9, hi=9) for j in range(3)]
    want = els or ["V"] * n
    m = g.move(list(v))
    same(ctx, m.coordinates(), [[a + b for a, b in zip(p, v)] for p in pts], "moved points")
    ctx.check(list(m.elements()) == want, "moved elements")
    same(ctx, g.coordinates(), pts, "the original stays")
    ctx.check(list(g.elements()) == want and len(g) == n and len(m) == n, "elements of the original")
    same(ctx, m.move(list(w)).coordinates(), g.move([a + b for a, b in zip(v, w)]).coordinates(), "moves add up")
    same(ctx, m.move([-a for a in v]).coordinates(), pts, "moves can be undone")
    same(ctx, g.move().coordinates(), pts, "no vector means no shift")
    m.append([0.0, 0.0, 1.0], "C")
    ctx.check(len(g) == n and list(g.elements()) == want, "a moved group is independent")


def bad_move(ctx, n):
    _, g = group(ctx, "p", n)
    k = ctx.choice("k", [0, 1, 2, 4, 5])
    ctx.raises(ValueError, "vectors of a wrong length are rejected", g.move, [1.0] * k)


def join(ctx, na, nb, ea, eb, share):
    """Coinciding points are kept once, the wildcard gives way."""
    pa, a = group(ctx, "a", na, ea)
    pb = [[ctx.real("b%d%d" % (i, j), lo=-9, hi=9) for j in range(3)] for i in range(nb)]
    for i, j in share:                       # keep all axes but the first equal
        pb[j] = [pb[j][0]] + pa[i][1:]
    from scaks.utilities.coordinate_utilities import CoordsGroup
    b = CoordsGroup([list(p) for p in pb], list(eb))
    c = a + b
    pts, els = [list(p) for p in pa], list(ea)
    for q, e in zip(pb, eb):
        for i in range(na):
            if near(ctx, q, pa[i]):
                if ea[i] == "V" and e != "V":
                    els[i] = e
                break
        else:
            pts.append(q)
            els.append(e)
    same(ctx, c.coordinates(), pts, "points of the joined group")
    ctx.check(list(c.elements()) == els, "elements of the joined group")
    same(ctx, a.coordinates(), pa, "the left group stays")
    same(ctx, b.coordinates(), pb, "the right group stays")
    ctx.check(list(a.elements()) == list(ea) and list(b.elements()) == list(eb), "elements stay")


def grow(ctx, n, k, els):
    """append and extend add points in order, wildcards by default."""
    pts, g = group(ctx, "p", n, ["C"] * n)
    more = [[ctx.real("q%d%d" % (i, j), lo=-9, hi=9) for j in range(3)] for i in range(k)]
    one = [ctx.real("o%d" % j, lo=-9, hi=9) for j in range(3)]
    e = ctx.choice("e", [None, "O_s", "V"])
    if e is None:
        g.append(list(one))
    else:
        g.append(list(one), e)
    if els:
        g.extend([list(p) for p in more], [ELS[i % 3] for i in range(k)])
    else:
        g.extend([list(p) for p in more])
    same(ctx, g.coordinates(), pts + [one] + more, "points in order")
    want = ["C"] * n + [e or "V"] + ([ELS[i % 3] for i in range(k)] if els else ["V"] * k)
    ctx.check(list(g.elements()) == want, "elements in order")
    ctx.check(len(g) == n + 1 + k, "number of points")


def rejected(ctx):
    """Rejected input leaves the group as it was."""
    from scaks.utilities.coordinate_utilities import CoordsGroup
    x = ctx.real("x", lo=-9, hi=9)
    g = CoordsGroup([[x, 0.5, 1.0]], ["C"])
    what = ctx.choice("what", ["short", "long", "tuple", "int", "text", "element", "extend-", "extend+", "init-", "init+"])
    args = {"short": ([x, 1.0],), "long": ([x, 1.0, 2.0, 3.0],), "tuple": ((x, 1.0, 2.0),), "int": ([x, 1, 2.0],),
            "text": ([x, "1", 2.0],), "element": ([x, 1.0, 2.0], 3)}
    if what in args:
        ctx.raises(ValueError, "wrong points and elements are rejected", g.append, *args[what])
    elif what.startswith("extend"):
        ctx.raises(ValueError, "different lengths are rejected", g.extend, [[x, 1.0, 2.0], [x, 2.0, 3.0]],
                   ["C"] if what == "extend-" else ["C"] * 3)
    else:
        ctx.raises(ValueError, "different lengths are rejected", CoordsGroup, [[x, 1.0, 2.0], [x, 2.0, 3.0]],
                   ["C"] if what == "init-" else ["C"] * 3)
    ctx.check(len(g) == 1 and list(g.elements()) == ["C"], "the group is left alone")
    same(ctx, g.coordinates(), [[x, 0.5, 1.0]], "the group is left alone")


SCENARIOS = [
    Scenario(move, [dict(n=0, els=None), dict(n=1, els=None), dict(n=2, els=["C", "V"]), dict(n=3, els=["C", "V", "O_s"])],
             [dict(n=5, els=None)], bounds=BOUNDS),
    Scenario(bad_move, [dict(n=0), dict(n=1), dict(n=3)], bounds=BOUNDS),
    Scenario(join, [dict(na=1, nb=1, ea=["V"], eb=["C"], share=[]), dict(na=1, nb=1, ea=["C"], eb=["O_s"], share=[]),
                    dict(na=2, nb=1, ea=["O_s", "V"], eb=["C"], share=[(0, 0)]),
                    dict(na=2, nb=2, ea=["V", "V"], eb=["C", "V"], share=[(0, 0), (1, 1)]),
                    dict(na=2, nb=2, ea=["V", "C"], eb=["C", "O_s"], share=[(0, 0), (0, 1)]),
                    dict(na=0, nb=2, ea=[], eb=["C", "V"], share=[]), dict(na=2, nb=0, ea=["C", "V"], eb=[], share=[])],
             [dict(na=3, nb=2, ea=["V", "C", "V"], eb=["C", "O_s"], share=[(0, 0), (2, 1)]),
              dict(na=2, nb=3, ea=["V", "C"], eb=["C", "O_s", "V"], share=[(0, 0), (1, 1), (1, 2)])], bounds=BOUNDS),
    Scenario(grow, [dict(n=0, k=0, els=False), dict(n=1, k=2, els=True), dict(n=2, k=3, els=False)], bounds=BOUNDS),
    Scenario(rejected, bounds=BOUNDS),
]
