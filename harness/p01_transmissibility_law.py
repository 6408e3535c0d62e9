"""Two-point flux coefficients of the grid."""
from harness.common import *

META = dict(
    bounds="shapes up to 3x1x1, 2x2x1 (all planes) and 2x2x2 interior cells; every cell length, permeability symbolic and positive; single shapes 101x1x1, 9x9x1, 1x1x101, 5x4x5 (cell ids of three digits)",
    outside="larger shapes; floating point rounding",
)
SHAPES = [(1, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 3), (3, 2, 1), (2, 1, 3), (1, 3, 2), (2, 2, 2)]


def law(env, g, shape, ax, a, b):
    """harmonic two-point coefficient between neighbouring cells a and b"""
    s = ax
    d, A, k = g.d[s], g.A[s], g.k[s]
    c = g.factors["transmissibility conversion"]
    return 2 * c / (d[a] / (A[a] * k[a]) + d[b] / (A[b] * k[b]))


def percell(env, shape, d, k, unify):
    g = grid(env, shape, d=d, k=k, unify=unify)
    bset = set(boundary(shape))
    for cid in interior(shape):
        nb = neighbors(shape, cid, True)
        want = {n: law(env, g, shape, ax, cid, n) for ax in "xyz" for n in nb[ax]}
        got = g.get_cell_G(id=cid, boundary=True)
        env.eq("cell coefficients with boundaries", {int(i): v for i, v in got.items()}, want)
        got = g.get_cell_G(id=cid, boundary=False)
        env.eq("cell coefficients without boundaries", {int(i): v for i, v in got.items()}, {n: v for n, v in want.items() if n not in bset})
        ijk = {c: t for c, t, _ in cells(shape)}
        for b in (True, False):
            got = g.get_cell_G(id=None, coords=ijk[cid], boundary=b)
            env.eq("cell coefficients by coordinates", {tuple(int(x) for x in i): v for i, v in got.items()}, {ijk[n]: v for n, v in want.items() if b or n not in bset})
        for n, v in want.items():
            env.lt("positive", 0, v)
    env.observe("G", {int(c): {int(i): v for i, v in g.get_cell_G(id=c, boundary=True).items()} for c in interior(shape)})


def matrix(env, shape, d, k, sparse, bound, unify):
    g = grid(env, shape, d=d, k=k, unify=unify)
    G = dense(env, g.get_cells_G(bound, sparse))
    ids = [c for c, _, _ in cells(shape)] if bound else interior(shape)
    pos = {c: i for i, c in enumerate(ids)}
    n = len(ids)
    env.same("shape", tuple(G.shape), (n, n))
    want = [[env.zero()] * n for _ in range(n)]
    for ax, a, b in adjacent(shape):
        if a in pos and b in pos:
            want[pos[a]][pos[b]] = want[pos[b]][pos[a]] = law(env, g, shape, ax, a, b)
    env.eq("matrix", G, env.arr(want))
    env.observe("G", G)


def obligations(tier):
    out = []
    for s in SHAPES[1:]:
        big = s == (2, 2, 2)
        combos = [("sym", "sym"), ("uniform", "uniform"), ("uniform", "sym"), ("sym", "uniform")]
        for d, k in combos:
            out.append(Obligation(percell, dict(shape=s, d=d, k=k, unify=True)))
            for sparse in (False, True):
                for b in (False, True):
                    if big and b and (d, k) != ("sym", "sym") and tier == "quick":
                        continue
                    out.append(Obligation(matrix, dict(shape=s, d=d, k=k, sparse=sparse, bound=b, unify=True)))
    for s in [(3, 1, 1), (2, 1, 3), (2, 2, 2)]:
        out.append(Obligation(percell, dict(shape=s, d="sym", k="sym", unify=False)))
        out.append(Obligation(matrix, dict(shape=s, d="sym", k="sym", sparse=False, bound=False, unify=False)))
    # cell ids of three digits
    for s in [(101, 1, 1), (9, 9, 1), (1, 1, 101), (5, 4, 5)]:
        for d, k in [("sym", "sym"), ("uniform", "uniform")]:
            out.append(Obligation(percell, dict(shape=s, d=d, k=k, unify=True)))
            out.append(Obligation(matrix, dict(shape=s, d=d, k=k, sparse=s[0] != 9, bound=d == "uniform", unify=True)))
            out.append(Obligation(matrix, dict(shape=s, d=d, k=k, sparse=s[0] == 9, bound=d == "sym", unify=True)))
    return out
