"""Building lattices, configurations and couplings of the code under test, and encoding what it returns."""
import math

import numpy as np

import latticeFunctions as lF
import baseConstruction as bC
import interactions as itr
import hamiltonianConstruction as hC
import initialComputations as iC

BAD = 999999937      # an amplitude that is not a multiple of the unit

PRM = [("t", "t"), ("J", "J"), ("Jhpar", "Jpar"), ("Jhper", "Jper"), ("hSDpar", "hpar"), ("hSDper", "hper"),
       ("tNNN", "tbent"), ("tnNNN", "tstraight"), ("VNN", "VNN"), ("VNNNper", "VNNNper")]
TERMS = ["t", "z", "ij", "SD", "tN", "V"]


def shape(kind, nbh, nbv, n):
    """Width and height used by the specification (of one block for clusters and peripheral)."""
    return nbh * n, nbv * n


def nsites(kind, nbh, nbv, n):
    w, h = shape(kind, nbh, nbv, n)
    return {"periodic": w * h, "clusters": 2 * w * h, "ring": 2 * (w + h), "peripheral": w * h + 2 * (w + h)}[kind]


def bond_matrix(kind, nbh, nbv, n):
    return {"periodic": lF.build_rectangular_bond_matrix, "clusters": lF.build_bond_matrix_block_embedding,
            "ring": lF.build_bond_matrix_neel_outer_lattice,
            "peripheral": lF.build_bond_matrix_neel_embedding}[kind](nbh, nbv, n)


def configuration(kind, nbh, nbv, n, nholes, nbeta, restriction=(), as_tuple=False):
    r = restriction if isinstance(restriction, tuple) and restriction and isinstance(restriction[0], list) else list(restriction)
    if as_tuple and r:
        r = (list(restriction), list(restriction))
    return bC.Configuration(bond_matrix(kind, nbh, nbv, n), nholes, nbeta, r, kind,
                            2 * nbh if kind == "clusters" else nbh, nbv, n)


def dim(n, nh, nb):
    return math.comb(n, nh) * math.comb(n - nh, nb)


def contents(n, cap):
    return [(nh, nb) for nh in range(n + 1) for nb in range(n - nh + 1) if dim(n, nh, nb) <= cap]


KINDS = {"int": 1.0, "pyint": 1, "dyadic": 8.0, "seven": 7.0, "tiny": 7e9, "huge": 7e-6, "mixed": 7.0}


def couplings(r, kind="int"):
    """Random couplings: distinct non-zero integers in units of 1/scale, sometimes zeros.  Returns (prm, scale).

    The kinds differ in the unit (exact in binary or not, tiny, huge, couplings of very different sizes) and in the
    Python type of the coefficients (an int scale: the coefficients are handed over as ints)."""
    if kind == "any":
        kind = r.choice(["int", "pyint", "dyadic", "seven", "seven", "tiny", "huge", "mixed"])
    scale = KINDS[kind]
    vals = r.sample([v for v in range(-19, 20) if v != 0], len(PRM))
    prm = {k: v for (_, k), v in zip(PRM, vals)}
    if r.random() < 0.25:
        for k in r.sample(list(prm), 3):
            prm[k] = 0
    elif r.random() < 0.4:                  # couplings that are equal, or opposite
        a, *others = r.sample(list(prm), r.choice([2, 2, 3, 5, len(prm)]))
        for k in others:
            prm[k] = prm[a] * r.choice([1, 1, 1, -1])
    elif r.random() < 0.2:                  # couplings of a term that add up to zero
        a, b = r.sample(["J", "Jpar", "Jper"], 2)
        c, = {"J", "Jpar", "Jper"} - {a, b}
        prm[c] = -prm[a] - prm[b]
        for a, b in (("hpar", "hper"), ("tbent", "tstraight"), ("VNN", "VNNNper")):
            prm[b] = -prm[a]
    if kind == "mixed":
        for k in r.sample(list(prm), 5):
            prm[k] *= 100000
    return prm, scale


OWN = {"t": ["t"], "z": ["J", "Jpar", "Jper"], "ij": ["J", "Jpar", "Jper"], "SD": ["hpar", "hper"], "tN": ["tbent", "tstraight"], "V": ["VNN", "VNNNper"]}


def bare(r, prm, sel):
    """The same couplings for the selected terms, with some or all of the others zero."""
    own = {k for t in sel for k in OWN[t]}
    p = r.choice([0.5, 1])
    return {k: v if k in own or r.random() >= p else 0 for k, v in prm.items()}


def interactions(prm, scale):
    return itr.Interactions(**{a: prm[k] if isinstance(scale, int) else prm[k] / scale for a, k in PRM})


def booleans(sel):
    return iC.BoolInteractions(bt="t" in sel, bz="z" in sel, bij="ij" in sel, bSD="SD" in sel, btN="tN" in sel, bV="V" in sel)


def quarter(x, scale=1):
    """An amplitude in quarters of the unit; BAD when it is not a multiple of it."""
    try:
        v = float(x) * 4 * scale
    except (TypeError, ValueError):
        return BAD
    if not math.isfinite(v) or abs(v) > 2e9 or abs(v - round(v)) > 1e-9 * max(1, abs(v)):
        return BAD
    return int(round(v))


def rows(ham, scale):
    """The rows of a sparse matrix as lists of [column, amplitude], zeros dropped."""
    m = ham.tocoo()
    acc = [dict() for _ in range(m.shape[0])]
    for i, j, v in zip(m.row.tolist(), m.col.tolist(), m.data.tolist()):
        acc[i][j] = acc[i].get(j, 0) + v
    return [[[j, q] for j, q in ((j, quarter(v, scale)) for j, v in sorted(d.items())) if q != 0] for d in acc]


def word(det, nh, nb):
    """Occupation word of a determinant (0 hole, -1 down, 1 up)."""
    w = [1] * len(det)
    for s in det[:nh]:
        w[s] = 0
    for s in det[nh:nh + nb]:
        w[s] = -1
    return w


def random_word(r, n, nh, nb):
    w = [0] * nh + [-1] * nb + [1] * (n - nh - nb)
    r.shuffle(w)
    return w


def det_of(w):
    return [s for s, v in enumerate(w) if v == 0] + [s for s, v in enumerate(w) if v == -1] + [s for s, v in enumerate(w) if v == 1]


def plain(x):
    """Numpy scalars and containers as plain Python values."""
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def int_det(d):
    """A determinant as a list of ints, or [-1] when it is not one (so that it never compares equal)."""
    try:
        out = [int(s) for s in d]
        if any(float(s) != o for s, o in zip(d, out)):
            return [-1]
        return out
    except (TypeError, ValueError):
        return [-1]
