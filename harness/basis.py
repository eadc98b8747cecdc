"""Recorders and checks of states, numbering and lattices: C01 - C05."""
import numpy as np

from core import attempt, pick, quick, rng
import model as M
from model import bC, lF


def chain(n):
    return np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1) if n > 1 else np.zeros((1, 1))


def lattices_of(n):
    """Lattices with n sites, as (kind, nbh, nbv, side)."""
    out = [("periodic", a, n // a, 1) for a in range(1, n + 1) if n % a == 0]
    out += [("periodic", a, n // k ** 2 // a, k) for k in (2, 3, 4) if n % k ** 2 == 0 for a in range(1, n // k ** 2 + 1) if n // k ** 2 % a == 0]
    out += [("clusters", a, n // 2 // a, 1) for a in range(1, n // 2 + 1) if n % 2 == 0 and n // 2 % a == 0]
    out += [("peripheral", a, b, 1) for a in range(1, 15) for b in range(1, 15) if a * b + 2 * (a + b) == n]
    return out


def some_restriction(r, n):
    """None, some or all sites, in any order, as one list or as two."""
    x = r.random()
    if x < 0.4 or not n:
        return []
    one = r.sample(range(n), r.randint(1, n))
    return one if x < 0.8 else (one, r.sample(range(n), r.randint(1, n)))


def conf_of(n, nh, nb, *salt):
    """A configuration of this content.  States and their numbers do not depend on the lattice nor on the allowed sites."""
    r = rng("conf", n, nh, nb, *salt)
    if n == 0 or n > 40 or r.random() < 0.2:
        return bC.Configuration(chain(n), nh, nb, some_restriction(r, n))
    return M.configuration(*r.choice(lattices_of(n)), nh, nb, some_restriction(r, n))


def field(fn):
    val, err = attempt(fn)
    return {"err": err, "val": [] if err else val}


def whole(x):
    """x as an int, or BAD."""
    try:
        return int(x) if int(x) == x else M.BAD
    except (TypeError, ValueError, OverflowError):
        return M.BAD


def basis_scenario(n, nh, nb):
    out = {"id": "b%d.%d.%d" % (n, nh, nb), "n": n, "nh": nh, "nb": nb}
    out["dets"] = field(lambda: [M.int_det(d) for d in bC.construct_basis(conf_of(n, nh, nb)).determinants])
    out["again"] = field(lambda: [M.int_det(d) for d in bC.construct_basis(conf_of(n, nh, nb, 1)).determinants])

    def announced():
        c = conf_of(n, nh, nb)
        return [whole(c.nsites), whole(c.nholes), whole(c.nbeta), whole(c.nalpha), whole(c.nb_conf), whole(2 * c.spin_number),
                whole(round(c.doping * n, 9))]
    out["conf"] = field(announced)
    return out


def number_scenario(n, nh, nb, seed):
    r = rng("C02", n, nh, nb)
    out = {"id": "n%d.%d.%d" % (n, nh, nb), "n": n, "nh": nh, "nb": nb}
    import itertools
    dets = []
    for hs in itertools.combinations(range(n), nh):
        rest = [s for s in range(n) if s not in hs]
        for bs in itertools.combinations(rest, nb):
            dets.append((list(hs), list(bs), [s for s in rest if s not in bs]))
    mixed = []
    for a, b, c in dets:
        a, b, c = a[:], b[:], c[:]
        r.shuffle(a), r.shuffle(b), r.shuffle(c)
        mixed.append(a + b + c)
    conf = conf_of(n, nh, nb)
    out["nums"] = field(lambda: [whole(bC.get_index_in_basis(conf, list(d))) for d in mixed])
    out["hash"] = field(lambda: [whole(bC.compute_hash_table(conf, a + b + c)) for a, b, c in dets])
    out["back"] = field(lambda: [M.int_det(bC.get_hash_basis(nh, n - nh - nb, nb, i)) for i in range(len(dets))])
    out["sort"] = field(lambda: [M.int_det(bC.reorder_basis_element(conf, list(d))) for d in mixed])
    return out


def large_scenarios(count, salt):
    r = rng("C02", salt)
    out = []
    j = 0
    while len(out) < count:
        j += 1
        n = r.randint(9, 24)
        nh = r.choice([0, 1, 2, 3, r.randint(0, n)])
        nb = r.randint(0, n - nh)
        if nh > n or M.dim(n, nh, nb) >= 2 ** 31 - 1:
            continue
        w = M.random_word(r, n, nh, nb)
        x = r.random()
        if x < 0.15:
            w = sorted(w, key=lambda v: {0: 0, -1: 1, 1: 2}[v], reverse=True)
        elif x < 0.3:
            w = w[::-1]
        det = M.det_of(w)
        hs, bs, al = det[:nh], det[nh:nh + nb], det[nh + nb:]
        r.shuffle(hs), r.shuffle(bs), r.shuffle(al)
        conf = conf_of(n, nh, nb, salt, j)
        s = {"id": "l%d" % j, "n": n, "nh": nh, "nb": nb, "occ": w}
        s["num"] = field(lambda: whole(bC.get_index_in_basis(conf, hs + bs + al)))
        s["hash"] = field(lambda: whole(bC.compute_hash_table(conf, list(det))))
        s["dim"] = field(lambda: whole(lF.compute_dimension(n, n - nh - nb, nb)))
        s["ms2"] = field(lambda: whole(2 * lF.compute_ms(n - nh - nb, nb)))
        import math
        ch, cb = math.comb(n, nh), math.comb(n - nh, nb)
        ih, ib = r.randrange(min(ch, 20000)), r.randrange(min(cb, 20000))
        if ch <= 200000:
            ih = r.randrange(ch)
        s["ind"] = ih * cb + ib
        s["back"] = field(lambda: M.int_det(bC.get_hash_basis(nh, n - nh - nb, nb, s["ind"])))
        out.append(s)
    return out


def limbs(x):
    """A natural number in base 1000, least significant first; [-1] when x is not one."""
    try:
        v = int(x)
        if v != x or v < 0:
            return [-1]
    except (TypeError, ValueError, OverflowError):
        return [-1]
    out = []
    while v:
        out.append(v % 1000)
        v //= 1000
    return out


def huge_scenarios(count, salt):
    """States of lattices of up to 100 sites."""
    import math
    r = rng("C02", "huge", salt)
    out = []
    for j in range(count):
        n = r.choice([r.randint(25, 60), r.randint(50, 100), 64, 100])
        nh = min(n, r.choice([0, 0, 1, 2, 3, n // 8, n // 4, n // 2, r.randint(0, n)]))
        nb = r.choice([r.randint(0, n - nh), (n - nh) // 2, (n - nh) // 2])
        if j % 10 == 3:       # more sites, few particles
            n = r.choice([r.randint(120, 180), r.randint(250, 300)])
            nh, nb = r.choice([(1, 1), (2, 1), (1, 2), (0, 2), (2, 0), (3, 3)])
        w = M.random_word(r, n, nh, nb)
        x = r.random()
        if x < 0.2:            # high numbers: holes and spins down on the last sites
            w = sorted(w, key=lambda v: {0: 0, -1: 1, 1: 2}[v], reverse=True)
            for _ in range(3):
                a, b = r.randrange(n), r.randrange(n)
                w[a], w[b] = w[b], w[a]
        elif x < 0.5:          # a few species move little, so that low digits matter
            w = sorted(w, key=lambda v: {0: 0, -1: 1, 1: 2}[v])
            for _ in range(r.randint(1, 6)):
                a, b = r.randrange(n), r.randrange(n)
                w[a], w[b] = w[b], w[a]
        det = M.det_of(w)
        hs, bs, al = det[:nh], det[nh:nh + nb], det[nh + nb:]
        r.shuffle(hs), r.shuffle(bs), r.shuffle(al)
        conf = conf_of(n, nh, nb)
        s = {"n": n, "nh": nh, "nb": nb, "occ": w}
        s["num"] = field(lambda: limbs(bC.get_index_in_basis(conf, hs + bs + al)))
        s["hash"] = field(lambda: limbs(bC.compute_hash_table(conf, list(det))))
        s["dim"] = field(lambda: limbs(lF.compute_dimension(n, n - nh - nb, nb)))
        # The reverse direction steps through the subsets, so only small parts of huge numbers are reached in time.
        ch, cb = math.comb(n, nh), math.comb(n - nh, nb)
        ind = r.randrange(min(ch, 3000)) * cb + r.randrange(min(cb, 3000))
        s["ind"] = limbs(ind)
        s["back"] = field(lambda: M.int_det(bC.get_hash_basis(nh, n - nh - nb, nb, ind)))
        out.append(s)
    return out


def c01(c):
    r = rng("C01")
    jobs = [(basis_scenario, (n, nh, nb)) for n in range(1, pick(7, 8)) for nh in range(n + 1) for nb in range(n - nh + 1)]
    big = [(n, nh, nb) for n in range(7, pick(12, 15)) for nh, nb in M.contents(n, pick(1300, 6000)) if M.dim(n, nh, nb) > 60]
    jobs += [(basis_scenario, x) for x in r.sample(big, pick(20, 60))]
    wide = [(n, nh, nb) for n in range(12, 21) for nh, nb in M.contents(n, pick(400, 1400))]
    jobs += [(basis_scenario, x) for x in r.sample(wide, pick(8, 40))]
    scns = c.record(jobs)
    c.tlc("BasisEnum", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample(next(s for s in scns if s["n"] == 4 and s["nh"] == 1 and s["nb"] == 2))
    large = c.record([(dim_scenarios, (pick(300, 3000),))])
    if large:
        c.tlc("Numbering", large[0], expect_states=2 * len(large[0]))
    huge = c.record([(huge_dims, (pick(150, 1000),))])
    if huge:
        c.tlc("BigNumbering", huge[0], expect_states=2 * len(huge[0]))
        c.sample(huge[0][0])
    c.extra["bases"] = len(scns)


def huge_dims(count):
    """Announced dimension and projection of configurations of up to 100 sites."""
    r = rng("C01", "huge")
    out = []
    for j in range(count):
        n = r.randint(20, 100)
        nh = r.choice([r.randint(0, n), r.randint(0, 4)])
        nb = r.choice([r.randint(0, n - nh), (n - nh) // 2])
        conf, err = attempt(lambda: conf_of(n, nh, nb))
        s = {"id": "H%d" % j, "n": n, "nh": nh, "nb": nb, "dim": field(lambda: limbs(lF.compute_dimension(n, n - nh - nb, nb)))}
        s["conf"] = {"err": err, "val": [] if err else [
            [whole(conf.nsites), whole(conf.nholes), whole(conf.nbeta), whole(conf.nalpha), whole(2 * conf.spin_number),
             whole(round(conf.doping * n, 9))], limbs(conf.nb_conf)]}
        out.append(s)
    return out


def dim_scenarios(count):
    r = rng("C01", "dims")
    out = []
    while len(out) < count:
        n = r.randint(0, 28)
        nh = r.randint(0, n)
        nb = r.randint(0, n - nh)
        if M.dim(n, nh, nb) >= 2 ** 31 - 1:
            continue
        out.append({"id": "d%d" % len(out), "n": n, "nh": nh, "nb": nb,
                    "dim": field(lambda: whole(lF.compute_dimension(n, n - nh - nb, nb))),
                    "ms2": field(lambda: whole(2 * lF.compute_ms(n - nh - nb, nb)))})
    return out


def c02(c):
    r = rng("C02")
    jobs = [(number_scenario, (n, nh, nb, 0)) for n in range(1, pick(7, 8)) for nh in range(n + 1) for nb in range(n - nh + 1)]
    big = [(n, nh, nb) for n in range(7, pick(11, 14)) for nh, nb in M.contents(n, pick(1300, 4000)) if M.dim(n, nh, nb) > 60]
    jobs += [(number_scenario, x + (0,)) for x in r.sample(big, pick(16, 40))]
    wide = [(n, nh, nb) for n in range(11, 19) for nh, nb in M.contents(n, pick(250, 900))]
    jobs += [(number_scenario, x + (0,)) for x in r.sample(wide, pick(6, 30))]
    scns = c.record(jobs)
    c.tlc("BasisEnum", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample(next(s for s in scns if s["n"] == 4 and s["nh"] == 1 and s["nb"] == 2))
    parts = c.record([(large_scenarios, (pick(120, 1000), i)) for i in range(8)])
    large = [s for p in parts for s in p]
    for j, s in enumerate(large):
        s["id"] = "l%d" % j
    c.tlc("Numbering", large, expect_states=2 * len(large))
    c.sample(large[0])
    c.extra["numbers_of_large_lattices"] = len(large)
    parts = c.record([(huge_scenarios, (pick(25, 150), i)) for i in range(8)])
    huge = [s for p in parts for s in p]
    for j, s in enumerate(huge):
        s["id"] = "h%d" % j
    c.tlc("BigNumbering", huge, expect_states=2 * len(huge))
    c.sample(huge[0])
    c.extra["numbers_beyond_machine_integers"] = len(huge)


# -- lattices ---------------------------------------------------------------------------------
def factorizations(limit):
    """(nbh, nbv, side) with at most `limit` sites in the block."""
    return [(a, b, n) for n in range(1, 7) for a in range(1, 13) for b in range(1, 13) if a * b * n * n <= limit]


def adjacency_scenario(kind, nbh, nbv, n):
    w, h = M.shape(kind, nbh, nbv, n)

    def get():
        m = M.bond_matrix(kind, nbh, nbv, n)
        if m.ndim != 2 or m.shape[0] != m.shape[1]:
            raise ValueError("shape %r" % (m.shape,))
        return [[whole(v) for v in row] for row in m.tolist()]
    rows, err = attempt(get)
    return {"id": "%s.%d.%d.%d" % (kind, nbh, nbv, n), "kind": kind, "w": w, "h": h, "err": err, "rows": rows or []}


def c03(c):
    lim = pick(20, 36)
    jobs = [(adjacency_scenario, (kind,) + f) for kind in ("periodic", "clusters", "ring", "peripheral") for f in factorizations(lim) + big_shapes(rng("C03"), pick(4, 30), pick(60, 100))]
    scns = c.record(jobs)
    c.tlc("Geo", scns, expect_states=sum(M.nsites(*s["id"].split(".")[:1], *map(int, s["id"].split(".")[1:])) + 1 for s in scns))
    c.sample(next(s for s in scns if s["id"] == "peripheral.2.1.1"))
    c.extra["lattices"] = len(scns)


def align_scenario(kind, nbh, nbv, n, doubled, cap, seed):
    w, h = M.shape(kind, nbh, nbv, n)
    size = M.nsites(kind, nbh, nbv, n)
    r = rng("C04", kind, nbh, nbv, n)
    out = {"id": "%s.%d.%d.%d.%d" % (kind, nbh, nbv, n, doubled), "kind": kind, "w": w, "h": h}
    conf = bC.Configuration(M.bond_matrix(kind, nbh, nbv, n), 1, 1 if size > 1 else 0, [], kind,
                            2 * nbh if kind == "clusters" and doubled else nbh, nbv, n)
    near = {s: [t for t in range(size) if conf.bond_matrix[s, t] == 1] for s in range(size)}
    align = []
    for a in range(size):
        todo = set()
        for b in near[a]:
            for x in near[a]:
                todo.add((b, x))
            for x in near[b]:
                todo.update([(b, x), (x, b)])
        allp = [(b, x) for b in range(size) for x in range(size)]
        todo.update(allp if len(allp) <= cap else r.sample(allp, cap))
        recs = []
        for b, x in sorted(todo):
            v, err = attempt(bC.is_bond_linear, conf, a, b, x)
            recs.append([b, x, (2 if err.startswith("ValueError") else 3) if err else (1 if v else 0)])
        align.append(recs)
    out["align"] = align
    return out


def c04(c):
    lim = pick(12, 20)
    cap = pick(40, 120)
    jobs = []
    for f in factorizations(lim) + big_shapes(rng("C04"), pick(2, 10), pick(36, 60)):
        for kind in ("periodic", "clusters", "peripheral"):
            jobs.append((align_scenario, (kind,) + f + (1, cap, 0)))
            if kind == "clusters":
                jobs.append((align_scenario, (kind,) + f + (0, cap, 0)))
    scns = c.record(jobs, limit=200)
    c.tlc("Geo", scns, expect_states=sum(len(s["align"]) + 1 for s in scns))
    c.extra["triples"] = sum(len(a) for s in scns for a in s["align"])
    c.sample({"id": scns[10]["id"], "site 0": scns[10]["align"][0]})


def query_scenario(sid, kind, nbh, nbv, n, restriction):
    w, h = M.shape(kind, nbh, nbv, n)
    size = M.nsites(kind, nbh, nbv, n)
    out = {"id": sid, "kind": kind, "w": w, "h": h, "r": restriction}
    bm = M.bond_matrix(kind, nbh, nbv, n)
    pair = (list(restriction), list(restriction)) if restriction else []
    conf = M.configuration(kind, nbh, nbv, n, 1, 0, restriction) if kind != "ring" else None
    out["near"] = [field(lambda: [whole(t) for t in lF.get_neighbors(s, bm, list(restriction))]) for s in range(size)]
    out["near2"] = [field(lambda: [whole(t) for t in (lF.get_neighbors(s, bm, pair) if restriction else lF.get_neighbors(s, bm))]) for s in range(size)]
    out["second"] = [field(lambda: [whole(t) for t in lF.get_second_neighbors(s, bm, list(restriction))]) for s in range(size)]
    if conf is not None:
        out["diagonal"] = [field(lambda: [whole(t) for t in lF.get_diagonal_second_neighbors(conf, s)]) for s in range(size)]
    out["bonds"] = field(lambda: [[whole(v) for v in b] for b in lF.build_bond_list(bm, pair)])
    # The two ends restricted separately, sites in any order and possibly repeated.
    r = rng("C05", sid)
    two = tuple([r.choice(range(size)) for _ in range(r.randint(1, size + 2))] for _ in range(2))
    if r.random() < 0.1:      # no site at all at one end
        two = r.choice([(two[0], []), ([], two[1])])
    out["a"], out["b"] = two
    out["near3"] = [field(lambda: [whole(t) for t in lF.get_neighbors(s, bm, two)]) for s in range(size)]
    out["second3"] = [field(lambda: [whole(t) for t in lF.get_second_neighbors(s, bm, two)]) for s in range(size)]
    out["bonds3"] = field(lambda: [[whole(v) for v in b] for b in lF.build_bond_list(bm, two)])
    return out


def big_shapes(r, count, limit):
    """Shapes of blocks beyond those enumerated."""
    out = []
    while len(out) < count:
        f = (r.randint(1, 9), r.randint(1, 9), r.randint(1, 5))
        if 20 < f[0] * f[1] * f[2] ** 2 <= limit:
            out.append(f)
    return out


def c05(c):
    r = rng("C05")
    jobs = []
    for f in factorizations(pick(12, 20)) + big_shapes(r, pick(2, 10), pick(36, 60)):
        for kind in ("periodic", "clusters", "ring", "peripheral"):
            size = M.nsites(kind, *f)
            for res in [[]] + [r.sample(range(size), r.randint(1, size)) for _ in range(pick(2, 6))]:
                jobs.append((query_scenario, ("q%d" % len(jobs), kind) + f + (res,)))
    scns = c.record(jobs)
    c.tlc("Geo", scns, expect_states=sum(len(s["near"]) + 1 for s in scns))
    c.extra["lattices"] = len(scns)
    c.sample(scns[5])
