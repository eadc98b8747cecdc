"""Recorders and checks of symmetries and spin operators: C11, C12, C14, C15."""
import itertools
import random

import numpy as np

from core import attempt, pick, quick, rng
import model as M
import davidson as dav
from model import bC, hC, itr, lF
from basis import chain, conf_of, field, whole
from ham import SMALL, MEDIUM


def build(lat, nh, nb, sel, prm, scale, restriction=()):
    """Recorded rows of a Hamiltonian, and the error if there was one."""
    def f():
        conf = M.configuration(*lat, nh, nb, restriction)
        return M.rows(hC.build_hamiltonian(conf, M.interactions(prm, scale), bC.construct_basis(conf), M.booleans(sel)), scale)
    rows, err = attempt(f)
    return rows or [], err


def descriptions(lat):
    """Other descriptions of the same lattice: (lattice, isometry that maps the first onto it)."""
    kind, a, b, n = lat
    w, h = M.shape(*lat)
    out = []
    if kind in ("periodic", "clusters"):
        full = (2 * w, h) if kind == "clusters" else (w, h)
        out.append((("periodic", full[0], full[1], 1), "id"))
        out.append((("periodic", full[1], full[0], 1), "transp"))
        if full[0] % 2 == 0:
            out.append((("clusters", full[0] // 2, full[1], 1), "id"))
        if full[1] % 2 == 0:
            out.append((("clusters", full[1] // 2, full[0], 1), "transp"))
        for s in (2, 3):
            if full[0] % s == 0 and full[1] % s == 0:
                out.append((("periodic", full[0] // s, full[1] // s, s), "mirx"))
    else:
        out.append((("peripheral", h, w, 1), "rot90"))
        for s in (2,):
            if w % s == 0 and h % s == 0:
                out.append((("peripheral", w // s, h // s, s), "miry"))
    return [o for o in out if o[0] != lat]


def symmetry_scenario(sid, lat, nh, nb, sel, prm, scale):
    n = M.nsites(*lat)
    w, h = M.shape(*lat)
    rows, err = build(lat, nh, nb, sel, prm, scale)
    others = []
    for o, g in descriptions(lat):
        rr, e = build(o, nh, nb, sel, prm, scale)
        ow, oh = M.shape(*o)
        others.append({"kind": o[0], "w": ow, "h": oh, "g": g, "flip": False, "rows": rr, "err": e})
    rr, e = build(lat, nh, n - nh - nb, sel, prm, scale)
    others.append({"kind": lat[0], "w": w, "h": h, "g": "id", "flip": True, "rows": rr, "err": e})
    return {"id": sid, "kind": lat[0], "w": w, "h": h, "n": n, "nh": nh, "nb": nb, "rows": rows, "err": err,
            "sel": sel, "prm": prm, "symmetries": True, "others": others}


WIDE = [("periodic", 1, 3, 2), ("periodic", 3, 1, 2), ("periodic", 2, 1, 3), ("periodic", 1, 2, 3), ("periodic", 2, 2, 2), ("periodic", 4, 1, 2),
        ("periodic", 1, 4, 2), ("periodic", 1, 1, 4), ("clusters", 1, 1, 3), ("clusters", 1, 2, 2), ("peripheral", 1, 2, 2), ("peripheral", 2, 1, 2),
        ("peripheral", 1, 1, 3), ("periodic", 7, 2, 1), ("periodic", 2, 7, 1), ("periodic", 13, 1, 1)]


def c11(c):
    r = rng("C11")
    jobs = []
    for lat in SMALL[1:] + MEDIUM + ([("periodic", 3, 4, 1), ("clusters", 3, 2, 1), ("peripheral", 3, 2, 1)] if not quick() else []):
        n = M.nsites(*lat)
        cap = pick(170, 500)
        cs = [x for x in M.contents(n, cap) if x[0] >= 1 and n - x[0] >= 1 and M.dim(n, *x) >= (cap / 15 if n > 6 else 1)] \
            or [x for x in M.contents(n, cap) if x[0] >= 1]
        for nh, nb in r.sample(cs, min(len(cs), pick(2, 8))):
            prm, scale = M.couplings(r)
            sel = [t for t in M.TERMS if r.random() < 0.8] or ["t"]
            jobs.append((symmetry_scenario, ("y%d" % len(jobs), lat, nh, nb, sel, prm, scale)))
    # Few particles on the larger lattices and their many descriptions.
    for lat in WIDE:
        n = M.nsites(*lat)
        cs = [(nh, nb) for nh, nb in M.contents(n, 160) if nh >= 1 and n - nh >= 1]
        for nh, nb in r.sample(cs, min(len(cs), pick(1, 4))):
            prm, scale = M.couplings(r)
            jobs.append((symmetry_scenario, ("w%d" % len(jobs), lat, nh, nb, [t for t in M.TERMS if r.random() < 0.8] or ["t"], prm, scale)))
    scns = c.record(jobs, limit=200)
    c.tlc("Algebra", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns), traces=sum(1 + len(s["others"]) for s in scns))
    c.sample({k: scns[3][k] for k in ("id", "kind", "w", "h", "nh", "nb", "sel", "prm")} | {"first_rows": scns[3]["rows"][:2]})


def s2_rows(conf):
    """The code's S^2 as rows, from its action on basis vectors."""
    d = conf.nb_conf
    out = [[] for _ in range(d)]
    for j in range(d):
        v = np.zeros((d, 1))
        v[j, 0] = 1
        x = np.asarray(itr.compute_S2(conf, v)).reshape(-1)
        for i in range(d):
            if x[i] != 0:
                out[i].append([j, M.quarter(x[i])])
    return out


def commute_scenario(sid, lat, nh, nb, sel, prm, scale, restriction, with_s2):
    n = M.nsites(*lat)
    w, h = M.shape(*lat)
    rows, err = build(lat, nh, nb, sel, prm, scale, restriction)
    out = {"id": sid, "kind": lat[0], "w": w, "h": h, "n": n, "nh": nh, "nb": nb, "rows": rows, "err": err, "sel": sel,
           "prm": prm, "r": list(restriction), "commute": True}
    if with_s2:
        s2, e = attempt(lambda: s2_rows(M.configuration(*lat, nh, nb, restriction)))
        out["s2"] = s2 or []
        out["err"] = out["err"] or e
    if nb > 0:
        up, e = build(lat, nh, nb - 1, sel, prm, scale, restriction)
        out["up"] = up
        out["err"] = out["err"] or e
    return out


def c12(c):
    r = rng("C12")
    jobs = []
    for lat in SMALL[1:] + MEDIUM:
        n = M.nsites(*lat)
        cap = pick(200, 600)
        cs = [x for x in M.contents(n, cap) if x[1] >= 1 and n - sum(x) >= 1 and x[0] >= (1 if n > 2 else 0)
              and M.dim(n, *x) >= (cap / 6 if n > 6 else 1)]
        for nh, nb in r.sample(cs, min(len(cs), pick(2, 6))):
            prm, scale = M.couplings(r)
            sel = [t for t in ("t", "SD", "tN", "V") if r.random() < 0.7] + (["z", "ij"] if r.random() < 0.8 else [])
            res = r.sample(range(n), r.randint(max(1, n // 2), n)) if r.random() < 0.2 else []
            jobs.append((commute_scenario, ("c%d" % len(jobs), lat, nh, nb, sel, prm, scale, res, M.dim(n, nh, nb) <= pick(45, 110))))
    # Two electrons on wide lattices, with the code's own S^2.
    for lat in pick([("periodic", 1, 1, 3), ("periodic", 9, 1, 1), ("periodic", 1, 10, 1)],
                    [("periodic", 1, 1, 3), ("periodic", 9, 1, 1), ("periodic", 1, 10, 1), ("clusters", 1, 5, 1), ("periodic", 4, 3, 1), ("peripheral", 1, 2, 1),
                     ("periodic", 11, 1, 1)]):
        n = M.nsites(*lat)
        prm, scale = M.couplings(r)
        jobs.insert(0, (commute_scenario, ("e%d" % len(jobs), lat, n - 2, 1, ["t", "SD", "tN", "V", "z", "ij"], prm, scale, [], True)))
    scns = c.record(jobs, limit=200)
    c.tlc("Algebra", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample({k: scns[-4][k] for k in ("id", "kind", "w", "h", "nh", "nb", "sel", "prm")} | {"first_rows": scns[-4]["rows"][:2]})
    c.extra["with_recorded_S2"] = sum("s2" in s for s in scns)


# -- spin operators ---------------------------------------------------------------------------
def ints(x, factor):
    return [M.BAD if abs(v * factor - round(v * factor)) > 1e-6 else int(round(v * factor)) for v in np.asarray(x, dtype=float).reshape(-1).tolist()]


def operator_scenario(sid, n, nh, nb, npairs, nvec, seed, with_rows, lat=None):
    r = random.Random(seed)
    d = M.dim(n, nh, nb)
    out = {"id": sid, "n": n, "nh": nh, "nb": nb, "err": ""}
    conf = M.configuration(*lat, nh, nb) if lat else conf_of(n, nh, nb, seed)
    words = sorted({tuple(w) for w in itertools.permutations([0] * nh + [-1] * nb + [1] * (n - nh - nb))}) if n <= 6 else None
    if words is not None:
        dets = sorted(M.det_of(w) for w in words)
    else:
        dets = []
        for hs in itertools.combinations(range(n), nh):
            rest = [s for s in range(n) if s not in hs]
            for bs in itertools.combinations(rest, nb):
                dets.append(list(hs) + list(bs) + [s for s in rest if s not in bs])
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b]

    def f():
        if pairs:
            out["pm"], out["zz"] = [], []
        for det in dets if pairs else []:
            ps = pairs if len(pairs) <= npairs else r.sample(pairs, npairs)
            out["pm"].append([[a, b, M.int_det(itr.compute_S_plus_S_minus_det(conf, list(det), a, b) or [])] for a, b in ps])
            ps = ps + [(a, a) for a in (range(n) if n <= 3 else r.sample(range(n), 2))]
            out["zz"].append([[a, b, M.quarter(itr.compute_spins_z_two_bodies_det(conf, list(det), a, b))] for a, b in ps])
        out["vecs"] = []
        for _ in range(nvec):
            v = [r.randint(-9, 9) for _ in range(d)]
            if r.random() < 0.3:        # few coefficients
                keep = set(r.sample(range(d), min(d, 2)))
                v = [x if i in keep else 0 for i, x in enumerate(v)]
            # Units exact in binary, so that every result is exact.
            unit = r.choice([1, 1.0, 1.0, 2.0 ** -40, 2.0 ** -120, 2.0 ** 50])
            arr = np.array(v, dtype=type(unit)) * unit
            if r.random() < 0.7:
                arr = arr.reshape(-1, 1)
            keep = arr.copy()
            ps = r.sample(pairs, min(len(pairs), 3))
            x = {"v": v}
            x["pm"] = [[a, b, ints(itr.compute_S_plus_S_minus(conf, arr, a, b), 1 / unit)] for a, b in ps]
            ps = ps + [(s, s) for s in r.sample(range(n), min(n, 2))]
            x["zz"] = [[a, b, ints(itr.compute_spins_z_two_bodies(conf, arr, a, b), 4 / unit)] for a, b in ps]
            x["s2"] = ints(itr.compute_S2(conf, arr), 4 / unit)
            sz, img = itr.compute_spin_z(conf, arr)
            x["sz"] = [whole(2 * sz), ints(img, 2 / unit)]
            if not np.array_equal(keep, arr):
                raise RuntimeError("the vector handed in was changed")
            out["vecs"].append(x)
        if with_rows:
            out["s2"] = s2_rows(conf)
    _, err = attempt(f)
    if err:
        out = {"id": sid, "n": n, "nh": nh, "nb": nb, "err": err}
    return out


def spin_walk(sid, seed):
    """A walk by S+S- through the states of a lattice that may be far too large to enumerate."""
    r = random.Random(seed)
    n = r.choice((7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 24, 28, 30))
    nh = r.choice((0, 1, 2, 3, r.randint(0, n - 2)))
    nb = r.randint(1, n - nh - 1)
    conf = conf_of(n, nh, nb, seed)
    occ = [0] * nh + [-1] * nb + [1] * (n - nh - nb)
    r.shuffle(occ)
    out = {"id": sid, "n": n, "nh": nh, "nb": nb, "err": "", "steps": []}
    for _ in range(r.randint(2, 6)):
        det = M.det_of(occ)
        pairs = [p for p in itertools.permutations(range(n), 2)]
        good = [p for p in pairs if occ[p[0]] == -1 and occ[p[1]] == 1]
        ps = r.sample(pairs, 12) + r.sample(good, min(len(good), 8))
        shuffled = list(det)
        if r.random() < 0.4:       # the sites of a species need not be listed in order
            parts = [det[:nh], det[nh:nh + nb], det[nh + nb:]]
            shuffled = sum((r.sample(p, len(p)) for p in parts), [])
        if r.random() < 0.3:
            shuffled = tuple(shuffled)
        kept = list(shuffled)

        def image(a, b):
            d = M.int_det(itr.compute_S_plus_S_minus_det(conf, shuffled, a, b) or [])
            # Nothing is said of the order of the sites of a species in the image of a state given in another order.
            return d if kept == det else sorted(d[:nh]) + sorted(d[nh:nh + nb]) + sorted(d[nh + nb:])
        step = {"occ": occ,
                "pm": [[a, b, field(lambda a=a, b=b: image(a, b))] for a, b in ps],
                "zz": [[a, b, field(lambda a=a, b=b: M.quarter(itr.compute_spins_z_two_bodies_det(conf, shuffled, a, b)))]
                       for a, b in ps + [(s, s) for s in r.sample(range(n), 3)]],
                "same": list(shuffled) == kept}
        out["steps"].append(step)
        images = [x[2]["val"] for x in step["pm"] if not x[2]["err"] and x[2]["val"]]
        if not images:
            break
        nxt = r.choice(images)
        if sorted(nxt) != list(range(n)):
            break                  # not a state: the step above is a violation already
        occ = [0] * n
        for i, s in enumerate(nxt):
            occ[s] = 0 if i < nh else -1 if i < nh + nb else 1
    return out


def c14(c):
    r = rng("C14")
    jobs = []
    for n in range(1, 6):
        for nh in range(n + 1):
            for nb in range(n - nh + 1):
                jobs.append((operator_scenario, ("s%d" % len(jobs), n, nh, nb, 30, pick(1, 3), r.random(), M.dim(n, nh, nb) <= 30)))
    big = [(n, nh, nb) for n in range(6, 11) for nh, nb in M.contents(n, pick(220, 600)) if M.dim(n, nh, nb) > 40]
    for n, nh, nb in r.sample(big, pick(22, 40)):
        jobs.append((operator_scenario, ("s%d" % len(jobs), n, nh, nb, 4, 1, r.random(), False)))
    # Wide lattices with few particles of two species: the state space stays small.
    wide = [(n, nh, nb) for n in range(11, 19) for nh, nb in M.contents(n, 160) if M.dim(n, nh, nb) > 1]
    for n, nh, nb in r.sample(wide, pick(10, 24)):
        jobs.append((operator_scenario, ("s%d" % len(jobs), n, nh, nb, 6, 1, r.random(), False)))
    # Clusters of three or four blocks a side.
    blocs = [(9, 1, 1, 3), (16, 1, 1, 4), (18, 2, 1, 3), (18, 1, 2, 3)]
    for n, *lat in [r.choice(blocs) for _ in range(pick(10, 30))]:
        nh, nb = r.choice(M.contents(n, 160))
        jobs.append((operator_scenario, ("s%d" % len(jobs), n, nh, nb, 4, 1, r.random(), False, ("periodic", *lat))))
    walks = c.record([(spin_walk, ("w%d" % j, r.random())) for j in range(pick(600, 2500))], limit=100)
    c.tlc("SpinWalk", walks, expect_states=sum(1 + len(w["steps"]) for w in walks))
    c.extra["walk_steps"] = sum(len(w["steps"]) for w in walks)
    scns = c.record(jobs, limit=200)
    c.tlc("Spin", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample(next(s for s in scns if s["n"] == 3 and s["nh"] == 1 and s["nb"] == 1))


def valence_vector(r, n, nh, nb, p=None):
    """An eigenvector of S^2 with integer components: p singlet pairs times a symmetric rest.  Returns (v, 2s)."""
    na = n - nh - nb
    if p is None:
        p = r.randint(0, min(na, nb))
    sites = list(range(n))
    r.shuffle(sites)
    el = sites[nh:]
    pairs = [(el[2 * i], el[2 * i + 1]) for i in range(p)]
    rest = el[2 * p:]
    v = {}
    for choice in itertools.product((0, 1), repeat=p):
        for downs in itertools.combinations(rest, nb - p):
            w = [0] * n
            for s in rest:
                w[s] = -1 if s in downs else 1
            for (a, b), x in zip(pairs, choice):
                w[a], w[b] = (1, -1) if x else (-1, 1)
            v[tuple(M.det_of(w))] = (-1) ** sum(choice)
    return v, len(rest)


def edge_vector(r, n, nh, nb):
    """A mixture of two multiplets whose expectation of S^2 is close to a limit between two spin numbers."""
    p, q = r.sample(range(min(n - nh - nb, nb) + 1), 2)
    (u, ku), (v, kv) = valence_vector(r, n, nh, nb, p), valence_vector(r, n, nh, nb, q)
    lu, lv = ku * (ku + 2) / 4, kv * (kv + 2) / 4
    nu, nv = sum(x * x for x in u.values()), sum(x * x for x in v.values())
    limits = [(2 * k + 1) * (2 * k + 5) / 16 for k in range(min(ku, kv), max(ku, kv))]
    limit, above = r.choice(limits), r.random() < 0.5
    best = None
    for a in range(1, 16):
        for b in range(1, 16):
            e = (a * a * nu * lu + b * b * nv * lv) / (a * a * nu + b * b * nv)
            if (e > limit) == above and abs(e - limit) > 1e-5 and (best is None or abs(e - limit) < best[0]):
                best = (abs(e - limit), a, b)
    _, a, b = best or (0, 1, 1)
    return {d: a * u.get(d, 0) + b * v.get(d, 0) for d in set(u) | set(v)}


def spin_scenario(sid, n, nh, nb, kind, seed):
    r = random.Random(seed)
    d = M.dim(n, nh, nb)
    conf = conf_of(n, nh, nb, seed)
    dets = []
    for hs in itertools.combinations(range(n), nh):
        rest = [s for s in range(n) if s not in hs]
        for bs in itertools.combinations(rest, nb):
            dets.append(tuple(list(hs) + list(bs) + [s for s in rest if s not in bs]))
    exact = -1
    if kind == "exact":
        coeff, exact = valence_vector(r, n, nh, nb)
        v = [coeff.get(t, 0) for t in dets]
    elif kind == "edge":
        coeff = edge_vector(r, n, nh, nb)
        v = [coeff.get(t, 0) for t in dets]
    elif kind == "dense":
        v = [r.randint(-5, 5) for _ in dets]
    elif kind == "zero":
        v = [0] * d
    else:
        v = [0] * d
        for j in r.sample(range(d), min(d, r.randint(1, 3))):
            v[j] = r.choice([-2, -1, 1, 1, 2])
    arr = np.array(v, dtype=float).reshape(-1, 1)
    den = sum(x * x for x in v)

    def expectation():
        e = float(itr.compute_S2_exp_val(conf, arr)) * 4 * den
        return M.BAD if abs(e - round(e)) > 1e-4 else int(round(e))
    alt = [arr, -arr, arr * 0.001, arr * 1e-12, arr * 1e12, arr.reshape(-1)]
    if den:
        alt.append(arr / np.linalg.norm(arr))
    k2 = [field(lambda a=a: whole(2 * itr.compute_spin_number(conf, a))) for a in alt]
    # Several vectors at once: spin numbers and names.
    table, err = attempt(lambda: dav.compute_spin_and_multiplicity(bC.Basis(conf, [list(t) for t in dets]), np.hstack([arr, -arr, arr * 300.0])))
    several = {"err": err, "k2": [], "names": []}
    if not err:
        _, several["err"] = attempt(lambda: several.update(k2=[whole(2 * x) for x in table[0]], names=[str(x) for x in table[1]]))
    return {"id": sid, "n": n, "nh": nh, "nb": nb, "err": "",
            "spin": {"v": v, "several": several, "exp": field(expectation), "k2": k2, "exact": exact, "kind": kind}}


def c15(c):
    r = rng("C15")
    jobs = []
    small = [(n, nh, nb) for n in range(1, 5) for nh in range(n + 1) for nb in range(n - nh + 1)]
    big = [(n, nh, nb) for n in range(5, 9) for nh, nb in M.contents(n, pick(260, 800)) if M.dim(n, nh, nb) > 15]
    wide = [(n, nh, nb) for n in range(9, 15) for nh, nb in M.contents(n, 100) if M.dim(n, nh, nb) > 1]
    for n, nh, nb in small + r.sample(big, pick(36, 80)) + r.sample(wide, pick(16, 30)):
        for kind in ("exact", "exact", "few", "dense", "edge", "edge") if n > 2 else ("exact", "dense", "zero", "edge", "edge"):
            if kind == "dense" and n > 6 or kind == "edge" and min(nb, n - nh - nb) == 0:
                continue
            jobs.append((spin_scenario, ("p%d" % len(jobs), n, nh, nb, kind, r.random())))
    scns = c.record(jobs, limit=200)
    names = [[-1, attempt(itr.compute_spin_multiplicity, "-")[0]]]
    for k2 in range(0, 16):
        v, err = attempt(itr.compute_spin_multiplicity, k2 / 2)
        names.append([k2, err or v or "none"])
    scns.append({"id": "names", "n": 1, "nh": 1, "nb": 0, "err": "", "names": names})
    c.tlc("Spin", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample(next(s for s in scns if s["n"] == 3 and s["nh"] == 1 and s["nb"] == 1))
