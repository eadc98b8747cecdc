"""Recorders and checks of densities, dominant states, transformations and drawings: C19 - C22."""
import random

import numpy as np

from core import attempt, pick, quick, rng
import model as M
from model import bC, iC, lF
from basis import conf_of, some_restriction, whole

RECTS = [(a, b, n) for n in (1, 2, 3) for a in range(1, 6) for b in range(1, 6) if a * b * n * n <= 12]


def vector(r, d):
    kind = r.choice(["dense", "dense", "small", "sparse"])
    if kind == "dense":
        v = [r.randint(-30, 30) for _ in range(d)]
    elif kind == "small":
        v = [r.choice([-1, 0, 1]) for _ in range(d)]
    else:
        v = [0] * d
        for j in r.sample(range(d), min(d, r.randint(1, 3))):
            v[j] = r.choice([-3, 2, 7])
    if not any(v):
        v[r.randrange(d)] = -2
    return v


def integral(x, den):
    y = float(x) * den
    return int(round(y)) if np.isfinite(y) and abs(y - round(y)) < 1e-6 * max(1, den) ** 0.5 + 1e-6 and abs(y) < 2e9 else M.BAD


def observe_scenario(sid, lat, nh, nb, what, seed):
    r = random.Random(seed)
    n = M.nsites(*lat)
    w, h = M.shape(*lat)
    d = M.dim(n, nh, nb)
    v = vector(r, d)
    im = [0] * d
    if what == "density" and r.random() < 0.3:
        im = vector(r, d)
    den = sum(x * x for x in v + im)
    scale = r.choice([1.0, 0.01, 37.0, 1 / np.sqrt(den), 1e-9, 1e6])
    arr = np.array(v, dtype=float).reshape(-1, 1) * scale
    if any(im):
        arr = arr + 1j * np.array(im, dtype=float).reshape(-1, 1) * scale
    label = {}
    if what == "reverse":                   # coefficients of any sizes, each told by its value
        sizes = r.choice([[1.0], [1.0, 1e-14], [1e-300, 1e-150, 1e-9, 1.0, 1e150]])
        label = {x: x * scale * (sizes[abs(x) % len(sizes)]) for x in v}
        arr = np.array([label[x] for x in v], dtype=float).reshape(-1, 1)
    keep = arr.copy()
    out = {"id": sid, "kind": lat[0], "w": w, "h": h, "n": n, "nh": nh, "nb": nb, "v": v, "im": im, "err": ""}

    def f():
        conf = M.configuration(*lat, nh, nb, some_restriction(r, n))
        basis = bC.construct_basis(conf)
        if what == "density":
            out["dens"] = []
            for rev in (False, True):
                p = bC.get_spins_probabilitites_lattice(basis, arr, rev)
                out["dens"].append([rev] + [[integral(x, den) for x in p[s]] for s in (0, -1, 1)])
                q = [bC.get_probability_spin_lattice(basis, arr, s, rev) for s in (0, -1, 1)]
                out["dens"].append([rev] + [[integral(x, den) for x in y] for y in q])
            if lat[0] == "periodic":
                out["maps"] = [[s, [[integral(x, den) for x in row] for row in bC.get_probability_spin_rectangular_lattice(basis, arr, s).tolist()]]
                               for s in (0, -1, 1)]
        elif what == "reverse":
            one = arr if r.random() < 0.5 else arr.reshape(-1)
            img = np.asarray(bC.reverse_spins_vect(basis, one))
            if img.shape != one.shape:
                raise RuntimeError("shape %r" % (img.shape,))
            out["flipv"] = [next((q for q, y in label.items() if abs(x - y) <= 1e-12 * abs(x)), M.BAD) for x in img.reshape(-1).tolist()]
            back = bC.reverse_spins_basis(basis)
            out["flipb"] = [M.int_det(x) for x in back.determinants]
            c = back.configuration
            if [c.nsites, c.nholes, c.nbeta, c.nalpha, c.nb_conf] != [n, nh, n - nh - nb, nb, d]:
                raise RuntimeError("configuration of the reversed basis: %r" % ([c.nsites, c.nholes, c.nbeta, c.nalpha, c.nb_conf],))
        else:
            out["syms"] = [list(x) for x in bC.get_displayable_basis(basis)]
        if not np.array_equal(keep, arr):
            raise RuntimeError("the vector handed in was changed")
    _, err = attempt(f)
    if err:
        out = {"id": sid, "kind": lat[0], "w": w, "h": h, "n": n, "nh": nh, "nb": nb, "v": v, "im": im, "err": err}
    return out


def lattices(cap_sites):
    out = [("periodic",) + x for x in RECTS]
    out += [("clusters", 1, 1, 1), ("clusters", 2, 1, 1), ("clusters", 1, 3, 1), ("clusters", 1, 1, 2), ("peripheral", 1, 1, 1),
            ("peripheral", 2, 1, 1), ("peripheral", 1, 1, 2)]
    return [l for l in out if M.nsites(*l) <= cap_sites]


def content(r, n, cap, low=1):
    cs = [x for x in M.contents(n, cap) if M.dim(n, *x) >= low] or M.contents(n, cap)
    return r.choice(cs)


def observe_jobs(prop, what, count, cap):
    r = rng(prop, what)
    jobs = []
    for n in range(1, 5):
        for nh in range(n + 1):
            for nb in range(n - nh + 1):
                lat = r.choice([l for l in lattices(n) if M.nsites(*l) == n])
                jobs.append((observe_scenario, ("%s%d" % (what[0], len(jobs)), lat, nh, nb, what, r.random())))
    for i in range(count):
        lat = r.choice(lattices(12))
        n = M.nsites(*lat)
        nh, nb = content(r, n, cap, 1 if n < 5 else 12)
        jobs.append((observe_scenario, ("%s%d" % (what[0], len(jobs)), lat, nh, nb, what, r.random())))
    return jobs


def run_observe(c, jobs):
    scns = c.record(jobs, limit=120)
    c.tlc("Observe", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample(next(s for s in scns if s["n"] == 3 and 0 < s["nh"] < 3))
    return scns


def c19(c):
    run_observe(c, observe_jobs("C19", "density", pick(200, 900), pick(170, 500)))


# -- dominant states --------------------------------------------------------------------------
def dominant_scenario(sid, seed):
    r = random.Random(seed)
    if r.random() < 0.04:          # the larger state spaces, and the wider lattices
        n = r.randint(6, 14)
        nh, nb = content(r, n, 700, 90)
    else:
        n = r.randint(1, 7)
        nh, nb = content(r, n, 150)
    d = M.dim(n, nh, nb)
    v = [r.randint(-4, 4) for _ in range(d)] if r.random() < 0.6 else r.sample(range(-d - 3, d + 4), d)
    scale = r.choice([1.0, 0.1, 1e-4])
    nd = r.choice([1, 2, 5, 10, d, d + 3, r.randint(0, d)])
    out = {"id": sid, "n": n, "nh": nh, "nb": nb, "v": v, "nd": nd, "err": "", "out": []}
    conf = conf_of(n, nh, nb, seed)
    basis = bC.construct_basis(conf)

    # The coefficient of label v: proportional, nearly tied (differences of 1e-12), or of any order of magnitude.
    mode = r.choice(["plain", "plain", "near", "wide"])
    sgn = lambda x: -1 if x < 0 else 1
    coeff = {"plain": lambda x: x * scale, "near": lambda x: sgn(x) * (1 + abs(x) * 1e-12) * scale,
             "wide": lambda x: sgn(x) * 2.0 ** (abs(x) - 60) if x else 0.0}[mode]
    label = {}
    for x in v:
        label[coeff(x)] = x

    def num(x):
        return label.get(float(x), M.BAD)
    which = r.choice(["basis", "list", "shuffled"])
    arr = np.array([coeff(x) for x in v], dtype=float)
    keep = arr.copy()
    if which == "basis":
        def f():
            x = arr if r.random() < 0.4 else arr.reshape(-1, 1)
            cs, ds = bC.get_dominant_determinants(basis, x, nd)
            if len(cs) != len(ds):
                raise RuntimeError("lengths differ")
            out["out"] = [[-1, num(a), M.int_det(b)] for a, b in zip(cs, ds)]
    else:
        dets = [list(x) for x in basis.determinants]
        if which == "shuffled":
            r.shuffle(dets)
        out["list"] = dets

        def f():
            res = iC.get_most_dominant_determinants([list(x) for x in dets], arr, nd)
            out["out"] = [[whole(key[0]), num(key[1]), M.int_det(b)] for key, b in res.items()]
    _, out["err"] = attempt(f)
    if not np.array_equal(arr, keep):
        out["err"] = out["err"] or "the vector handed in was changed"
    return out


def c20(c):
    r = rng("C20")
    scns = c.record([(dominant_scenario, ("m%d" % i, r.random())) for i in range(pick(1200, 8000))])
    c.tlc("Dominant", scns, expect_states=sum(1 + (0 if s["err"] else len(s["out"])) for s in scns))
    c.sample(next(s for s in scns if len(s["v"]) == 6))
    c.extra["with_ties"] = sum(len({abs(x) for x in s["v"]}) < len(s["v"]) for s in scns)


# -- transformations --------------------------------------------------------------------------
def scramble(r, det, nh, nb):
    a, b, x = det[:nh], det[nh:nh + nb], det[nh + nb:]
    r.shuffle(a), r.shuffle(b), r.shuffle(x)
    return a + b + x


def transform_scenario(sid, lat, length, seed):
    r = random.Random(seed)
    kind, a, b, s = lat
    w, h = M.shape(*lat)
    n = M.nsites(*lat)
    nh = r.randint(0, n)
    nb = r.randint(0, n - nh)
    word = M.random_word(r, n, nh, nb)
    conf = M.configuration(*lat, nh, nb, some_restriction(r, n))
    det = M.det_of(word)
    out = {"id": sid, "kind": kind, "w": w, "h": h, "nb3": [whole(conf.nbh), whole(conf.nbv), whole(conf.nblocs_side)], "word": word, "steps": [],
           "allowed": [list(x) for x in conf.sites_restriction]}
    extended = False
    for _ in range(length):
        ops = ["flip", "order", "look"]
        if kind == "periodic" and not extended:
            ops += ["rot", "rot", "extend"]
        op = r.choice(ops)
        x = {"op": op, "err": ""}
        given = list(det) if r.random() < 0.6 else scramble(r, list(det), conf.nholes, conf.nbeta)
        if op == "flip":
            def f():
                nonlocal conf, det
                conf2, det2 = bC.reverse_spins(conf, given)
                x["det"] = M.int_det(det2)
                x["allowed"] = [list(t) for t in conf2.sites_restriction]
                x["conf"] = [whole(conf2.nsites), whole(conf2.nholes), whole(conf2.nbeta), whole(conf2.nalpha), str(conf2.lattice_type),
                             whole(conf2.nbh), whole(conf2.nbv), whole(conf2.nblocs_side)]
                conf, det = conf2, det2
        elif op == "rot":
            x["m"] = r.randint(0, 8) if w == h else r.choice([0, 2, 4, 6])
            if x["m"] % 4 == 0:
                given = list(det)           # a full turn hands back what it was given

            def f():
                nonlocal det
                det = bC.rotate_determinant(x["m"], conf, given)
                x["det"] = M.int_det(det)
        elif op == "order":
            given = scramble(r, given, conf.nholes, conf.nbeta)

            def f():
                nonlocal det
                det = bC.reorder_basis_element(conf, list(given))
                x["det"] = M.int_det(det)
        elif op == "look":
            def f():
                x["spins"] = [whole(2 * bC.get_spin_site(conf, given, t)) for t in range(len(given))]
        else:
            n2 = r.randint(1, 6)
            h2 = r.randint(0, n2)
            b2 = r.randint(0, n2 - h2)
            x["word"] = M.random_word(r, n2, h2, b2)
            conf2 = M.configuration("periodic", n2, 1, 1, h2, b2)

            def f():
                nonlocal conf, det
                d = bC.extend_determinant(conf, conf2, given, M.det_of(x["word"]))
                x["det"] = M.int_det(d)
                n1, holes, downs = conf.nsites, conf.nholes, conf.nbeta
                conf = M.bC.Configuration(np.zeros((n1 + n2, n1 + n2)), holes + h2, downs + b2, conf.sites_restriction, kind, a, b, s)
                det = bC.reorder_basis_element(conf, list(d))
            extended = True
        before = list(given)
        _, x["err"] = attempt(f)
        if not x["err"] and given != before:
            x["err"] = "the state handed in was changed"
        out["steps"].append(x)
        if x["err"]:
            break
    return out


def c21(c):
    r = rng("C21")
    lats = [("periodic", a, b, n) for n in (1, 2, 3, 4) for a in range(1, 6) for b in range(1, 6) if a * b * n * n <= 25]
    square = [l for l in lats if l[1] == l[2]]
    other = [("clusters", 2, 1, 1), ("clusters", 1, 1, 2), ("clusters", 1, 1, 3), ("peripheral", 1, 1, 2), ("peripheral", 2, 1, 1), ("peripheral", 1, 1, 3)]
    jobs = []
    for i in range(pick(1500, 9000)):
        lat = r.choice(r.choice([lats, square, square, other]))
        jobs.append((transform_scenario, ("t%d" % i, lat, r.randint(3, 10), r.random())))
    scns = c.record(jobs)
    c.tlc("Transform", scns, expect_states=sum(1 + len(s["steps"]) for s in scns))
    c.sample(next(s for s in scns if len(s["word"]) == 4 and len(s["steps"]) > 4))
    run_observe(c, observe_jobs("C21", "reverse", pick(180, 600), pick(170, 500)))


# -- drawings ---------------------------------------------------------------------------------
SYMBOLS = {"\u2191": 1, "\u2193": -1, "0": 0}


def tokens(text):
    if not isinstance(text, str):
        raise RuntimeError("not a text: %r" % type(text))
    return [[y, x, SYMBOLS[ch]] for y, line in enumerate(text.split("\n")) for x, ch in enumerate(line) if ch in SYMBOLS]


def links(text):
    """The bonds of a drawing as pairs of symbols (numbered in reading order), and the number of marks that link nothing."""
    lines = text.split("\n")
    at, out, used = {}, [], set()
    for y, line in enumerate(lines):
        for x, ch in enumerate(line):
            if ch in SYMBOLS:
                at[y, x] = len(at) + 1
    for y, line in enumerate(lines):
        xs = [x for x, ch in enumerate(line) if ch in SYMBOLS]
        for a, b in zip(xs, xs[1:]):
            if b > a + 1 and set(line[a + 1:b]) == {"-"}:
                out.append([at[y, a], at[y, b]])
                used.update((y, x) for x in range(a + 1, b))
        for x, ch in enumerate(line):
            if ch == "|" and (y - 1, x) in at and (y + 1, x) in at:
                out.append([at[y - 1, x], at[y + 1, x]])
                used.add((y, x))
    stray = sum(ch in "-|" and (y, x) not in used for y, line in enumerate(lines) for x, ch in enumerate(line))
    return {"pairs": out, "stray": stray}


def draw_scenario(sid, lat, count, seed):
    r = random.Random(seed)
    kind = lat[0]
    w, h = M.shape(*lat)
    n = M.nsites(*lat)
    items = []
    contents = [(nh, r.randint(0, n - nh)) for nh in [r.randint(0, n) for _ in range(count)]]
    contents += [(n - 1, r.randint(0, 1)), (0, r.randint(0, n)), (0, r.choice([0, n]))]
    words = [M.random_word(r, n, nh, nb) for nh, nb in contents]
    words += [[s if k == at else 0 for k in range(n)] for at in range(n) for s in [r.choice([-1, 1])]]
    for word in words:
        nh, nb = word.count(0), word.count(-1)
        conf = M.configuration(*lat, nh, nb, some_restriction(r, n))
        fn = bC.get_displayable_rectangular_lattice if kind == "periodic" else bC.get_displayable_outer_embedding_lattice
        text, err = attempt(lambda: fn(conf, M.det_of(word)))
        toks, err = attempt(lambda: tokens(text)) if not err else ([], err)
        items.append({"word": word, "toks": toks or [], "links": links(text) if not err else {}, "err": err})
    return {"id": sid, "kind": kind, "w": w, "h": h, "items": items}


def neighbor_scenario(sid, la, lb, count, seed):
    r = random.Random(seed)
    items = []
    (wa, ha), (wb, hb) = M.shape(*la), M.shape(*lb)
    for _ in range(count):
        parts = []
        for lat in (la, lb):
            n = M.nsites(*lat)
            nh = r.randint(0, n)
            nb = r.randint(0, n - nh)
            parts.append((M.configuration(*lat, nh, nb, some_restriction(r, n)), M.random_word(r, n, nh, nb)))
        (ca, a), (cb, b) = parts
        text, err = attempt(lambda: bC.get_displayable_neighbor(ca, cb, M.det_of(a), M.det_of(b)))
        toks, err = attempt(lambda: tokens(text)) if not err else ([], err)
        items.append({"word": a + b, "toks": toks or [], "links": links(text) if not err else {}, "err": err})
    return {"id": sid, "kind": "pair", "w": wa, "h": ha, "w2": wb, "items": items}


def drawn_dominant_scenario(sid, seed):
    r = random.Random(seed)
    lat = ("periodic",) + r.choice([x for x in RECTS if x[0] * x[1] * x[2] ** 2 <= 9])
    w, h = M.shape(*lat)
    n = w * h
    nh, nb = content(r, n, 200, 1 if n < 4 else 6)
    d = M.dim(n, nh, nb)
    v = [x * r.choice([-1, 1]) for x in r.sample(range(1, d + 6), d)]
    nd = r.randint(1, min(d + 1, 8))
    conf = M.configuration(*lat, nh, nb, some_restriction(r, n))
    out = {"id": sid, "kind": "periodic", "w": w, "h": h, "nh": nh, "nb": nb, "v": v, "want": min(nd, d), "items": []}

    def f():
        arr = np.array(v, dtype=float)
        cs, ts = bC.get_displayable_dominant_determinants(bC.construct_basis(conf), arr if r.random() < 0.5 else arr.reshape(-1, 1), nd)
        if len(cs) != len(ts):
            raise RuntimeError("lengths differ")
        return [{"coeff": integral(a, 1), "toks": tokens(t), "links": links(t), "err": ""} for a, t in zip(cs, ts)]
    items, err = attempt(f)
    out["items"] = items if not err else [{"coeff": 0, "toks": [], "err": err}]
    return out


def c22(c):
    r = rng("C22")
    jobs = []
    rects = [("periodic", a, b, n) for n in (1, 2, 3, 4) for a in range(1, 7) for b in range(1, 7) if a * b * n * n <= 30]
    rings = [("peripheral", a, b, n) for n in (1, 2, 3) for a in range(1, 6) for b in range(1, 6) if a * b * n * n <= 20]
    for lat in rects + rings:
        jobs.append((draw_scenario, ("r%d" % len(jobs), lat, pick(4, 25), r.random())))
    pairs = [(a, b) for a in rects for b in rects if M.shape(*a)[1] == M.shape(*b)[1] and M.nsites(*a) + M.nsites(*b) <= 24]
    for a, b in r.sample(pairs, min(len(pairs), pick(60, 300))):
        jobs.append((neighbor_scenario, ("n%d" % len(jobs), a, b, pick(3, 10), r.random())))
    for i in range(pick(60, 400)):
        jobs.append((drawn_dominant_scenario, ("v%d" % len(jobs), r.random())))
    scns = c.record(jobs)
    c.tlc("Draw", scns, expect_states=sum(1 + len(s["items"]) for s in scns), traces=sum(len(s["items"]) for s in scns))
    c.sample(scns[4])
    run_observe(c, observe_jobs("C22", "symbols", pick(110, 300), pick(150, 400)))
