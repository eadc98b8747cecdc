"""Recorders and checks of the Hamiltonian: C06 - C10, C13, C16."""
import random

from core import Check, attempt, pick, quick, rng
import model as M
from model import bC, hC, itr, lF

# Small lattices whose whole state space is walked, as (kind, nbh, nbv, side).
SMALL = [("periodic", 1, 1, 1), ("periodic", 2, 1, 1), ("periodic", 1, 2, 1), ("periodic", 1, 1, 2), ("periodic", 4, 1, 1),
         ("periodic", 1, 5, 1), ("periodic", 3, 2, 1), ("periodic", 2, 3, 1),
         ("clusters", 1, 1, 1), ("clusters", 2, 1, 1), ("clusters", 1, 2, 1), ("clusters", 1, 3, 1), ("clusters", 3, 1, 1),
         ("peripheral", 1, 1, 1)]
MEDIUM = [("periodic", 1, 1, 3), ("periodic", 4, 2, 1), ("periodic", 2, 4, 1), ("periodic", 1, 2, 2), ("periodic", 2, 1, 2),
          ("periodic", 5, 2, 1), ("clusters", 1, 1, 2), ("clusters", 2, 2, 1), ("clusters", 1, 4, 1), ("clusters", 4, 1, 1), ("clusters", 1, 5, 1),
          ("peripheral", 2, 1, 1), ("peripheral", 1, 2, 1), ("peripheral", 3, 1, 1), ("peripheral", 1, 3, 1),
          ("peripheral", 2, 2, 1), ("peripheral", 1, 1, 2)]
LARGE = [("periodic", 1, 1, 4), ("periodic", 2, 1, 3), ("periodic", 5, 3, 1), ("periodic", 3, 5, 1), ("clusters", 1, 1, 3), ("clusters", 2, 3, 1),
         ("clusters", 3, 2, 1), ("clusters", 1, 2, 2), ("peripheral", 3, 2, 1), ("peripheral", 2, 3, 1), ("peripheral", 1, 1, 3),
         ("peripheral", 4, 1, 1), ("peripheral", 1, 4, 1), ("peripheral", 4, 2, 1), ("clusters", 2, 1, 2)]


def ends(scn, restriction, target):
    """Writes the allowed sites of a scenario, by their two ends when they differ."""
    scn["r"] = list(restriction)
    if target is not None:
        scn["r2"] = list(target)
    return scn


def ham_scenario(sid, lat, nh, nb, restriction, items, mode, selfcheck=0, watch=False, target=None):
    """Builds each item's Hamiltonian.  mode: how the allowed sites are given (conf, tuple, arg)."""
    kind, nbh, nbv, n = lat
    w, h = M.shape(*lat)
    out = []

    def snapshot(conf, basis):
        """Everything the caller handed over, as text."""
        d = dict(conf.__dict__)
        return [sorted((k, M.plain(v)) for k, v in d.items() if v is not basis).__repr__(),
                [M.int_det(x) for x in basis.determinants].__repr__(), str(basis.configuration is conf)]
    for sel, prm, scale in items:
        seen = []

        def build():
            if target is not None:
                conf = M.configuration(*lat, nh, nb, (list(restriction), list(target)))
            else:
                conf = M.configuration(*lat, nh, nb, restriction if mode != "arg" else (), mode == "tuple")
            basis = bC.construct_basis(conf)
            inter, bools = M.interactions(prm, scale), M.booleans(sel)
            sites = list(restriction) if mode == "arg" else []
            seen.append(snapshot(conf, basis) + [repr(inter.__dict__), repr(bools.__dict__), repr(sites)])
            ham = hC.build_hamiltonian(conf, inter, basis, bools, sites)
            seen.append(snapshot(conf, basis) + [repr(inter.__dict__), repr(bools.__dict__), repr(sites)])
            if ham.shape[0] != ham.shape[1]:
                raise ValueError("shape %r" % (ham.shape,))
            return M.rows(ham, scale)
        rows, err = attempt(build)
        out.append({"sel": list(sel), "prm": prm, "rows": rows or [], "err": err} | ({"seen": seen} if watch else {}))
    return ends({"id": sid, "kind": kind, "w": w, "h": h, "nh": nh, "nb": nb, "mode": mode,
                 "nb3": [nbh, nbv, n], "items": out, "selfcheck": selfcheck}, restriction, target)


def restrictions(r, n, count):
    out = []
    for _ in range(count):
        k = r.randint(1, n)
        s = r.sample(range(n), k)
        out.append(s)
    return out


def graph_jobs(prop, sels, restricted="some", watch=False):
    """Scenarios for a property: every content of the small lattices, chosen contents of the medium ones."""
    r = rng(prop, "graph")
    jobs = []

    def items():
        out = []
        for sel in sels(r):
            prm, scale = M.couplings(r, "any")
            out.append((sel, prm, scale))
            if r.random() < 0.35:
                out.append((sel, M.bare(r, prm, sel), scale))
        return out

    def add(lat, nh, nb, res):
        mode = r.choice(["conf", "tuple", "arg"])
        jobs.append((ham_scenario, ("g%d" % len(jobs), lat, nh, nb, res, items(), mode, 1 if len(jobs) % 4 == 0 else 0, watch)))

    small_cap = pick(70, 200)
    med_cap = pick(340, 1400)
    for lat in SMALL:
        n = M.nsites(*lat)
        cs = M.contents(n, small_cap)
        for nh, nb in r.sample(cs, min(len(cs), pick(8, 40))):
            if restricted == "all":
                res = r.sample(range(n), r.randint(1, n))
            else:
                res = [] if r.random() < 0.7 else r.sample(range(n), r.randint(1, n))
            add(lat, nh, nb, res)
    for lat in MEDIUM:
        n = M.nsites(*lat)
        cs = [(nh, nb) for nh, nb in M.contents(n, med_cap) if nh >= 1 and n - nh >= 2 and M.dim(n, nh, nb) >= med_cap / 12]
        for nh, nb in r.sample(cs, min(len(cs), pick(3, 8))):
            if restricted == "all":
                res = r.sample(range(n), r.randint(max(1, n // 2), n))
            elif restricted == "some" and r.random() < 0.25:
                res = r.sample(range(n), r.randint(n // 2, n))
            else:
                res = []
            add(lat, nh, nb, res)
    return jobs


def run_graph(c, jobs):
    scns = c.record(jobs, limit=240)
    expect = sum(M.dim(M.nsites(s["kind"], *s["nb3"]), s["nh"], s["nb"]) for s in scns)
    c.tlc("TJGraph", scns, expect_states=expect, traces=sum(len(s["items"]) for s in scns))
    for s in scns[:: max(1, len(scns) // 2)][:2]:
        c.sample({k: s[k] for k in ("id", "kind", "w", "h", "nh", "nb", "r", "mode")} |
                 {"sel": s["items"][0]["sel"], "prm": s["items"][0]["prm"], "first_rows": s["items"][0]["rows"][:3]})
    c.extra["hamiltonians_recorded"] = sum(len(s["items"]) for s in scns)
    c.extra["rows_compared"] = sum(len(i["rows"]) for s in scns for i in s["items"])


# -- walks ------------------------------------------------------------------------------------
def observe(fields, conf, inter, scale, det, sels):
    """What the code says about one state; every field is {"err":, "val":}."""
    obs = {}

    def dets(x):
        return [M.int_det(d) for d in x]

    def put(names, fn, encode):
        if not (set(names) & set(fields)):
            return
        val, err = attempt(lambda: [encode(v) for v in fn()])
        for k, name in enumerate(names):
            if name in fields:
                obs[name] = {"err": err, "val": val[k] if not err and k < len(val) else []}

    put(["hop"], lambda: (itr.compute_hopping_integral(conf, inter, det),), dets)
    put(["straight", "bent"], lambda: itr.compute_next_hopping_integral(conf, inter, det), dets)
    put(["fpar", "fper", "fund"], lambda: itr.compute_spin_flip(conf, inter, det), dets)
    put(["spar", "sper"], lambda: itr.compute_singlet_displacement(conf, inter, det), lambda x: [dets(p) for p in x])
    put(["static"], lambda: (itr.compute_static_spin_interaction(conf, inter, det),), lambda v: M.quarter(v, scale))
    put(["repulsion"], lambda: (itr.compute_hole_repulsion(conf, inter, det),), lambda v: M.quarter(v, scale))
    put(["energy"], lambda: (itr.compute_energy(conf, inter, det),), lambda v: M.quarter(v, scale))
    if sels:
        obs["dyn"] = []
        for sel in sels:
            val, err = attempt(lambda: [[M.int_det(k), q] for k, q in
                                        ((k, M.quarter(v, scale)) for k, v in
                                         itr.compute_dynamic_interactions(conf, inter, M.booleans(sel), det).items()) if q != 0])
            obs["dyn"].append({"sel": list(sel), "err": err, "val": val or []})
    return obs


def walk_scenario(sid, seed, lat, nh, nb, restriction, length, fields, nsel, target=None):
    r = random.Random(seed)
    n = M.nsites(*lat)
    w, h = M.shape(*lat)
    prm, scale = M.couplings(r, "any")
    if r.random() < 0.3:
        prm = {k: v if r.random() < 0.5 else 0 for k, v in prm.items()}
    if target is not None:
        conf = M.configuration(*lat, nh, nb, (list(restriction), list(target)))
    else:
        conf = M.configuration(*lat, nh, nb, restriction, r.random() < 0.5)
    terms = [t for t in M.TERMS if target is None or t not in ("z", "ij", "V")]
    inter = M.interactions(prm, scale)
    occ = M.random_word(r, n, nh, nb)
    steps = []
    for _ in range(length):
        det = M.det_of(occ)
        given = list(det)
        sels = []
        for _ in range(nsel):
            sels.append([t for t in terms if r.random() < 0.6])
        obs = observe(fields, conf, inter, scale, given, sels)
        obs["intact"] = {"err": "", "val": M.int_det(given)}
        steps.append({"occ": occ, "obs": obs})
        images = []
        for f in ("hop", "straight", "bent", "fpar", "fper", "fund"):
            images += obs.get(f, {}).get("val", [])
        for f in ("spar", "sper"):
            for p in obs.get(f, {}).get("val", []):
                images += p
        images = [d for d in images if sorted(d) == list(range(n))]
        if images:
            occ = M.word(r.choice(images), nh, nb)
        elif nsel:
            # The coupled states of a selection are the moves; without one (or when nothing moves) the walk ends here.
            moves = [d for o in obs["dyn"] for d, _ in o["val"] if sorted(d) == list(range(n))]
            if not moves:
                break
            occ = M.word(r.choice(moves), nh, nb)
        else:
            break
    return ends({"id": sid, "kind": lat[0], "w": w, "h": h, "nh": nh, "nb": nb, "prm": prm,
                 "scale": str(scale), "nb3": list(lat[1:]), "steps": steps}, restriction, target)


def walk_jobs(prop, fields, count, nsel=0, restricted=0.3, length=5, min_holes=1, contents=None):
    r = rng(prop, "walk")
    jobs = []
    lats = LARGE + MEDIUM + [l for l in SMALL if M.nsites(*l) >= 3]
    for j in range(count):
        lat = lats[j % len(lats)]
        n = M.nsites(*lat)
        nh = min(n, r.choice([min_holes, 1, 2, 2, 3, 4, max(1, n // 3)]))
        nb = r.randint(0, n - nh) if r.random() < 0.2 else (n - nh) // 2
        edge = r.random()
        if edge < 0.15:             # the ends of the range: no hole, few electrons, all spins alike
            nh = r.choice([0, 0, 0, n - 2, n - 1, n])
            nb = (n - nh) // 2
        elif edge < 0.25:
            nb = r.choice([0, n - nh])
        x = r.random()
        if x < restricted:
            res = r.sample(range(n), r.randint(max(1, n // 2), n))
        elif x < restricted + 0.1:
            res = r.sample(range(n), n)
        else:
            res = []
        jobs.append((walk_scenario, ("w%d" % j, r.random(), lat, nh, nb, res, length, fields, nsel)))
    return jobs


def run_walk(c, jobs):
    scns = c.record(jobs, limit=120)
    c.tlc("TJWalk", scns, expect_states=sum(len(s["steps"]) + 1 for s in scns))
    for s in scns[:2]:
        c.sample({k: s[k] for k in ("id", "kind", "w", "h", "nh", "nb", "r", "prm")} | {"first_step": s["steps"][0]})
    c.extra["walk_steps"] = sum(len(s["steps"]) for s in scns)
    c.extra["walks"] = len(scns)


# -- the checks -------------------------------------------------------------------------------
def c06(c):
    run_graph(c, graph_jobs("C06", lambda r: [["t"], ["tN"]]))
    run_walk(c, walk_jobs("C06", ["hop", "straight", "bent"], pick(260, 1500)))


def c07(c):
    run_graph(c, graph_jobs("C07", lambda r: [["z"], ["ij"]]))
    run_walk(c, walk_jobs("C07", ["static", "fpar", "fper", "fund"], pick(260, 1500)))


def c08(c):
    run_graph(c, graph_jobs("C08", lambda r: [["SD"]]))
    run_walk(c, walk_jobs("C08", ["spar", "sper"], pick(300, 1500)))


def c09(c):
    run_graph(c, graph_jobs("C09", lambda r: [["V"], ["V", "z"]]))
    run_walk(c, walk_jobs("C09", ["hop", "repulsion", "energy"], pick(300, 1500), min_holes=2))


def c10(c):
    r = rng("C10", "subsets")
    subsets = [[t for j, t in enumerate(M.TERMS) if m >> j & 1] for m in range(64)]
    todo = []

    def sels(_):
        out = []
        for _ in range(2):
            if not todo:
                todo.extend(r.sample(subsets, 64))
            out.append(todo.pop())
        return out
    run_graph(c, graph_jobs("C10", sels, watch=True))


def c13(c):
    run_walk(c, walk_jobs("C13", ["hop", "fund", "energy"], pick(300, 1500), nsel=4))


def c16(c):
    def sels(r):
        return [list(M.TERMS), r.sample(M.TERMS, 2)]
    run_graph(c, graph_jobs("C16", sels, restricted="all"))
    run_walk(c, walk_jobs("C16", ["hop", "straight", "bent", "static", "fpar", "fper", "fund", "spar", "sper", "repulsion"],
                          pick(200, 800), nsel=1, restricted=0.9))


# -- restrictions by their two ends ----------------------------------------------------------
def two_ends(r, n):
    """Two sets of sites: disjoint, overlapping, nested, the same, or one of them everything or nothing."""
    shape = r.choice(["disjoint", "overlap", "any", "nested", "same", "all"]) if r.random() > 0.06 else "none"
    sites = r.sample(range(n), n)
    a = r.randint(1, n)
    if shape == "none":
        return (sites[:a], []) if r.random() < 0.5 else ([], sites[:a])
    if shape == "disjoint" and n > 1:
        a = r.randint(1, n - 1)
        return sites[:a], sites[a:]
    if shape == "overlap":
        b = r.randint(0, a - 1)
        return sites[:a], sites[b:]
    if shape == "nested":
        b = r.randint(1, a)
        return (sites[:a], r.sample(sites[:b], b)) if r.random() < 0.5 else (sites[:b], r.sample(sites[:a], a))
    if shape == "same":
        return sites[:a], r.sample(sites[:a], a)
    if shape == "all":
        return (sites[:a], sorted(sites)) if r.random() < 0.5 else (sorted(sites), sites[:a])
    return sites[:a], r.sample(range(n), r.randint(1, n))


def c29(c):
    r = rng("C29", "ends")
    graphs = []
    for lat in SMALL + MEDIUM:
        n = M.nsites(*lat)
        cap = pick(150, 900)
        cs = [x for x in M.contents(n, cap) if x[0] >= 1 and n - x[0] >= 1 and M.dim(n, *x) >= min(cap / 12, n)]
        for nh, nb in r.sample(cs, min(len(cs), pick(3, 10))):
            items = []
            for sel in (["t"], ["tN"], ["SD"], r.sample(["t", "tN", "SD"], 2)):
                prm, scale = M.couplings(r, "any")
                items.append((sel, M.bare(r, prm, sel) if r.random() < 0.3 else prm, scale))
            a, b = two_ends(r, n)
            graphs.append((ham_scenario, ("e%d" % len(graphs), lat, nh, nb, a, items, "tuple", 4 if len(graphs) % 4 == 0 else 0, False, b)))
    run_graph(c, graphs)
    walks = []
    for job in walk_jobs("C29", ["hop", "straight", "bent", "spar", "sper"], pick(260, 1500), nsel=2):
        fn, (sid, seed, lat, nh, nb, _, length, fields, nsel) = job
        a, b = two_ends(r, M.nsites(*lat))
        walks.append((fn, (sid, seed, lat, nh, nb, a, length, fields, nsel, b)))
    run_walk(c, walks)
