"""Recorders and checks of saved computations: C23 - C25."""
import builtins
import contextlib
import copy
import hashlib
import io
import json
import os
import random
import resource
import shutil
import signal
import tempfile

import numpy as np
import scipy.sparse

from core import attempt, pick, quick, rng
import model as M
from model import bC, hC, iC, itr, lF
import davidson as dav
import embedding as emb
import postProcessing as pp

SELS = {"Full": ["t", "z", "ij", "SD", "tN", "V"], "tJ": ["t", "z", "ij"], "J": ["z", "ij"], "tN": ["t", "tN"], "tSD": ["t", "SD"], "tV": ["t", "V"],
        "tij": ["t", "ij"]}
SELS.update({",".join(x): x for x in ([t for j, t in enumerate(M.TERMS) if m >> j & 1] for m in range(64))})
FLAG = {"t": "bt", "z": "bz", "ij": "bij", "SD": "bSD", "tN": "btN", "V": "bV"}


@contextlib.contextmanager
def scratch():
    """A fresh current directory with an empty folder of computations."""
    back = os.getcwd()
    d = tempfile.mkdtemp(dir=back)
    os.chdir(d)
    os.mkdir("initialComputations")
    try:
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def open_log():
    """Files under initialComputations opened meanwhile, as (path, 'r' or 'w')."""
    log = []
    real = builtins.open

    def spy(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        if isinstance(file, (str, os.PathLike)):
            p = os.path.relpath(os.path.abspath(os.fspath(file)))
            if p.startswith("initialComputations"):
                log.append((p, "w" if set(mode) & set("wax+") else "r"))
        return f
    builtins.open = io.open = spy
    try:
        yield log
    finally:
        builtins.open = io.open = real


def fp(x):
    return hashlib.md5(json.dumps(x).encode()).hexdigest()[:10]


def hexed(x):
    if isinstance(x, float):
        return x.hex()
    if isinstance(x, (list, tuple)):
        return [hexed(v) for v in x]
    if isinstance(x, dict):
        return {k: hexed(v) for k, v in x.items()}
    return x


def ham_rows(data, indices, indptr):
    rows = []
    for i in range(len(indptr) - 1):
        acc = {}
        for j, v in zip(indices[indptr[i]:indptr[i + 1]], data[indptr[i]:indptr[i + 1]]):
            acc[int(j)] = acc.get(int(j), 0.0) + float(v)
        rows.append([[j, v.hex()] for j, v in sorted(acc.items()) if v != 0])
    return rows


def csr_rows(ham):
    m = ham.tocsr()
    return ham_rows(m.data.tolist(), m.indices.tolist(), m.indptr.tolist())


def shape_name(kind, nbh, nbv, n):
    return "%s %sx%s side %s" % (kind, nbh, nbv, n)


def shape_of(lat):
    c = M.configuration(*lat, 0, 0, [])
    return shape_name(c.lattice_type, c.nbh, c.nbv, c.nblocs_side)


def record_of(path):
    """A saved computation, from what its file says."""
    with open(path) as f:
        d = json.load(f)
    c, b = d["configuration"], d["bool_interactions"]
    rel = os.path.relpath(os.path.dirname(path), "initialComputations")
    if rel == "Embedding_blocks":
        rel += "".join("-" + v for v in ("dyn", "neel", "neigh") if "-" + v in os.path.basename(path))
    h = d["hamiltonian"]
    return {"dir": rel, "shape": shape_name(c["lattice_type"], c["nbh"], c["nbv"], c["nblocs_side"]), "nh": c["nholes"], "nb": c["nbeta"],
            "sel": ",".join(t for t in M.TERMS if b[FLAG[t]]), "prm": fp(d["interactions"]), "r": fp(c["sites_restriction"]),
            "ham": fp(ham_rows(h["data"], h["indices"], h["indptr"])), "eig": fp([hexed(d["eigenstates"]["eigvals"]), hexed(d["eigenstates"]["eigvects"])])}


def record_in_memory(dc, where):
    c, b = dc.data.configuration, dc.data.bool_interactions
    return {"dir": where, "shape": shape_name(c.lattice_type, c.nbh, c.nbv, c.nblocs_side), "nh": c.nholes, "nb": c.nbeta,
            "sel": ",".join(t for t in M.TERMS if getattr(b, FLAG[t])), "prm": fp(dc.data.interactions.__dict__),
            "r": fp([list(c.sites_restriction[0]), list(c.sites_restriction[1])]), "ham": fp(csr_rows(dc.hamiltonian)),
            "eig": fp([hexed([float(v) for v in dc.eigenstates.eigvals]), hexed(np.asarray(dc.eigenstates.eigvects).tolist())])}


def key_of(rec):
    return [rec["dir"], rec["shape"], rec["nh"], rec["nb"], rec["sel"]]


def snapshot():
    out = []
    for d, _, files in sorted(os.walk("initialComputations")):
        for f in sorted(files):
            r, err = attempt(record_of, os.path.join(d, f))
            out.append(r if not err else {"dir": "unreadable " + f, "shape": err, "nh": 0, "nb": 0, "sel": "", "prm": "", "r": "", "ham": "", "eig": ""})
    return out


def couplings_of(step, dressing=True):
    p = {k: (step + 1) * 0.25 + j for j, (_, k) in enumerate(M.PRM)}
    if not dressing:
        p.update({"J": 0.0, "VNN": 0.0, "VNNNper": 0.0})
    return M.interactions(p, 1)


def file_name(n, nh, nb, terms):
    name = "tJHam-%d%d%d" % (n, n - nh - nb, nb)
    if set(terms) == set(M.TERMS):
        return name + "Full.json"
    return name + "".join(tag for tag, t in (("SD", "SD"), ("V", "V"), ("J", "ij"), ("t", "t"), ("tN", "tN")) if t in terms) + ".json"


def replay(sid, hist, lats, restriction, seed):
    """Runs a history in an empty folder.  Steps are {op, nh, nb, sel, var[, lat]}; lats are the lattices they name."""
    np.random.seed(seed)
    steps = []
    with scratch():
        for i, a in enumerate(hist):
            lat = lats[a.get("lat", 0)]
            n = M.nsites(*lat)
            terms = SELS[a["sel"]]
            inter = couplings_of(i, a["op"] != "blocks")
            x = {k: a[k] for k in ("op", "nh", "nb", "sel", "var")}
            r = list(restriction)

            def data():
                conf = M.configuration(*lat, a["nh"], a["nb"], r)
                return iC.Data(conf, inter, dav.Diagonalization(3, 100, 1e-4, 0), M.booleans(terms))
            x.update({"n": n, "terms": ",".join(t for t in M.TERMS if t in terms), "shape": shape_of(lat),
                      "prm": fp(inter.__dict__), "r": fp([r or list(range(n))] * 2), "got": []})
            name = file_name(n, a["nh"], a["nb"], terms)

            def go():
                d = data()
                if a["op"] == "run":
                    iC.save_data(iC.perform_initial_computations(d))
                elif a["op"] == "sweep":
                    iC.perform_configurations_computations(d)
                elif a["op"] == "load":
                    x["got"] = [record_in_memory(iC.load_data(name), ".")]
                elif a["op"] == "loadp":
                    x["got"] = [record_in_memory(iC.load_data("Peripheral_embedding/" + name), "Peripheral_embedding")]
                elif a["op"] == "loadb":
                    x["got"] = [record_in_memory(iC.load_data("Embedding_blocks/tJHam" + a["var"] + name[5:]), "Embedding_blocks" + a["var"])]
                elif a["op"] == "neel":
                    x["got"] = [record_in_memory(emb.embedding_neel(d, 1e-3, 2, 3), "")]
                elif a["op"] == "blocks":
                    x["got"] = [record_in_memory(emb.embedding_blocks(d, 1e-3, 8, neel_embedding="-neel" in a["var"],
                                                                      neighbor_embedding="-neigh" in a["var"]), "")]
                elif a["op"] == "plot":
                    pp.generate_plots_configuration(d, pp.InputPlotting(1, 1))
                elif a["op"] == "plots":
                    pp.generate_plots(d, pp.InputPlotting(1, 1))
            with open_log() as log:
                _, x["err"] = attempt(go)
            x["snap"] = snapshot()
            x["opened"] = [key_of(record_of(p)) for p, m in log if m == "r"]
            x["wrote"] = [key_of(record_of(p)) for p, m in log if m == "w" and os.path.exists(p)]
            steps.append(x)
    return {"id": sid, "steps": steps}


def c24(c):
    r = rng("C24")
    square = [("periodic", 1, 1, 2)]
    jobs = []
    for h in c.generate("WorkflowGen", {"DEPTH": "2" if quick() else "3", "WIDE": "no"}):
        jobs.append((replay, ("all%d" % len(jobs), h, square, [], len(jobs))))
    depth = pick(8, 12)
    for h in c.generate("WorkflowGen", {"DEPTH": str(depth), "WIDE": "yes"}, count=pick(150, 800), depth=depth + 2, seed=r.randrange(10 ** 6)):
        lat = r.choice([("periodic", 1, 1, 2), ("periodic", 2, 2, 1)])
        res = r.sample(range(4), 3) if r.random() < 0.3 else []
        jobs.append((replay, ("sim%d" % len(jobs), h, [lat], res, len(jobs))))
    # Sweeps and runs on other lattice kinds.
    for lat, nh in ((("clusters", 1, 2, 1), 1), (("clusters", 2, 1, 1), 2), (("peripheral", 1, 1, 1), 2), (("periodic", 3, 1, 1), 1), (("periodic", 1, 3, 1), 0)):
        n = M.nsites(*lat)
        res = r.sample(range(n), n - 1)
        for sel in ("Full", "tJ"):
            h = [{"op": o, "nh": nh, "nb": nb, "sel": sel, "var": ""} for o, nb in
                 [("sweep", 0), ("load", 1), ("run", 1), ("load", 1), ("load", n - nh), ("sweep", 1), ("load", 1), ("plots", 0)]]
            jobs.append((replay, ("kind%d" % len(jobs), h, [lat], res, len(jobs))))
    # Every selection on one lattice and content.  (Selections that differ only in the diagonal exchange share a file unless
    # one of them is complete: see collide-static; so one of the two is taken, at random.)
    def every(r):
        sels = [["t", "z", "ij", "SD", "tN", "V"], ["t", "ij", "SD", "tN", "V"]]
        for m in range(15):
            x = ["t", "SD", "tN", "V"]
            x = [t for j, t in enumerate(x) if m >> j & 1]
            sels += [x + ["ij"] + r.choice([[], ["z"]]), x + r.choice([[], ["z"]])]
        sels.append(["t", "SD", "tN", "V"] + r.choice([[], ["z"]]))
        return [",".join(t for t in M.TERMS if t in x) for x in sels]
    for lat, nh, nb in ((("periodic", 2, 1, 1), 1, 1), (("periodic", 1, 1, 2), 2, 1))[: pick(1, 2)]:
        sels = every(r)
        h = [{"op": "run", "nh": nh, "nb": nb, "sel": x, "var": ""} for x in r.sample(sels, len(sels))]
        h += [{"op": "load", "nh": nh, "nb": nb, "sel": x, "var": ""} for x in r.sample(sels, len(sels))]
        jobs.append((replay, ("every%d" % len(jobs), h, [lat], [], len(jobs))))

    # Runs whose saved computations must not be confused.
    def runs(*xs):
        return [{"op": o, "nh": nh, "nb": nb, "sel": sel, "var": "", "lat": l} for o, nh, nb, sel, l in xs]
    for key, lats, h in (
            ("collide-static", square, runs(("run", 1, 1, "tJ", 0), ("run", 1, 1, "tij", 0), ("load", 1, 1, "tJ", 0))),
            ("collide-shape", [("periodic", 4, 1, 1), ("periodic", 1, 1, 2)], runs(("run", 1, 1, "tJ", 0), ("run", 1, 1, "tJ", 1), ("load", 1, 1, "tJ", 0))),
            ("collide-digits", [("periodic", 12, 1, 1)], runs(("run", 1, 10, "tJ", 0), ("run", 1, 0, "tJ", 0), ("load", 1, 10, "tJ", 0)))):
        jobs.append((replay, (key, h, lats, [], 7)))
    scns = c.record(jobs, limit=200)
    c.tlc("WorkflowTrace", scns, expect_states=sum(1 + len(s["steps"]) for s in scns))
    c.extra["steps"] = sum(len(s["steps"]) for s in scns)
    c.extra["steps_served"] = sum(not x["err"] for s in scns for x in s["steps"])
    c.sample([{k: x[k] for k in ("op", "nh", "nb", "sel", "var", "err")} for x in next(s for s in scns if s["id"].startswith("sim"))["steps"]])


# ---- computations in memory and on disk -----------------------------------------------------

SAVERS = {"main": (lambda dc: iC.save_data(dc), ".", "tJHam"),
          "ring": (lambda dc: emb.save_data_peripheral_embedding(dc), "Peripheral_embedding", "tJHam"),
          "blocks": (lambda dc: emb.save_data_embedding_blocks(dc, False, False, False), "Embedding_blocks", "tJHam"),
          "blocks-neel-neigh": (lambda dc: emb.save_data_embedding_blocks(dc, False, True, True), "Embedding_blocks", "tJHam-neel-neigh")}
ODD = [0.0, -0.0, 1.0, -1.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1 / 3, 1e-17, 123456789.123456789, 2.0 ** 53 + 1]


def odd_float(r):
    return r.choice(ODD) if r.random() < 0.3 else r.uniform(-10, 10) * 10.0 ** r.randrange(-12, 12)


def random_computation(spec, r):
    """spec: lat, nh, nb, terms, restriction, real, guess, spins, emb."""
    conf = M.configuration(*spec["lat"], spec["nh"], spec["nb"], spec["restriction"])
    flags = M.booleans(spec["terms"])
    flags.bV_embedding = spec["emb"]
    flags.b_spin_multipicities = spec["spins"]
    d = conf.nb_conf
    inter = itr.Interactions(**{k: odd_float(r) if not spec["real"] else r.uniform(-2, 2) for k, _ in M.PRM})
    guess = np.array([[r.uniform(-1, 1)] for _ in range(d)]) if spec["guess"] else None
    diag = dav.Diagonalization(r.randrange(1, 4), r.choice([1, 1.0]) * r.randrange(1, 500), 10.0 ** -r.randrange(1, 9), r.choice([0, 50]), guess)
    data = iC.Data(conf, inter, diag, flags)
    if spec["real"]:
        np.random.seed(r.randrange(2 ** 31))
        data.diagonalization.stp, data.diagonalization.dim_max = 200, 0
        return iC.perform_initial_computations(data)
    dense = {}
    for i in range(d):
        for j in r.sample(range(d), min(d, r.randrange(4))):
            dense[i, j] = odd_float(r)
    keys = sorted(dense)
    m = scipy.sparse.csr_matrix(([dense[k] for k in keys], ([k[0] for k in keys], [k[1] for k in keys])), shape=(d, d), dtype=float)
    nb = r.randrange(0, min(3, d) + 1)
    eig = dav.Eigenstates([odd_float(r) for _ in range(nb)], [odd_float(r) for _ in range(nb if spec["spins"] else 0)],
                          np.array([[odd_float(r) for _ in range(max(1, nb))] for _ in range(d)]))
    return iC.DataComputations(data, bC.construct_basis(conf).determinants, m, eig, iC.Times(r.random(), r.random(), r.random()))


def edit(dc, r):
    """The caller changes a computation in place."""
    dc.eigenstates.eigvects[0, 0] += 1
    if dc.eigenstates.eigvals:
        dc.eigenstates.eigvals[-1] = r.random()
    dc.hamiltonian.data[:1] = r.random()
    dc.data.diagonalization.tol = r.random()
    dc.data.interactions.J = r.uniform(-1, 1)
    dc.data.bool_interactions.b_spin_multipicities = not dc.data.bool_interactions.b_spin_multipicities
    if dc.times is not None:
        dc.times.thamiltonian = r.random()
    if r.random() < 0.5:
        dc.data.diagonalization.initial_guess = np.array([[r.random()]])


def parts(dc):
    """Every part of a computation as an exact string."""
    c, g, b, e = dc.data.configuration, dc.data.diagonalization, dc.data.bool_interactions, dc.eigenstates
    out = {"lattice": [c.nsites, np.asarray(c.bond_matrix).astype(int).tolist(), c.lattice_type, c.nbh, c.nbv, c.nblocs_side],
           "content": [c.nholes, c.nbeta, c.nalpha, c.nb_conf, hexed(float(c.spin_number)), hexed(float(c.doping))],
           "allowed": [type(c.sites_restriction).__name__, [list(x) for x in c.sites_restriction]],
           "coefficients": [[k, hexed(float(getattr(dc.data.interactions, k)))] for k, _ in M.PRM],
           "settings": [g.nb_val, g.stp, hexed(float(g.tol)), g.dim_max],
           "guess": "none" if g.initial_guess is None else hexed(np.asarray(g.initial_guess).tolist()),
           "terms": [[k, bool(getattr(b, k))] for k in ("bt", "bz", "bij", "bSD", "btN", "bV", "bV_embedding", "b_spin_multipicities")],
           "states": M.plain(dc.determinants), "hamiltonian": [list(dc.hamiltonian.shape), csr_rows(dc.hamiltonian)],
           "eigenvalues": hexed([float(v) for v in e.eigvals]), "spins": hexed([float(v) for v in e.spins]),
           "eigenvectors": [list(np.asarray(e.eigvects).shape), hexed(np.asarray(e.eigvects, dtype=float).tolist())],
           "times": "none" if dc.times is None else hexed([float(dc.times.tbasis), float(dc.times.thamiltonian), float(dc.times.teigenstates)])}
    out["use"] = used(dc)
    return {k: v if isinstance(v, str) else brief(json.dumps(v)) for k, v in out.items()}


def brief(s):
    return s if len(s) < 60 else s[:40] + "..." + hashlib.md5(s.encode()).hexdigest()[:10]


def used(dc):
    """What the computation gives to the stages that use it."""
    c = dc.data.configuration
    basis = bC.construct_basis(c)
    out = [basis.determinants]
    safe = itr.Interactions(**{k: 0.25 * (j + 1) for j, (k, _) in enumerate(M.PRM)})
    out.append(csr_rows(hC.build_hamiltonian(configuration=c, interactions=safe, basis=basis, bool_interactions=dc.data.bool_interactions,
                                             sites_restriction=[], verbose=False)))
    vect = np.arange(1, c.nb_conf + 1, dtype=float).reshape(-1, 1)
    out.append(hexed(M.plain(bC.get_spins_probabilitites_lattice(bC.Basis(c, dc.determinants), vect))))
    out.append([bC.get_index_in_basis(c, det) for det in dc.determinants])
    out.append([sorted(int(x) for x in lF.get_diagonal_second_neighbors(c, s)) for s in range(c.nsites)])
    out.append(M.plain(iC.get_most_dominant_determinants(dc.determinants, np.array(range(c.nb_conf)) - 2.5, 2).__repr__()))
    if dc.eigenstates.eigvects.shape[1] and np.all(np.isfinite(dc.eigenstates.eigvects)) and np.abs(dc.eigenstates.eigvects).max() < 1e100:
        out.append(hexed(M.plain(bC.get_spins_probabilitites_lattice(bC.Basis(c, dc.determinants), dc.eigenstates.eigvects[:, [0]]))))
    return out


def store(sid, hist, specs, seed):
    """Runs a history of StoreOps actions; specs[i] is the computation of slot i + 1."""
    r = random.Random(seed)
    mem, keys, steps = {}, {}, []

    def name(saver, key):
        _, folder, prefix = SAVERS[saver]
        return os.path.join(folder, prefix + specs[key]["file"][5:])
    with scratch():
        for a in hist:
            def go():
                if a["op"] == "compute":
                    mem[a["slot"]] = random_computation(specs[a["slot"] - 1], r)
                    keys[a["slot"]] = a["slot"] - 1
                elif a["op"] == "edit":
                    edit(mem[a["slot"]], r)
                elif a["op"] == "save":
                    SAVERS[a["saver"]][0](mem[a["slot"]])
                elif a["op"] == "load":
                    key = keys[a["from"]]
                    mem[a["slot"]] = iC.load_data(os.path.normpath(name(a["saver"], key)))
                    keys[a["slot"]] = key

            def look():
                return [[dict(parts(mem[s]), key=str(keys[s]))] if s in mem else [] for s in (1, 2)]
            _, err = attempt(go)
            if not err:
                got, err = attempt(look)
            nfiles = sum(len(fs) for _, _, fs in os.walk("initialComputations"))
            steps.append({"op": a["op"], "slot": a["slot"], "saver": a["saver"], "from": a["from"], "err": err, "mem": got if not err else [[], []],
                          "nfiles": nfiles})
            if err:
                break
    return {"id": sid, "steps": steps}


def computation_specs(r, real):
    lats = [("periodic", 1, 1, 2), ("periodic", 3, 1, 1), ("periodic", 2, 1, 2), ("clusters", 1, 2, 1), ("clusters", 2, 1, 1), ("peripheral", 1, 1, 1), ("periodic", 1, 1, 1)]
    out, names = [], set()
    while len(out) < 2:
        lat = r.choice(lats)
        n = M.nsites(*lat)
        nh, nb = r.choice(M.contents(n, 60 if not real else 12))
        k = r.randrange(1, n + 1)
        restriction = r.choice([[], r.sample(range(n), k), (r.sample(range(n), k), r.sample(range(n), r.randrange(1, n + 1)))])
        if real and isinstance(restriction, tuple):
            restriction = []
        terms = r.choice([M.TERMS, ["t"], ["z", "ij"], [], r.sample(M.TERMS, r.randrange(7))])
        f = file_name(n, nh, nb, terms)
        if f in names:
            continue
        names.add(f)
        out.append({"lat": lat, "nh": nh, "nb": nb, "restriction": restriction, "terms": terms, "real": real, "guess": r.random() < 0.5 and not real,
                    "spins": r.random() < 0.6, "emb": r.random() < 0.4, "file": f})
    return out


def c23(c):
    r = rng("C23")
    jobs = []
    for h in c.generate("StoreGen", {"DEPTH": pick("5", "6"), "WIDE": "no"}):
        jobs.append((store, ("all%d" % len(jobs), h, computation_specs(r, False), r.randrange(10 ** 6))))
    for h in c.generate("StoreGen", {"DEPTH": "9", "WIDE": "yes"}, count=pick(400, 3000), depth=11, seed=r.randrange(10 ** 6)):
        jobs.append((store, ("sim%d" % len(jobs), h, computation_specs(r, r.random() < 0.3), r.randrange(10 ** 6))))
    scns = c.record(jobs, limit=120)
    c.tlc("StoreTrace", scns)
    c.extra["steps"] = sum(len(s["steps"]) for s in scns)
    c.sample([{k: x[k] for k in ("op", "slot", "saver", "from")} for x in scns[-1]["steps"]])
    c.sample(scns[-1]["steps"][-1]["mem"])


# ---- faults while saving ----------------------------------------------------------------------

def canon(dc, saver):
    p = parts(dc)
    p["guess"] = "none"
    if saver != "main":
        p["times"] = "none"
    return fp(p)


def spoil(dc, which):
    """A computation with a part that JSON cannot express."""
    d = copy.copy(dc)
    d.data = copy.copy(dc.data)
    d.eigenstates = copy.copy(dc.eigenstates)
    if which == 0:
        d.eigenstates.spins = [{0.5}]
    elif which == 1:
        d.data.interactions = copy.copy(dc.data.interactions)
        d.data.interactions.J = np.int64(1)
    elif which == 2:
        d.data.diagonalization = copy.copy(dc.data.diagonalization)
        d.data.diagonalization.nb_val = np.int32(2)
    elif which == 3:
        d.eigenstates.eigvals = [1j]
    elif which == 4:
        d.determinants = [np.array(x) for x in dc.determinants]
    elif which == 5:
        d.data.bool_interactions = copy.copy(dc.data.bool_interactions)
        d.data.bool_interactions.bV_embedding = np.bool_(True)
    else:
        d.hamiltonian = None
    return d


def in_child(fn, limit=None, killed=False):
    """Runs fn in a child process that may write at most limit bytes in a file.  Returns done, error or killed."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if killed else signal.SIG_IGN)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                fn()
                code = 0
            except BaseException:
                code = 7
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return "killed"
    return {0: "done", 7: "error"}.get(os.WEXITSTATUS(status), "lost")


def faulty(sid, hist, saver, lat, seed):
    """hist: steps {v, fault, at}; at is a fraction of the size of the file, or a number of bytes when it is an integer."""
    r = random.Random(seed)
    n = M.nsites(*lat)
    nh, nb = r.choice(M.contents(n, 12))
    base = {"lat": lat, "nh": nh, "nb": nb, "restriction": [], "terms": M.TERMS, "real": False, "guess": False, "spins": True, "emb": False}
    save, folder, prefix = SAVERS[saver]
    comps = {v: random_computation(base, r) for v in "AB"}
    if r.random() < 0.5:
        comps["B"].eigenstates.spins = [0.5] * 40           # longer than A, or shorter
    else:
        comps["A"].eigenstates.spins = [0.5] * 40
    nh2, nb2 = (nh, nb + 1) if nh + nb < n else ((nh, nb - 1) if nb else (nh - 1, nb))
    comps["C"] = random_computation(dict(base, nh=nh2, nb=nb2), r)
    marks = {canon(comps[v], saver): v for v in "ABC"}
    name = lambda a, b: os.path.normpath(os.path.join(folder, prefix + file_name(n, a, b, M.TERMS)[5:]))
    steps = []

    def loaded(nm):
        # in a new process, so that nothing is remembered
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                got, err = attempt(iC.load_data, nm)
                ans, e2 = ("error", "") if err else attempt(lambda: marks.get(canon(got, saver), "mixture"))
                os.write(wfd, json.dumps([ans if not e2 else "mixture", (err or e2 or "")[:60]]).encode())
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            text = f.read()
        os.waitpid(pid, 0)
        return json.loads(text or b'["mixture", "no answer"]')

    with scratch():
        path = os.path.join("initialComputations", name(nh, nb))
        with_sub = r.random() < 0.5
        sizes = {}
        for v in "ABC":
            save(comps[v])
            p = os.path.join("initialComputations", name(nh2, nb2) if v == "C" else name(nh, nb))
            sizes[v] = os.path.getsize(p)
        os.remove(path)
        for a in hist:
            v, fault = a["v"], a["fault"]
            at = a["at"] if isinstance(a["at"], int) else int(a["at"] * sizes[v])
            dc = comps[v] if fault != "content" else spoil(comps[v], r.randrange(7))
            if fault == "content":
                at = -1
            fn = lambda: save(dc)
            if fault == "kill":
                out = in_child(fn, at, True)
            elif fault == "werr":
                out = in_child(fn, at, False)
            elif fault == "full":
                aside = path + ".aside"
                if os.path.exists(path):
                    os.rename(path, aside)
                os.symlink("/dev/full", path)
                out = in_child(fn)
                if os.path.islink(path):
                    os.remove(path)
                    if os.path.exists(aside):
                        os.rename(aside, path)
                elif os.path.exists(aside):
                    os.remove(aside)
            elif fault == "open" and r.random() < 0.5:
                # a folder stands where the file should be
                aside = path + ".aside"
                if os.path.exists(path):
                    os.rename(path, aside)
                os.mkdir(path)
                out = in_child(fn)
                shutil.rmtree(path) if os.path.isdir(path) else os.remove(path)
                if os.path.exists(aside):
                    os.rename(aside, path)
            elif fault == "open":
                os.rename("initialComputations", "elsewhere")
                out = in_child(fn)
                # A saver that makes the missing folder has saved in a place that is now thrown away.
                made = os.path.exists(path)
                shutil.rmtree("initialComputations", ignore_errors=True)
                os.rename("elsewhere", "initialComputations")
                out = "error" if out == "done" and made else out
            else:
                out = in_child(fn)
            got, why = loaded(name(nh, nb))
            other, _ = loaded(name(nh2, nb2))
            steps.append({"v": v, "fault": fault, "at": at, "outcome": out, "got": got, "other": other, "why": why})
    return {"id": sid, "saver": saver, "steps": steps}


def c25(c):
    r = rng("C25")
    tiny, small = ("periodic", 1, 1, 1), ("periodic", 1, 1, 2)
    jobs = []
    hists = c.generate("CrashGen", {"DEPTH": pick("2", "3")})
    for h in hists:
        for saver in (SAVERS if quick() else ["main", r.choice(list(SAVERS)[1:])]):
            h2 = [dict(x, at=r.choice([0, 1, 0.5, 0.99, r.random(), r.randrange(200)])) for x in h]
            jobs.append((faulty, ("hist%d" % len(jobs), h2, saver, r.choice([tiny, small]), r.randrange(10 ** 6))))
    for _ in range(pick(60, 600)):
        h = r.choice(hists) + r.choice(hists) + r.choice(hists)
        h2 = [dict(x, at=r.choice([0, 1, 0.5, 0.99, r.random(), r.randrange(200)])) for x in h]
        jobs.append((faulty, ("long%d" % len(jobs), h2, r.choice(list(SAVERS)), r.choice([tiny, small]), r.randrange(10 ** 6))))
    # A cut after every number of bytes.
    for saver in SAVERS:
        for first in "AB":
            for fault in ("kill", "werr"):
                for lo in range(0, pick(1400, 2200), 100):
                    h = []
                    for at in range(lo, lo + 100, pick(4, 1)):
                        h += [{"v": first, "fault": "no", "at": 0}, {"v": "AB"[first == "A"], "fault": fault, "at": at}]
                    jobs.append((faulty, ("cut%d" % len(jobs), h, saver, tiny, r.randrange(10 ** 6))))
    scns = c.record(jobs, limit=300)
    c.tlc("CrashTrace", scns, expect_states=sum(1 + len(s["steps"]) for s in scns))
    for f in ("no", "kill", "werr", "full", "open", "content"):
        for o in ("done", "error", "killed"):
            k = sum(x["fault"] == f and x["outcome"] == o for s in scns for x in s["steps"])
            if k:
                c.extra["%s-%s" % (f, o)] = k
    c.sample(scns[-1]["steps"][:4])
