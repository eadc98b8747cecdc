"""Recorder and check of complete computations: C28."""
import numpy as np

from core import attempt, pick, quick, rng
import model as M
from model import bC, hC, iC, itr
import davidson as dav
from eigen import connected, units


def run(lat, nh, nb, restriction, prm, sel, nbval, tol, dmax, spins, extra=None):
    """extra: the start is of that many random vectors more than states asked for; None: no start is given."""
    conf = M.configuration(*lat, nh, nb, restriction)
    flags = M.booleans(sel)
    flags.b_spin_multipicities = spins
    data = iC.Data(conf, M.interactions(prm, 1), dav.Diagonalization(nbval, 3e3, tol, dmax), flags)
    if extra is not None:
        d = M.dim(conf.nsites, nh, nb)
        data.diagonalization.initial_guess = np.random.rand(d, min(d, nbval + extra))
    return iC.perform_initial_computations(data)


def values(dc):
    return [int(round(float(v) * 40000)) for v in dc.eigenstates.eigvals]


def complete(sid, lat, nh, nb, restriction, prm, sel, nbval, tol, dmax, spins, extra, seed):
    np.random.seed(seed)
    n = M.nsites(*lat)
    w, h = M.shape(*lat)
    x = {"id": sid, "kind": lat[0], "w": w, "h": h, "nh": nh, "nb": nb, "r": list(restriction), "prm": prm, "sel": list(sel), "dim": M.dim(n, nh, nb),
         "nbval": nbval, "spins": spins, "tol5": int(tol * 4 * 1e5) + 1, "tol4": int(tol * 4 * 1e4) + 1, "dets": [], "rows": [], "d": [], "q": [], "val": [], "vec": [],
         "spin2": [], "opp": [], "gotnh": -1, "gotnb": -1, "times": False, "err": ""}

    def f():
        dc = run(lat, nh, nb, restriction, prm, sel, nbval, tol, dmax, spins, extra)
        x["dets"] = [M.int_det(d) for d in dc.determinants]
        x["rows"] = M.rows(dc.hamiltonian, 1)
        x["val"] = values(dc)
        vecs = np.asarray(dc.eigenstates.eigvects, dtype=float)
        if vecs.shape != (x["dim"], len(x["val"])):
            raise RuntimeError("%d values but vectors of shape %r" % (len(x["val"]), vecs.shape))
        x["vec"] = [units(vecs[:, j], 1e5) for j in range(vecs.shape[1])]
        x["spin2"] = [int(round(2 * s)) if isinstance(s, (int, float)) and abs(2 * s - round(2 * s)) < 1e-9 else -1 for s in dc.eigenstates.spins]
        c, t = dc.data.configuration, dc.times
        x["gotnh"], x["gotnb"] = c.nholes, c.nbeta
        x["times"] = all(isinstance(v, float) and v >= 0 for v in (t.tbasis, t.thamiltonian, t.teigenstates))
        x["opp"] = values(run(lat, nh, n - nh - nb, restriction, prm, sel, nbval, tol, dmax, False))
    _, x["err"] = attempt(f)
    if not x["err"]:
        # The certificate is computed from what was recorded, and verified against the specification.
        dense = np.zeros((x["dim"], x["dim"]))
        for i, row in enumerate(x["rows"][:x["dim"]]):
            for j, a in row:
                if j < x["dim"]:
                    dense[i, j] = a
        d, q = np.linalg.eigh(dense)
        x["d"] = [int(round(v * 1e4)) for v in d]
        x["q"] = [units(q[:, j], 1e5) for j in range(x["dim"])]
    return x


LATS = [("periodic", 1, 1, 1), ("periodic", 2, 1, 1), ("periodic", 3, 1, 1), ("periodic", 1, 4, 1), ("periodic", 1, 1, 2), ("periodic", 3, 2, 1), ("periodic", 2, 3, 1),
        ("periodic", 5, 1, 1), ("clusters", 1, 1, 1), ("clusters", 2, 1, 1), ("clusters", 1, 2, 1), ("clusters", 1, 3, 1), ("clusters", 3, 1, 1), ("peripheral", 1, 1, 1)]


def coupled(lat, nh, nb, restriction, prm, sel):
    """Every state is coupled with another one (or is alone)."""
    if M.dim(M.nsites(*lat), nh, nb) == 1:
        return True
    conf = M.configuration(*lat, nh, nb, restriction)
    val, err = attempt(lambda: hC.build_hamiltonian(configuration=conf, interactions=M.interactions(prm, 1), basis=bC.construct_basis(conf),
                                                    bool_interactions=M.booleans(sel)).toarray())
    return bool(err) or connected(val)


def c28(c):
    r = rng("C28")
    jobs = []
    want = pick(400, 1200)
    tries = 0
    while len(jobs) < want and tries < 20 * want:
        tries += 1
        lat = r.choice(LATS)
        n = M.nsites(*lat)
        nh, nb = r.choice(M.contents(n, pick(60, 110)))
        x = r.random()
        sel = M.TERMS if x < 0.4 else ["t", "z", "ij"] if x < 0.6 else ["z", "ij", "SD", "t"] if x < 0.7 else r.sample(M.TERMS, r.randint(1, 6))
        prm = {k: r.choice([-1, 1]) * r.randint(1, 7) for _, k in M.PRM}
        restriction = [] if r.random() < 0.8 else r.sample(range(n), max(1, n - 1))
        if not coupled(lat, nh, nb, restriction, prm, sel):
            continue
        d = M.dim(n, nh, nb)
        nbval = r.choice([1, 1, 2, 3, 5, d, d + 1])
        jobs.append((complete, ("c%d" % len(jobs), lat, nh, nb, restriction, prm, sel, min(nbval, 12), r.choice([1e-4, 1e-5]), r.choice([0, 0, d, d + 4]),
                                r.random() < 0.75, r.choice([None, None, 0, 2]), r.randrange(2 ** 31))))
    scns = c.record(jobs, limit=300)
    c.tlc("Pipeline", scns, expect_states=sum(1 if s["err"] else 2 * s["dim"] + max(1, len(s["val"])) for s in scns))
    c.extra["eigenpairs"] = sum(len(s["val"]) for s in scns)
    c.extra["spins"] = sum(len(s["spin2"]) for s in scns)
    c.sample({k: v for k, v in scns[0].items() if k not in ("q",)})
