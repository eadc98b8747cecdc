"""Recorder and checks of the embeddings: C26, C27."""
import math
import os
import sys

import numpy as np
import scipy.sparse

from core import attempt, pick, quick, rng
import model as M
from model import bC, hC, iC, itr, lF
from workflow import scratch, file_name
import davidson as dav
import embedding as emb


class standin:
    """Replaces the diagonalizer, wherever it was imported, by one that answers with chosen vectors."""

    def __init__(self, answer):
        self.answer = answer

    def __enter__(self):
        real = dav.modified_davidson_algorithm
        root = os.path.dirname(os.path.abspath(dav.__file__))
        mine = [m for m in list(sys.modules.values()) if os.path.dirname(os.path.abspath(getattr(m, "__file__", None) or "/")) == root]
        self.places = [(m, k) for m in mine for k, v in list(vars(m).items()) if v is real]
        self.real = real
        for m, k in self.places:
            setattr(m, k, self.answer)

    def __exit__(self, *a):
        for m, k in self.places:
            setattr(m, k, self.real)


def similar(r, v, moves):
    """A vector with the same entries up to order and sign, with a non-negative overlap with v."""
    w = list(v)
    for _ in range(moves):
        i, j = r.randrange(len(w)), r.randrange(len(w))
        w[i], w[j] = w[j], w[i]
    for i in range(len(w)):
        if r.random() < 0.05:
            w[i] = -w[i]
    return w if sum(a * b for a, b in zip(v, w)) >= 0 else [-x for x in w]


def start_vector(r, d):
    v = [0] * d
    for i in r.sample(range(d), min(d, r.randrange(2, 8))):
        v[i] = r.choice([1, 1, 2, 3, -1, -2])
    if not any(v):
        v[0] = 1
    return v


def dist(u, v):
    return sum((a - b) ** 2 for a, b in zip(u, v))


def amplitude_rows(ham, scale):
    return M.rows(ham, scale)


def result_of(dc, nrm, kind, scale):
    vec = np.asarray(dc.eigenstates.eigvects)[:, 0] * math.sqrt(nrm)
    ints = [int(round(float(x))) if abs(x - round(float(x))) < 1e-6 else M.BAD for x in vec]
    c = dc.data.configuration
    return {"vec": ints, "val": int(round(float(dc.eigenstates.eigvals[0]))), "nh": c.nholes, "nb": c.nbeta, "ham": amplitude_rows(dc.hamiltonian, scale)}


def embedding_run(sid, kind, lat, nh, nb, terms, prm, maxit, target, opts, seed):
    """target: iteration at which the sequence of ground states settles (0 when never)."""
    r = rng("embedding", seed)
    np.random.seed(seed % 2 ** 31)
    n, d = M.nsites(*lat), M.dim(M.nsites(*lat), nh, nb)
    w, h = M.shape(*lat)
    v0 = start_vector(r, d)
    nrm = sum(x * x for x in v0)
    seq = [v0]
    while len(seq) <= maxit + 3:
        seq.append(similar(r, seq[-1], r.choice([1, 1, 2, 3, 6])))
    steps = [dist(a, b) for a, b in zip(seq, seq[1:])]
    if target and target <= maxit:
        m = r.choice([steps[target - 1], steps[target - 1] + r.choice([0, 1])])
    else:
        m = r.choice([0, max(0, min(steps) - 1), r.choice(steps)])
    tol = math.sqrt((m + 0.5) / nrm)
    unit = r.choice([1, 1, 1024.0, 1 / 1024.0])
    inter = M.interactions(prm, unit)
    conf = M.configuration(*lat, nh, nb)
    flags = M.booleans(terms)
    basis = bC.construct_basis(conf)
    ham = hC.build_hamiltonian(configuration=conf, interactions=inter, basis=basis, bool_interactions=flags)
    nval = r.choice([1, 2, 5])
    out = {"id": sid, "kind": kind, "n": n, "w": w, "h": h, "nh": nh, "nb": nb, "dim": d, "nrm": nrm, "m": m, "maxit": maxit,
           "J": prm["J"], "VNN": prm["VNN"], "VNNNper": prm["VNNNper"], "rev": bool(opts.get("reverse_spins", True)),
           "four": not opts.get("neighbor_embedding", False), "H": M.rows(ham, unit), "v0": v0, "runs": [], "ret": [], "saved": []}

    def filed(vec, matrix, guess):
        """A saved computation of this block."""
        data = iC.Data(M.configuration(*lat, nh, nb), M.interactions(prm, unit), dav.Diagonalization(nval, 5e1, 1e-6, 0, guess), M.booleans(terms))
        cols = np.array([[x / math.sqrt(nrm), (i == 0) * 1.0] for i, x in enumerate(vec)])
        return iC.DataComputations(data, bC.construct_basis(data.configuration).determinants, matrix, dav.Eigenstates([-9.0, 1.0], [0.5, 0.5], cols), iC.Times(1.0, 1.0, 1.0))

    def answer(*args, **kw):
        a = kw["A"] if "A" in kw else args[0]
        i = len(out["runs"]) + 1
        v = seq[i]
        cols = [[x / math.sqrt(nrm)] + [(p + 1.0) / d] * (nval - 1) for p, x in enumerate(v)]
        out["runs"].append({"A": amplitude_rows(a, nrm * unit), "v": v, "val": -20 - i})
        if i >= len(seq) - 1:
            raise RuntimeError("does not stop")
        return dav.Eigenstates([-20.0 - i] + [1.0] * (nval - 1), [], np.array(cols))
    guess = np.ones((d, 1)) if r.random() < 0.3 else None
    other = scipy.sparse.csr_matrix(np.eye(d) * 7.0)
    decoy = similar(r, v0, 5)
    with scratch():
        name = file_name(n, nh, nb, terms)
        if kind == "blocks" and opts.get("neel_embedding"):
            iC.save_data(filed(decoy, other, None))
            emb.save_data_peripheral_embedding(filed(v0, ham, None))
            where = "Embedding_blocks/tJHam"
        else:
            if kind == "blocks" and r.random() < 0.5:
                emb.save_data_peripheral_embedding(filed(decoy, other, None))
            iC.save_data(filed(v0, ham, None))
            where = "Embedding_blocks/tJHam" if kind == "blocks" else "Peripheral_embedding/tJHam"
        if kind == "blocks":
            where += "".join("-" + t for t, o in (("neel", "neel_embedding"), ("neigh", "neighbor_embedding")) if opts.get(o))
        data = iC.Data(conf, inter, dav.Diagonalization(1, 5e1, 1e-6, 0, guess), flags)
        with standin(answer):
            if kind == "ring":
                got, out["err"] = attempt(emb.embedding_neel, data, tol, maxit, nval)
            else:
                got, out["err"] = attempt(emb.embedding_blocks, data, tol, maxit, **opts)
        if not out["err"]:
            if got is not None:
                out["ret"].append(result_of(got, nrm, kind, nrm * unit))
            back, err = attempt(iC.load_data, where + name[5:])
            if not err:
                out["saved"].append(result_of(back, nrm, kind, nrm * unit))
    return out


LATS = [("periodic", 1, 1, 1), ("periodic", 2, 1, 1), ("periodic", 1, 2, 1), ("periodic", 3, 1, 1), ("periodic", 1, 3, 1), ("periodic", 1, 1, 2), ("periodic", 2, 2, 1),
        ("periodic", 3, 2, 1), ("periodic", 2, 3, 1), ("periodic", 4, 1, 1), ("periodic", 1, 5, 1)]
BIG = [("periodic", 1, 1, 3), ("periodic", 2, 1, 2), ("periodic", 1, 2, 2), ("periodic", 3, 3, 1), ("periodic", 4, 2, 1)]


def pieces(r, cap):
    for lat in LATS + BIG:
        n = M.nsites(*lat)
        cs = [x for x in M.contents(n, cap)]
        for nh, nb in (cs if len(cs) <= pick(8, 30) else r.sample(cs, pick(8, 30))):
            yield lat, nh, nb


def embed_jobs(kind, r):
    jobs = []
    for rep in range(pick(1, 4)):
        for lat, nh, nb in pieces(r, pick(40, 90)):
            prm, _ = M.couplings(r)
            terms = r.choice([M.TERMS, ["t", "z", "ij"], r.sample(M.TERMS, 3)])
            maxit = r.choice([1, 2, 3, 5])
            target = r.choice([0, 1, 2, 3, 4, 5])
            opts = {}
            if kind == "blocks":
                w, h = M.shape(*lat)
                opts = {"neighbor_embedding": w != h or r.random() < 0.4, "neel_embedding": r.random() < 0.4}
                if r.random() < 0.5:
                    opts["reverse_spins"] = False
            sid = "%s%d" % (kind, len(jobs))
            jobs.append((embedding_run, (sid, kind, lat, nh, nb, terms, prm, maxit, target, opts, r.randrange(10 ** 6))))
    return jobs


def embedded(c, kind):
    r = rng(kind)
    jobs = embed_jobs(kind, r)
    scns = c.record(jobs, limit=200)
    c.tlc("Embedding", scns, expect_states=sum(1 + len(s["runs"]) for s in scns))
    c.extra["iterations"] = sum(len(s["runs"]) for s in scns)
    c.extra["converged"] = sum(len(s["runs"]) < s["maxit"] for s in scns)
    c.extra["shapes"] = sorted({"%dx%d" % (s["w"], s["h"]) for s in scns})
    c.sample({k: v for k, v in scns[-1].items() if k != "runs"})


def c26(c):
    embedded(c, "ring")


def c27(c):
    embedded(c, "blocks")


# -- dynamic embedding ------------------------------------------------------------------------
def dynamic_runs(sid, lat, nh, nb, terms, prm, maxit, opts, thr, converge, seed):
    """One scenario per iteration of a dynamic embedding: what it adds to the static one under the same ground states."""
    r = rng("dynamic", seed)
    n, d = M.nsites(*lat), M.dim(M.nsites(*lat), nh, nb)
    w, h = M.shape(*lat)
    seq = [[r.choice([0, 1, 1, 2, 3, -1, -2]) for _ in range(d)]]
    seq[0][r.randrange(d)] = r.choice([1, 2])
    while len(seq) <= maxit:
        seq.append(similar(r, seq[-1], r.choice([1, 2, 3])))
    nrm = sum(x * x for x in seq[0])
    # No denominator 2 E - E(intermediate) vanishes.
    limit = max(abs(prm["VNN"]), *(abs(prm[x]) // 2 + 1 for x in ("J", "Jpar", "Jper"))) * 4 * n + abs(prm["VNNNper"]) * 4 * n
    energies = [r.choice([-1, -1, -1, 1]) * (limit // 2 + r.randrange(10, 60)) for _ in range(maxit + 1)]
    thr = min(thr, 2 ** 31 // (nrm * 16 * limit + 16 * 60 * nrm + 1))
    unit = r.choice([1, 1, 256.0, 1 / 256.0])
    inter, flags = M.interactions(prm, unit), M.booleans(terms)
    base = {"n": n, "w": w, "h": h, "nh": nh, "nb": nb, "dim": d, "nrm": nrm, "prm": prm, "thr": thr,
            "rev": bool(opts.get("reverse_spins", True)), "four": not opts.get("neighbor_embedding", False)}

    def run(dynamic):
        seen = []

        def answer(*args, **kw):
            a = kw["A"] if "A" in kw else args[0]
            seen.append(np.asarray(a.toarray(), dtype=float))
            if len(seen) > maxit:
                raise RuntimeError("does not stop")
            return dav.Eigenstates([energies[len(seen)] / unit], [], np.array([[x / math.sqrt(nrm)] for x in seq[len(seen)]]))
        with scratch():
            conf = M.configuration(*lat, nh, nb)
            basis = bC.construct_basis(conf)
            ham = hC.build_hamiltonian(conf, inter, basis, flags)
            data = iC.Data(conf, inter, dav.Diagonalization(1, 50, 1e-6, 0), flags)
            cols = np.array([[x / math.sqrt(nrm), (i == 0) * 1.0] for i, x in enumerate(seq[0])])
            filed = iC.DataComputations(data, basis.determinants, ham, dav.Eigenstates([energies[0] / unit, 99.0], [0.5, 0.5], cols), iC.Times(1.0, 1.0, 1.0))
            name = file_name(n, nh, nb, terms)
            if opts.get("neel_embedding"):
                emb.save_data_peripheral_embedding(filed)
            else:
                iC.save_data(filed)
            tol = 1e3 if converge else 1e-9
            with standin(answer):
                got, err = attempt(emb.embedding_blocks, data, tol, maxit, dynamic_embedding=dynamic, threshold_mel=thr / 997 / unit, **opts)
            faults = []
            if not err and dynamic:
                tags = "-dyn" + "".join("-" + t for t, o in (("neel", "neel_embedding"), ("neigh", "neighbor_embedding")) if opts.get(o))
                back, lost = attempt(iC.load_data, "Embedding_blocks/tJHam" + tags + name[5:])
                same = (lambda dc: np.allclose(dc.hamiltonian.toarray(), seen[-1], rtol=0, atol=1e-9 / unit)
                        and abs(dc.eigenstates.eigvals[0] * unit - energies[len(seen)]) < 1e-6
                        and np.allclose(np.asarray(dc.eigenstates.eigvects)[:, 0] * math.sqrt(nrm), seq[len(seen)], rtol=0, atol=1e-6))
                if converge or dist(seq[len(seen) - 1], seq[len(seen)]) == 0:
                    faults = ["" if got is not None and same(got) else "returned another result", lost or ("" if same(back) else "saved another result")]
                elif not lost:
                    faults = ["saved without convergence"]
            return seen, err, faults
    dyn, err, faults = run(True)
    stat, err2, _ = run(False)
    out = []
    for i in range(max(1, len(dyn))):
        one = dict(base, id="%s.%d" % (sid, i), v=seq[i], e0=energies[i], err=err or err2, D=[], result=faults if i == 0 else [])
        if not one["err"]:
            if len(dyn) != len(stat):
                one["err"] = "%d iterations instead of %d" % (len(dyn), len(stat))
            else:
                diff = (dyn[i] - stat[i]) * unit * nrm * 100000
                one["D"] = [[[j, int(round(x))] for j, x in enumerate(row) if abs(x) >= 0.5] for row in diff.tolist()]
                if not np.isfinite(diff).all() or abs(diff).max() > 2e9:
                    one["err"] = "matrix out of range"
        out.append(one)
    return out


def c32(c):
    r = rng("dynamic")
    jobs = []
    lats = [("periodic", 1, 1, 1), ("periodic", 2, 1, 1), ("periodic", 1, 2, 1), ("periodic", 3, 1, 1), ("periodic", 1, 3, 1),
            ("periodic", 1, 1, 2), ("periodic", 2, 2, 1), ("periodic", 4, 1, 1), ("periodic", 1, 4, 1), ("periodic", 3, 2, 1), ("periodic", 2, 3, 1), ("periodic", 3, 3, 1)]
    for rep in range(pick(1, 4)):
        for lat in lats:
            n = M.nsites(*lat)
            cs = [x for x in M.contents(n, pick(12 if n > 1 else 3, 30 if n < 6 else 12)) if n > 6 or M.dim(n, *x) > 1 or r.random() < 0.3]
            for nh, nb in (cs if len(cs) <= pick(7, 20) else r.sample(cs, pick(7, 20))):
                prm, _ = M.couplings(r)
                w, h = M.shape(*lat)
                opts = {"neighbor_embedding": w != h or r.random() < 0.4, "neel_embedding": r.random() < 0.3}
                if r.random() < 0.4:
                    opts["reverse_spins"] = False
                thr = r.choice([0, 0, 0, r.randrange(1, 300), r.randrange(1, 60), 10 ** 9])
                jobs.append((dynamic_runs, ("d%d" % len(jobs), lat, nh, nb, r.choice([M.TERMS, r.sample(M.TERMS, 3)]), prm, r.choice([1, 1, 2]), opts, thr,
                                            r.random() < 0.5, r.randrange(10 ** 6))))
    scns = [s for out in c.record(jobs, limit=400) for s in out]
    c.tlc("Dynamic", scns, expect_states=sum(1 + (0 if s["err"] else s["dim"]) for s in scns))
    c.extra["coupled"] = sum(any(s["D"]) for s in scns if s["D"])
    c.extra["shapes"] = sorted({"%dx%d" % (s["w"], s["h"]) for s in scns})
    c.sample({k: v for k, v in scns[-1].items() if k != "D"})
