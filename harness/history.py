"""Recorder and check of whole sessions: C31."""
import hashlib
import json
import os
import pickle
import zlib

import numpy as np

from core import JobTimeout, attempt, pick, quick, rng
import model as M
from model import bC, hC, iC, itr, lF
from workflow import file_name, scratch
import davidson as dav
import embedding as emb

SELS = [["t", "z", "ij", "SD", "tN", "V"], ["t", "ij"], ["t", "z", "SD"], ["ij", "V", "tN", "t"], ["t", "z", "ij", "V"]]
CONFS = [(("periodic", 1, 1, 2), 1, 1), (("periodic", 1, 1, 2), 1, 2), (("periodic", 1, 1, 2), 2, 1), (("periodic", 3, 1, 1), 1, 1), (("periodic", 1, 4, 1), 1, 2),
         (("periodic", 4, 1, 1), 2, 1), (("periodic", 2, 2, 1), 2, 1), (("clusters", 2, 1, 1), 1, 1), (("clusters", 1, 2, 1), 2, 1), (("clusters", 1, 1, 1), 1, 1),
         (("periodic", 2, 1, 1), 0, 1), (("periodic", 5, 1, 1), 1, 1), (("periodic", 3, 2, 1), 1, 1), (("peripheral", 1, 1, 1), 3, 1)]

TURNS = [[0, 1, 3, 2], [0, 3, 2, 1], [1, 0, 2, 3], [2, 1, 0, 3]]       # of the square: none keeps its links


class World:
    """What the sources of a session are: lattices, contents, allowed sites, couplings, selections, blocks of vectors."""

    def __init__(self, seed):
        r = rng("history", seed)
        self.confs = []
        for lat, nh, nb in [CONFS[0]] + r.sample(CONFS[1:3], 1) + r.sample(CONFS[3:], 2):
            n = M.nsites(*lat)
            how = r.randrange(4)
            res = [] if how < 2 else r.sample(range(n), r.randrange(2, n) if n > 2 else 2)
            self.confs.append((lat, nh, nb, res if how < 3 else (res, r.sample(range(n), 2))))
        # The first lattice again, its sites numbered in another order.
        lat, nh, nb, res = self.confs[0]
        self.confs.append((lat, nh, nb, res, r.choice(TURNS)))
        self.inter = [M.couplings(r)[0] for _ in range(2)]
        self.sels = r.sample(SELS, 2)
        self.seed = seed


def sub(r, *a):
    return rng("history", r, *a)


def make(world, op, k):
    if op == "conf":
        lat, nh, nb, res = world.confs[k - 1][:4]
        conf = M.configuration(*lat, nh, nb, tuple(list(x) for x in res) if isinstance(res, tuple) else list(res))
        for turn in world.confs[k - 1][4:]:
            conf.bond_matrix, conf.lattice_type = conf.bond_matrix[np.ix_(turn, turn)], "renumbered"
        return conf
    if op == "inter":
        return M.interactions(world.inter[k - 1], 1)
    if op == "sel":
        b = M.booleans(world.sels[k - 1])
        b.b_spin_multipicities = False
        return b
    r = sub(world.seed, "block", k)
    return np.array([[float(r.randrange(-9, 10)) + (7 * (i == j)) for j in range(3)] for i in range(6)])


def flat(conf):
    return {k: M.plain(getattr(conf, k)) for k in ("nsites", "nholes", "nbeta", "nalpha", "spin_number", "doping", "nb_conf", "bond_matrix", "sites_restriction",
                                                   "lattice_type", "nbh", "nbv", "nblocs_side")}


def contents(kind, x):
    """The contents of an object."""
    if kind == "conf":
        return flat(x)
    if kind in ("inter", "sel"):
        names = [a for a, _ in M.PRM] if kind == "inter" else ["bt", "bz", "bij", "bSD", "btN", "bV", "bV_embedding", "b_spin_multipicities"]
        return {k: M.plain(getattr(x, k)) for k in names}
    if kind == "basis":
        return [flat(x.configuration), M.plain(x.determinants)]
    if kind == "mat":
        return M.plain(x.toarray())
    if kind == "comp":
        d = x.data
        return [flat(d.configuration), contents("inter", d.interactions), contents("sel", d.bool_interactions),
                [d.diagonalization.nb_val, d.diagonalization.stp, d.diagonalization.tol, d.diagonalization.dim_max],
                M.plain(x.determinants), M.plain(x.hamiltonian.toarray()), M.plain(x.eigenstates.eigvals), M.plain(x.eigenstates.spins), M.plain(x.eigenstates.eigvects)]
    return M.plain(x)


def digest(kind, x):
    try:
        return hashlib.sha1(repr(contents(kind, x)).encode()).hexdigest()
    except Exception as e:
        return "unreadable: %s" % type(e).__name__


def encode(x, out):
    if isinstance(x, dict):
        for k in sorted(x, key=repr):
            encode(k, out)
            encode(x[k], out)
    elif isinstance(x, (list, tuple)):
        out["exact"].append(len(x))
        for v in x:
            encode(v, out)
    elif isinstance(x, (bool, int)):
        out["exact"].append(int(x) if abs(x) < 2 ** 31 else zlib.crc32(repr(x).encode()) & 0x7fffffff)
    elif isinstance(x, float):
        out["near"].append(int(round(x * 1e4)) if abs(x) < 2e5 else M.BAD)
    elif hasattr(x, "nb_conf"):
        encode(flat(x), out)
    else:
        out["exact"].append(zlib.crc32(x.encode() if isinstance(x, str) else type(x).__name__.encode()) & 0x7fffffff)


def answer(kind, x):
    out = {"exact": [], "near": [], "err": ""}
    if kind == "comp":
        c = contents("comp", x)
        encode([c[:6], sorted(float(v) for v in x.eigenstates.eigvals)], out)
    else:
        encode(contents(kind, x), out)
    return out


def show(conf, det):
    if conf.lattice_type == "periodic":
        return [bC.get_displayable_determinant(conf, det), bC.get_displayable_rectangular_lattice(conf, det)]
    return bC.get_displayable_determinant(conf, det)


def around(c):
    n = c.nsites
    return [[sorted(lF.get_neighbors(s, c.bond_matrix)), sorted(lF.get_second_neighbors(s, c.bond_matrix)), sorted(lF.get_neighbors(s, c.bond_matrix, c.sites_restriction)),
             sorted(lF.get_diagonal_second_neighbors(c, s)), [[bC.is_bond_linear(c, b, s, a) for a in lF.get_neighbors(s, c.bond_matrix) for b in lF.get_neighbors(s, c.bond_matrix) if a != b]]]
            for s in range(n)]


def lattice(c):
    n = c.nblocs_side
    return [f(max(1, c.nbh), max(1, c.nbv), n).tolist() for f in (lF.build_rectangular_bond_matrix, lF.build_bond_matrix_neel_outer_lattice,
                                                                lF.build_bond_matrix_neel_embedding, lF.build_bond_matrix_block_embedding)]


def eigenvalues(mat):
    return sorted(float(v) for v in dav.modified_davidson_algorithm(mat, mat.shape[0], None, 8, 1e-9, 0).eigvals)


def run(conf, inter, sel):
    return iC.perform_initial_computations(iC.Data(conf, inter, dav.Diagonalization(conf.nb_conf, 8, 1e-9, 0), sel))


def path(comp):
    b, c = comp.data.bool_interactions, comp.data.configuration
    return file_name(c.nsites, c.nholes, c.nbeta, [t for t, on in zip(M.TERMS, (b.bt, b.bz, b.bij, b.bSD, b.btN, b.bV)) if on])


def store(comp):
    with scratch():
        iC.save_data(comp)
        return iC.load_data(path(comp))


def embedded(comp, f):
    with scratch():
        iC.save_data(comp)
        f(comp.data)
    return 0


def det_of(basis, k):
    return basis.determinants[(7 * k) % len(basis.determinants)]


def mixed(c, d, k):
    """The same state, its sites listed in another order."""
    cuts = [0, c.nholes, c.nholes + c.nbeta, len(d)]
    parts = [d[a:b] for a, b in zip(cuts, cuts[1:])]
    return [s for p in parts for s in (p[::-1] if k == 1 else p[k - 1:] + p[:k - 1])]


CALLS = {
    "basis": (lambda k, c: bC.construct_basis(c), "basis"),
    "vec": (lambda k, c: np.array([[float(sub(c.nb_conf, "vec", k, i).randrange(-3, 4)) + 0.5] for i in range(c.nb_conf)]), "vec"),
    "json": (lambda k, c: M.plain(c.__to_json__()), "plain"),
    "bonds": (lambda k, c: sorted(map(list, lF.build_bond_list(c.bond_matrix, c.sites_restriction))) + [-1] + sorted(map(list, lF.build_bond_list(c.bond_matrix))), "plain"),
    "around": (lambda k, c: around(c), "plain"),
    "lattice": (lambda k, c: lattice(c), "plain"),
    "det": (lambda k, b: det_of(b, k), "det"),
    "mix": (lambda k, c, d: mixed(c, d, k), "det"),
    "index": (lambda k, c, d: bC.get_index_in_basis(c, d), "plain"),
    "spins": (lambda k, c, d: [bC.get_spin_site(c, d, s) for s in range(c.nsites)], "plain"),
    "where": (lambda k, c, d: [sorted(bC.get_indexes_of(c, d, s, k)) for s in (-1, 0, 1)], "plain"),
    "reverse": (lambda k, c, d: bC.reverse_spins(c, d), "plain"),
    "rotate": (lambda k, c, d: bC.rotate_determinant(2 * k, c, d), "det"),
    "reorder": (lambda k, c, d: bC.reorder_basis_element(c, d), "det"),
    "extend": (lambda k, c, d, e: bC.extend_determinant(c, c, d, e), "plain"),
    "show": (lambda k, c, d: show(c, d), "plain"),
    "hop": (lambda k, c, i, d: itr.compute_hopping_integral(c, i, d), "plain"),
    "next": (lambda k, c, i, d: itr.compute_next_hopping_integral(c, i, d), "plain"),
    "static": (lambda k, c, i, d: itr.compute_static_spin_interaction(c, i, d), "plain"),
    "flip": (lambda k, c, i, d: itr.compute_spin_flip(c, i, d), "plain"),
    "singlet": (lambda k, c, i, d: itr.compute_singlet_displacement(c, i, d), "plain"),
    "repel": (lambda k, c, i, d: itr.compute_hole_repulsion(c, i, d), "plain"),
    "energy": (lambda k, c, i, d: itr.compute_energy(c, i, d), "plain"),
    "dynamic": (lambda k, c, i, s, d: itr.compute_dynamic_interactions(c, i, s, d), "plain"),
    "sz": (lambda k, c, v: itr.compute_spin_z(c, v), "plain"),
    "szsz": (lambda k, c, v: itr.compute_spins_z_two_bodies(c, v, k, c.nsites - 1), "vec"),
    "ladder": (lambda k, c, v: itr.compute_S_plus_S_minus(c, v, k, c.nsites - 1 if c.nsites - 1 != k else 0), "vec"),
    "s2": (lambda k, c, v: itr.compute_S2(c, v), "vec"),
    "s2val": (lambda k, c, v: float(itr.compute_S2_exp_val(c, v)), "plain"),
    "number": (lambda k, c, v: itr.compute_spin_number(c, v), "plain"),
    "turn": (lambda k, b, v: M.plain(np.asarray(bC.reverse_spins_vect(b, v))), "plain"),
    "turned": (lambda k, b: contents("basis", bC.reverse_spins_basis(b)), "plain"),
    "density": (lambda k, b, v: [M.plain(bC.get_probability_spin_lattice(b, v, s)) for s in (-1, 0, 1)] + [M.plain(bC.get_spins_probabilitites_lattice(b, v))], "plain"),
    "largest": (lambda k, b, v: M.plain(bC.get_dominant_determinants(b, v, 1 + 2 * k)), "plain"),
    "most": (lambda k, b, v: M.plain(iC.get_most_dominant_determinants(b.determinants, v[:, 0], 1 + k)), "plain"),
    "showtop": (lambda k, b, v: bC.get_displayable_dominant_determinants(b, v, 1 + k), "plain"),
    "showall": (lambda k, b: bC.get_displayable_basis(b), "plain"),
    "ham": (lambda k, b, i, s: hC.build_hamiltonian(configuration=b.configuration, interactions=i, basis=b, bool_interactions=s), "mat"),
    "eig": (lambda k, m: eigenvalues(m), "plain"),
    "lowest": (lambda k, m: [float(v) for v in dav.get_lowests_eig(*np.linalg.eigh(m.toarray()), 3)[0]], "plain"),
    "ortho": (lambda k, a: M.plain(np.abs(dav.perform_modified_gram_schmidt(a))), "plain"),
    "orthos": (lambda k, a: M.plain(np.abs(dav.gramSchmidt(a))), "plain"),
    "run": (lambda k, c, i, s: run(c, i, s), "comp"),
    "store": (lambda k, x: store(x), "comp"),
    "neel": (lambda k, x: embedded(x, lambda d: emb.embedding_neel(d, 1e-3, 2, 2 + k * (d.configuration.nb_conf + 1))), "plain"),
    "blocks": (lambda k, x: embedded(x, lambda d: emb.embedding_blocks(d, 1e-3, 3)), "plain")}


def garble(x):
    """Overwrites what it can of a result."""
    if isinstance(x, list):
        for v in x:
            garble(v)
        x.reverse()
        x.append(99)
    elif isinstance(x, dict):
        for v in x.values():
            garble(v)
        x.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
        x[...] = 77.5
    elif hasattr(x, "toarray"):
        x.data[...] = 55.5
    elif hasattr(x, "eigenstates"):
        for v in (x.determinants, x.hamiltonian, x.eigenstates.eigvects, x.eigenstates.spins):
            garble(v)
    elif hasattr(x, "determinants"):
        garble(x.determinants)


SOURCES = ("conf", "inter", "sel", "block")


def session(world, steps):
    """Makes the calls of a session; returns what was recorded at each."""
    obj, kinds, seen, out = [], [], [], []
    with scratch():
        for s in steps:
            args = [obj[a - 1] for a in s["a"]]
            np.random.seed(17)
            rec = {"op": s["op"], "k": s["k"], "a": s["a"], "got": {"exact": [], "near": [], "err": ""}, "changed": []}
            if s["op"] == "spoil":
                attempt(garble, args[0])
                now = [digest(k, x) for k, x in zip(kinds, obj)]
                rec["changed"] = [i + 1 for i, (a, b) in enumerate(zip(seen, now)) if a != b]
                seen = now
                out.append(rec)
                continue
            if s["op"] in SOURCES:
                kind = s["op"]
                val, err = attempt(make, world, s["op"], s["k"])
            else:
                f, kind = CALLS[s["op"]]
                raw, err = attempt(f, s["k"], *args)
                val = raw
            now = [digest(k, x) for k, x in zip(kinds, obj)]
            rec["changed"] = [i + 1 for i, (a, b) in enumerate(zip(seen, now)) if a != b]
            got, err2 = (rec["got"], "") if err else attempt(answer, kind, val)
            rec["got"] = got or rec["got"]
            rec["got"]["err"] = (err or err2).split(":")[0]
            obj.append(val)
            kinds.append(kind if not err else "failed")
            seen = now + [digest(kinds[-1], val)]
            out.append(rec)
    return out


def alone(f, *args):
    """The answer of a new process: forked from one that has made no calculation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f(*args))
            with os.fdopen(w, "wb") as o:
                o.write(data)
            code = 0
        except JobTimeout:
            pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the session did not end")
    return pickle.loads(data)


def term(steps, i):
    """The calls that object i (from 1) is made by, as a session of their own, and its term."""
    objs, live = [], []
    for s in steps:
        if s["op"] != "spoil":
            objs.append(s)
    need, order = {}, []

    def visit(j):
        s = objs[j - 1]
        t = "%s%d" % (s["op"], s["k"]) + ("" if s["op"] in SOURCES else "(%s)" % ",".join(visit(a) for a in s["a"]))
        if j not in need:
            order.append({"op": s["op"], "k": s["k"], "a": [need[a] for a in s["a"]]})
            need[j] = len(order)
        return t
    return visit(i), order


def several(world, sessions):
    return [alone(session, world, s) for s in sessions]


def lasts(world, sessions):
    return [alone(session, world, s)[-1]["got"] for s in sessions]


def batches(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def c31(c):
    r = rng("C31")
    worlds = [World(r.randrange(10 ** 6)) for _ in range(pick(8, 30))]
    hists = [(0, h) for h in c.generate("HistoryGen", {"DEPTH": "12", "WIDE": "no"})]
    depth = pick(36, 60)
    for h in c.generate("HistoryGen", {"DEPTH": str(depth), "WIDE": "yes"}, count=pick(130, 900), depth=depth + 4, seed=r.randrange(10 ** 6)):
        hists.append((r.randrange(1, len(worlds)), h))
    terms = {}
    for w, h in hists:
        for i in range(sum(s["op"] != "spoil" for s in h)):
            t, s = term(h, i + 1)
            terms.setdefault((w, t), s)
    keys = sorted(terms)
    groups = [g for w in range(len(worlds)) for g in batches([k for k in keys if k[0] == w], 12)]
    got = c.record([(lasts, (worlds[g[0][0]], [terms[k] for k in g])) for g in groups], limit=200)
    table = {}
    if len(got) < len(groups):
        return
    for g, vals in zip(groups, got):
        for (w, t), v in zip(g, vals):
            table["%d/%s" % (w, t)] = v
    jobs = []
    for w in range(len(worlds)):
        jobs += [(several, (worlds[w], g)) for g in batches([h for v, h in hists if v == w], 6)]
    order = [h for w in range(len(worlds)) for h in [(w, x) for v, x in hists if v == w]]
    recs = [s for g in c.record(jobs, limit=200) for s in g]
    scns = [{"id": "s%d" % i, "world": str(w), "steps": steps} for i, ((w, _), steps) in enumerate(zip(order, recs))]
    alone_file = os.path.join(c.scratch, "alone.json")
    with open(alone_file, "w") as f:
        json.dump(table, f)
    c.tlc("HistoryTrace", scns, env={"ALONE": alone_file}, expect_states=sum(1 + len(s["steps"]) for s in scns))
    c.extra["calls"] = sum(len(s["steps"]) for s in scns)
    for op in CALLS:
        steps = [x for s in scns for x in s["steps"] if x["op"] == op]
        c.extra["answered_" + op] = "%d of %d" % (sum(not x["got"]["err"] for x in steps), len(steps))
    c.extra["fresh_sessions"] = len(table)
    c.sample([{k: x[k] for k in ("op", "k", "a")} for x in scns[-1]["steps"]])
