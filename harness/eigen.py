"""Recorders and checks of the diagonalizer: C17, C18."""
import random
from fractions import Fraction

import numpy as np
import scipy.sparse as sp

from core import attempt, pick, quick, rng
import model as M
import davidson as dav


def units(x, f=1e6):
    out = []
    for v in np.asarray(x, dtype=float).reshape(-1).tolist():
        out.append(int(round(v * f)) if np.isfinite(v) and abs(v * f) < 2e9 else M.BAD)
    return out


# -- selection --------------------------------------------------------------------------------
def select_scenario(sid, seed):
    r = random.Random(seed)
    m = r.randint(1, 12)
    distinct = r.choice([1, 2, 3, m + 3])
    vals = [r.randint(-distinct, distinct) for _ in range(m)]
    if r.random() < 0.15:
        vals.sort()
    nb = r.randint(0, m + 2)
    rows = r.randint(1, 4)
    scale = r.choice([1, 0.5, 0.1, 1e-3])
    vects = np.array([[(j + 1) * (10 ** i) for j in range(m)] for i in range(rows)], dtype=float)
    # Values may differ by little: the value of label v is proportional to it, or differs from its neighbors by 1e-12.
    value = (lambda v: v * scale) if r.random() < 0.6 else (lambda v: (3 + v * 1e-12) * scale)
    names = {value(v): v for v in vals}
    arg = [value(v) for v in vals]
    if r.random() < 0.6:
        arg = np.array(arg)
    if r.random() < 0.2:
        vects = vects.astype(int)
    keep_v, keep_x = np.array(arg).copy(), vects.copy()
    x = {"id": sid, "kind": "select", "vals": vals, "nb": nb, "err": "", "out": []}

    def f():
        ev, vv = dav.get_lowests_eig(arg, vects, nb)
        vv = np.asarray(vv)
        if vv.shape != (rows, len(ev)):
            raise RuntimeError("%d values but vectors of shape %r" % (len(ev), vv.shape))
        for j in range(len(ev)):
            label = int(round(vv[0, j]))
            if not np.array_equal(vv[:, j], np.array([label * 10 ** i for i in range(rows)], dtype=float)):
                label = 0
            x["out"].append([names.get(float(ev[j]), M.BAD), label])
        if not (np.array_equal(np.array(arg), keep_v) and np.array_equal(vects, keep_x)):
            raise RuntimeError("the input was changed")
    _, x["err"] = attempt(f)
    return x


# -- orthonormalization -----------------------------------------------------------------------
def complement(cols, n):
    """Integer vectors spanning the orthogonal complement, in echelon form; None when cols are dependent."""
    a = [[Fraction(x) for x in c] for c in cols]
    piv = []
    r = 0
    for j in range(n):
        p = next((i for i in range(r, len(a)) if a[i][j] != 0), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        a[r] = [x / a[r][j] for x in a[r]]
        for i in range(len(a)):
            if i != r and a[i][j] != 0:
                a[i] = [x - a[i][j] * y for x, y in zip(a[i], a[r])]
        piv.append(j)
        r += 1
        if r == len(a):
            break
    if r < len(cols):
        return None
    out = []
    for f in [j for j in range(n) if j not in piv]:
        w = [Fraction(0)] * n
        w[f] = Fraction(1)
        for i, p in enumerate(piv):
            w[p] = -a[i][f]
        den = 1
        for x in w:
            den = den * x.denominator // np.gcd(den, x.denominator)
        out.append([int(x * int(den)) for x in w])
    return out


def ortho_scenario(sid, which, seed):
    r = random.Random(seed)
    wide = r.random() < 0.12
    while True:
        n = r.randint(1, 6)
        m = r.randint(1, n)
        top = r.choice([1, 3, 9])
        v = [[r.randint(-top, top) for _ in range(n)] for _ in range(m)]
        if wide:               # long columns, few of them
            n, m = r.randint(7, 24), r.randint(1, 7)
            v = [[r.choice([0, 0, 0, 1, -1, r.randint(-top, top)]) for _ in range(n)] for _ in range(m)]
        if r.random() < 0.3 and m > 1:        # nearly parallel to an earlier one
            i = r.randrange(1, m)
            v[i] = list(v[r.randrange(i)])
            v[i][r.randrange(n)] += 1
        w = complement(v, n)
        if w is not None and all(abs(x) < 2000 for u in w for x in u):
            break
    fn = {"gs": dav.gramSchmidt, "mgs": dav.perform_modified_gram_schmidt}[which]
    scale = r.choice([1.0, 1.0, 1e-3, 250.0])
    arr = np.array(v, dtype=float).T * scale
    if scale == 1.0 and r.random() < 0.4:
        arr = np.array(v, dtype=int).T
    elif r.random() < 0.3:     # columns of very different sizes
        arr = arr * np.array([r.choice([1.0, 1e-5, 1e-9, 1e7]) for _ in range(m)])
    keep = arr.copy()
    x = {"id": sid, "kind": "ortho", "which": which, "v": v, "w": w, "dim": n, "err": "", "q": []}

    def f():
        q = np.asarray(fn(arr))
        if q.shape != (n, m):
            raise RuntimeError("shape %r for columns of shape %r" % (q.shape, (n, m)))
        if not np.array_equal(arr, keep):
            raise RuntimeError("the input was changed")
        x["q"] = [units(q[:, j]) for j in range(m)]
    _, x["err"] = attempt(f)
    return x


def c18(c):
    r = rng("C18")
    jobs = [(select_scenario, ("l%d" % i, r.random())) for i in range(pick(1500, 12000))]
    for i in range(pick(1200, 8000)):
        jobs.append((ortho_scenario, ("o%d" % i, "gs" if i % 2 else "mgs", r.random())))
    scns = c.record(jobs, limit=60)
    c.tlc("Eigen", scns, expect_states=states(scns))
    c.sample(scns[0])
    c.sample(scns[-1])


def states(scns):
    return sum(1 + (0 if s["err"] else len(s["out"] if s["kind"] == "select" else s["q"] if s["kind"] == "ortho" else s["val"])) for s in scns)


# -- eigenpairs -------------------------------------------------------------------------------
def spectral_matrix(r, n):
    """A symmetric matrix with couplings, its integer spectrum and integer eigenvectors.

    q = product of reflections I - 2 v v^T / |v|^2 with |v|^2 a power of two; returns (a * sc, sc, d, q * nq, nq)."""
    spread = r.choice([1, 2, 4, 12, 30])
    d = sorted(r.randint(-spread, spread) for _ in range(n))
    q = np.eye(n, dtype=int)
    nq = 1
    for _ in range(12):
        size = 2 if n < 4 else 4 if n < 16 or r.random() < 0.8 else 16
        if size == 4 and r.random() < 0.15:
            size = 2
        v = np.zeros(n, dtype=int)
        for s in r.sample(range(n), min(n, size)):
            v[s] = r.choice([-1, 1])
        if len(np.flatnonzero(v)) < size:
            break
        if nq >= 8:
            break
        # (I - 2 v v^T / size) q, over the common denominator nq * size / 2
        q = q * (size // 2) - np.outer(v, v @ q)
        nq *= size // 2
        g = np.gcd.reduce(q.reshape(-1))
        g = int(np.gcd(g, nq))
        q, nq = q // g, nq // g
    perm = r.sample(range(n), n)
    q = q[perm]
    sc = nq * nq
    if r.random() < 0.15 and sc * min(2, max(map(abs, d))) <= 130:      # an integer matrix
        d = sorted(sc * max(-2, min(2, v)) for v in d) if sc * max(map(abs, d)) > 130 else [sc * v for v in d]
        return q @ np.diag(d) @ q.T // sc, 1, d, q, nq
    return q @ np.diag(d) @ q.T, sc, d, q, nq


def connected(a):
    """Every state has a coupling with another."""
    off = a - np.diag(np.diag(a))
    return bool(np.all(np.any(off != 0, axis=1)))


def pairs_scenario(sid, nmax, seed):
    r = random.Random(seed)
    np.random.seed(r.randrange(2 ** 31))
    while True:
        n = r.randint(2, nmax)
        a, sc, d, q, nq = spectral_matrix(r, n)
        if connected(a):
            break
    nb = r.choice([1, 1, 2, 3, 4, r.randint(1, n), n, n + 2])
    tol = r.choice([1e-3, 1e-4, 1e-6, 1e-8])
    x = {"id": sid, "kind": "pairs", "dim": n, "a": a.tolist(), "sc": sc, "d": d, "q": [q[:, i].tolist() for i in range(n)], "nq": nq,
         "nb": nb, "tol6": int(round(tol * 1e6)), "lowest": True, "err": "", "val": [], "vec": [], "res": [], "tries": []}
    mat = sp.csr_matrix(a / sc)
    if sc == 1 and r.random() < 0.5:        # integer coefficients
        mat = sp.csr_matrix(a)
    keep = mat.copy()
    guess = None
    if r.random() < 0.25:
        size = min(n, nb + r.choice([0, 0, 0, 1, 3]))      # at least as many vectors as states
        guess = np.array([[r.randint(-3, 3) + r.choice([0, 0.5, r.random()]) for _ in range(size)] for _ in range(n)], dtype=float)
        guess *= r.choice([1, 10.0, 1e-2])
        if r.random() < 0.3:
            guess = np.rint(guess).astype(int)
        if np.linalg.matrix_rank(guess) < size:
            guess = None
    if guess is not None:
        x["lowest"] = False
    dmax = r.choice([0, 0, n, n + 7])
    kw = r.random() < 0.5
    x["call"] = {"nb_val": nb, "tol": tol, "dim_max": dmax, "guess": guess is not None, "keywords": kw}

    def f():
        if x["lowest"]:
            x["tries"] = [units(dav.modified_davidson_algorithm(mat, nb, None, 2000, tol, dmax).eigvals) for _ in range(2)]
        if kw:
            es = dav.modified_davidson_algorithm(A=mat, nb_val=nb, initial_guess=guess, stp=2000, tol=tol, dim_max=dmax, verbose=False)
        else:
            es = dav.modified_davidson_algorithm(mat, nb, guess, 2000, tol, dmax, False)
        vals = [float(v) for v in es.eigvals]
        vecs = np.asarray(es.eigvects, dtype=float)
        if vecs.shape != (n, len(vals)):
            raise RuntimeError("%d values but vectors of shape %r" % (len(vals), vecs.shape))
        if (mat != keep).nnz or mat.shape != keep.shape:
            raise RuntimeError("the matrix was changed")
        dense = a / sc
        for j, v in enumerate(vals):
            res = float(np.linalg.norm(dense @ vecs[:, j] - v * vecs[:, j]))
            x["res"].append(min(2000000000, int(round(1000 * max(0.0, res - 1e-12) / tol))) if np.isfinite(res) else 2000000000)
            x["vec"].append(units(vecs[:, j]))
        x["val"] = units(vals)
    _, x["err"] = attempt(f)
    if x["err"]:
        x["val"] = []
    return x


def large_scenario(sid, nmax, seed):
    """Many small matrices scattered over a large one: the spectrum of a large matrix, with its certificate."""
    r = random.Random(seed)
    np.random.seed(r.randrange(2 ** 31))
    sizes = [r.randint(4, 8) for _ in range(r.randint(8, nmax // 6))]
    n = sum(sizes)
    left, blocks = r.sample(range(n), n), []
    for size in sizes:
        while True:
            a, sc, d, q, nq = spectral_matrix(r, size)
            if connected(a):
                break
        blocks.append({"idx": [i + 1 for i in left[:size]], "a": a.tolist(), "sc": sc, "d": d, "q": [q[:, i].tolist() for i in range(size)], "nq": nq})
        left = left[size:]
    d = sorted(v for b in blocks for v in b["d"])
    nb = r.choice([1, 2, 3, 5, 8, 12])
    tol = r.choice([1e-3, 1e-4, 1e-6, 1e-8])
    x = {"id": sid, "kind": "large", "dim": n, "blocks": blocks, "d": d, "nb": nb, "tol6": int(round(tol * 1e6)), "err": "", "val": [], "vec": [], "res": [], "tries": []}
    dense = np.zeros((n, n))
    for b in blocks:
        i = np.array(b["idx"]) - 1
        dense[np.ix_(i, i)] = np.array(b["a"]) / b["sc"]
    mat = sp.csr_matrix(dense)
    x["call"] = {"nb_val": nb, "tol": tol}

    def f():
        x["tries"] = [units(dav.modified_davidson_algorithm(mat, nb, None, 3000, tol, 0).eigvals) for _ in range(2)]
        es = dav.modified_davidson_algorithm(mat, nb, None, 3000, tol, r.choice([0, n]))
        vals = [float(v) for v in es.eigvals]
        vecs = np.asarray(es.eigvects, dtype=float)
        if vecs.shape != (n, len(vals)):
            raise RuntimeError("%d values but vectors of shape %r" % (len(vals), vecs.shape))
        for j, v in enumerate(vals):
            res = float(np.linalg.norm(dense @ vecs[:, j] - v * vecs[:, j]))
            x["res"].append(min(2000000000, int(round(1000 * max(0.0, res - 1e-11) / tol))) if np.isfinite(res) else 2000000000)
            x["vec"].append(units(vecs[:, j]))
        x["val"] = units(vals)
    _, x["err"] = attempt(f)
    if x["err"]:
        x["val"] = []
    return x


def c17(c):
    r = rng("C17")
    jobs = [(pairs_scenario, ("d%d" % i, 8 if i % 3 == 0 else pick(14, 30), r.random())) for i in range(pick(800, 6000))]
    jobs += [(large_scenario, ("g%d" % i, pick(300, 500), r.random())) for i in range(pick(150, 600))]
    scns = c.record(jobs, limit=120)
    c.tlc("Eigen", scns, expect_states=states(scns))
    c.sample({k: v for k, v in scns[0].items()})
    c.extra["largest_matrix"] = max(s["dim"] for s in scns)
    c.extra["degenerate_spectra"] = sum(len(set(s["d"])) < s["dim"] for s in scns)
    c.extra["from_guesses"] = sum(not s.get("lowest", True) for s in scns)


# -- interrupted and confined diagonalizations -------------------------------------------------
def ritz_scenario(sid, nmax, seed):
    """Answers for increasing numbers of steps, from the same start, in a search space that may be confined."""
    r = random.Random(seed)
    loose = r.random() < 0.3
    while True:
        n = r.randint(2, nmax)
        a, sc, d, q, nq = spectral_matrix(r, n)
        if loose or connected(a):
            break
    if loose and r.random() < 0.3:          # states without couplings
        a, q, nq, sc = np.diag(d), np.eye(n, dtype=int), 1, 1
    nb = r.choice([1, 1, 2, 3, 4, r.randint(1, n), n, n + 2])
    dmax = r.choice([0, 0, n, n + 3] + 4 * [r.randint(1, n)])
    size = min(nb, dmax or n, n)
    tol = r.choice([1e-2, 1e-3, 1e-5, 1e-8])
    steps = sorted({1, 2, 3} | {r.randint(1, 12) for _ in range(4)} | {r.randint(12, 80), 300})
    start = r.randrange(2 ** 31)
    guess = None
    if r.random() < 0.5:
        wide = min(n, size + r.choice([0, 0, 0, 1, 3]))
        guess = np.random.RandomState(start).randint(-3, 4, (n, wide)) * r.choice([1.0, 10.0, 0.3])
        if np.linalg.matrix_rank(guess) < wide:
            guess = None
    x = {"id": sid, "dim": n, "a": a.tolist(), "sc": sc, "d": d, "q": [q[:, i].tolist() for i in range(n)], "nq": nq, "nb": nb, "dmax": dmax, "err": "", "runs": [],
         "call": {"tol": tol, "guess": guess is not None, "start": start}}
    dense = a / sc
    mat = sp.csr_matrix(a if sc == 1 and r.random() < 0.5 else dense)

    def f():
        for stp in steps:
            np.random.seed(start)
            es = dav.modified_davidson_algorithm(mat, nb, None if guess is None else guess.copy(), stp, tol, dmax)
            vals = [float(v) for v in es.eigvals]
            vecs = np.asarray(es.eigvects, dtype=float)
            if vecs.shape != (n, len(vals)):
                raise RuntimeError("%d values but vectors of shape %r" % (len(vals), vecs.shape))
            ray = vecs.T @ dense @ vecs
            res = [float(np.linalg.norm(dense @ vecs[:, j] - v * vecs[:, j])) for j, v in enumerate(vals)]
            x["runs"].append({"stp": stp, "val": units(vals), "vec": [units(vecs[:, j]) for j in range(len(vals))], "ray": [units(row) for row in ray],
                              "res": [min(2000000000, int(round(1000 * v / tol))) if np.isfinite(v) else 2000000000 for v in res]})
    _, x["err"] = attempt(f)
    return x


def c33(c):
    r = rng("C33")
    scns = c.record([(ritz_scenario, ("r%d" % i, 8 if i % 3 else pick(14, 24), r.random())) for i in range(pick(500, 4000))], limit=120)
    c.tlc("Ritz", scns, expect_states=sum(1 + (0 if s["err"] else len(s["runs"])) for s in scns))
    c.sample(scns[0])
    c.extra["confined"] = sum(0 < s["dmax"] < s["dim"] for s in scns)
    c.extra["runs"] = sum(len(s["runs"]) for s in scns)
    c.extra["from_guesses"] = sum(s["call"]["guess"] for s in scns)


# -- what is left beside vectors that are already found -----------------------------------------
def frame(r, n):
    """Integer orthogonal columns of one norm: (q, norm), q^T q = norm^2."""
    q, nq = np.eye(n, dtype=int), 1
    for _ in range(r.randint(0, 3)):
        size = r.choice([s for s in (1, 2, 4) if s <= n])
        v = np.zeros(n, dtype=int)
        for i in r.sample(range(n), size):
            v[i] = r.choice([-1, 1])
        if nq * size > 8:
            break
        q, nq = q * size - 2 * np.outer(v, v @ q), nq * size
        g = int(np.gcd.reduce(np.append(q.reshape(-1), nq)))
        q, nq = q // g, nq // g
    return q[:, r.sample(range(n), n)], nq


def project_scenario(sid, seed):
    r = random.Random(seed)
    n = r.randint(1, 8)
    m = r.randint(0, n)
    q, nq = frame(r, n)
    # In the frame: anything on and between the vectors set aside, and chosen values on the others.
    b = np.array([[r.randint(-3, 3) for _ in range(n)] for _ in range(n)])
    b = b + b.T
    d = sorted(r.randint(-4, 4) for _ in range(n - m))
    b[m:, m:] = np.diag(d).astype(int) if n > m else b[m:, m:]
    a = q @ b @ q.T                                # times nq^2
    f, w = q[:, :m], q[:, m:]
    x = {"id": sid, "kind": "project", "dim": n, "a": a.tolist(), "f": f.T.tolist(), "w": w.T.tolist(), "d": [v * nq ** 2 for v in d], "err": "", "m": [], "val": []}
    mat, found = a.astype(float), f / nq
    if r.random() < 0.3:
        found = found * np.array([r.choice([-1, 1]) for _ in range(m)]).reshape(1, -1)
    if r.random() < 0.3:                           # the same space by other vectors
        for i in range(m - 1):
            c, s_ = r.choice([(0.6, 0.8), (0.8, -0.6), (5 / 13, 12 / 13)])
            found[:, [i, i + 1]] = found[:, [i, i + 1]] @ np.array([[c, s_], [-s_, c]])
    keep = mat.copy(), found.copy()

    def g():
        out = np.asarray(dav.perform_matrix_orthogonal_projection(mat, found))
        if not (np.array_equal(keep[0], mat) and np.array_equal(keep[1], found)):
            raise RuntimeError("the input was changed")
        if out.shape != (n - m, n - m):
            raise RuntimeError("shape %r for %d of %d" % (out.shape, m, n))
        x["m"] = [units(row) for row in out]
        x["val"] = units(np.linalg.eigvalsh((out + out.T) / 2)) if n > m else []
    _, x["err"] = attempt(g)
    return x


def dependence(cols, v):
    """Integers c0, c with c0 v = sum c_i cols_i, or None when v is independent of cols (which are independent)."""
    n, k = len(v), len(cols)
    a = [[Fraction(cols[j][i]) for j in range(k)] + [Fraction(v[i])] for i in range(n)]
    row = 0
    for j in range(k):
        p = next(i for i in range(row, n) if a[i][j] != 0)
        a[row], a[p] = a[p], a[row]
        a[row] = [t / a[row][j] for t in a[row]]
        for i in range(n):
            if i != row and a[i][j] != 0:
                a[i] = [s - a[i][j] * t for s, t in zip(a[i], a[row])]
        row += 1
    if any(a[i][k] != 0 for i in range(row, n)):
        return None
    c0 = 1
    for i in range(k):
        c0 = c0 * a[i][k].denominator // int(np.gcd(c0, a[i][k].denominator))
    return c0, [int(a[i][k] * c0) for i in range(k)]


def correct_scenario(sid, seed):
    r = random.Random(seed)
    while True:
        n = r.randint(1, 8)
        m = r.randint(1, n)
        count = r.randint(1, 4)
        q, nq = frame(r, n)
        nu = r.choice([count, count, r.randint(1, count)])
        droptol = r.choice([1e-6, 1e-5, 1e-4])
        scale = r.choice([1.0, 1.0, 0.01, 250.0])
        x, arr, acc, dep = [], [], [], []
        for j in range(count):
            col = [r.randint(-3, 3) for _ in range(n)]
            how = r.random()
            if how < 0.2:                          # inside the search space
                col[m:] = [0] * (n - m)
            elif how < 0.35 and x:                 # a combination of earlier ones and of the search space
                u, v = r.choice(x), r.choice(x)
                col = [r.choice([-1, 1]) * a + b for a, b in zip(u, v)]
                col[:m] = [r.randint(-3, 3) for _ in range(m)]
            arr.append(np.array(col) * scale)
            if how > 0.93:                         # too small to mean anything
                arr[-1], col = np.array(col) * 1e-9, [0] * n
            x.append(col)
        low = [c[m:] for c in x]
        for j in range(nu):
            got = dependence([low[i] for i in acc], low[j])
            if got is None:
                acc.append(j)
            else:
                dep.append({"j": j + 1, "c0": got[0], "c": got[1]})
        w = complement([low[i] for i in acc], n - m) if acc else np.eye(n - m, dtype=int).tolist()
        size = [abs(t) for u in w for t in u] + [abs(t) for e in dep for t in [e["c0"]] + e["c"]]
        rest = 1.0
        if acc:                                    # what each adds must be well above the tolerance
            rest = min(abs(np.diag(np.linalg.qr(np.array([low[i] for i in acc], dtype=float).T)[1]))) * scale
        if all(t < 2000 for t in size) and rest > 20 * droptol and rest > 1e-3 * scale:
            break
    f = q / nq
    arr = f @ np.array(arr).T
    krylov = f[:, :m].copy()
    out = {"id": sid, "kind": "correct", "dim": n, "m": m, "nu": nu, "x": x, "dep": dep, "w": [list(map(int, u)) for u in w], "q": [], "err": ""}

    def g():
        got = np.asarray(dav.get_meaningful_corrections(krylov, arr.copy(), droptol, 0.1, nu, n))
        if got.ndim != 2 or got.shape[0] != n:
            raise RuntimeError("shape %r" % (got.shape,))
        if not np.array_equal(krylov, f[:, :m]):
            raise RuntimeError("the search space was changed")
        out["q"] = [units(f.T @ got[:, j]) for j in range(got.shape[1])]
    _, out["err"] = attempt(g)
    return out


def c35(c):
    r = rng("C35")
    jobs = [(project_scenario, ("p%d" % i, r.random())) for i in range(pick(700, 6000))]
    jobs += [(correct_scenario, ("c%d" % i, r.random())) for i in range(pick(900, 8000))]
    scns = c.record(jobs, limit=60)
    c.tlc("Deflate", scns, expect_states=sum(1 + (0 if s["err"] else len(s["d"]) if s["kind"] == "project" else s["nu"]) for s in scns))
    c.sample(scns[0])
    c.sample(scns[-1])
