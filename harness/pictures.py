"""Recorder and check of the pictures: C30.

The drawing code runs on real matplotlib.  When a picture is saved, what the figure contains is read from its lines,
bars, meshes and marks; most pictures are then written as an empty file, which is enough for missing directories to show.
"""
import os
import random
import re

import numpy as np

from core import attempt, pick, quick, rng
import model as M
from model import bC, hC, iC, itr
from states import RECTS, content
import davidson as dav

UNIT = 0.5e-4            # of the coefficients, which are odd multiples of it


def whole(x, unit=1.0):
    q = round(float(x) / unit)
    return int(q) if abs(float(x) / unit - q) < 1e-3 and abs(q) < 2 ** 30 else M.BAD


def number(text):
    m = re.match(r"\s*(-?\d+)", text)
    return int(m.group(1)) if m else M.BAD


def read_map(ax, w, h):
    mesh = [x for x in ax.collections if hasattr(x, "get_coordinates")][-1]
    corners, values = np.asarray(mesh.get_coordinates()), np.asarray(mesh.get_array(), dtype=float)
    values = values.reshape(corners.shape[0] - 1, corners.shape[1] - 1)
    cx = (corners[0, :-1, 0] + corners[0, 1:, 0]) / 2
    cy = (corners[:-1, 0, 1] + corners[1:, 0, 1]) / 2

    def at(x, y):
        i, j = int(np.argmin(abs(cx - x))), int(np.argmin(abs(cy - y)))
        return int(round(1000 * values[j, i])) if abs(cx[i] - x) < 0.02 and abs(cy[j] - y) < 0.02 else M.BAD // 1000
    marks = [m for x in ax.collections if not hasattr(x, "get_coordinates") for m in np.asarray(x.get_offsets()).tolist()]
    if ax.yaxis_inverted() or ax.xaxis_inverted():
        raise RuntimeError("inverted axis")
    return {"v": [[at(x, y) for x in range(w)] for y in range(h)], "marks": [[whole(a), whole(b)] for a, b in marks], "number": number(ax.get_title())}


def read(fig, path, w, h):
    """What a figure that is saved under a path shows."""
    parts = os.path.normpath(path).split(os.sep)
    name, ext = os.path.splitext(parts[-1])
    m = re.match(r"(tJ-H\d+)", name)
    p = {"what": "other", "state": 0, "name": m.group(1) if m else name, "ext": ext, "path": path}
    folder = parts[-2] if len(parts) > 1 else ""
    axes = [a for a in fig.axes if a.get_label() != "<colorbar>" and (a.lines or a.collections or a.containers)]
    if folder == "Spectrum":
        p["what"] = "spectrum"
        p["segments"] = []
        lines = [(line.get_xdata(), line.get_ydata()) for line in axes[0].lines] if axes else []
        lines += [np.asarray(seg).T for coll in (axes[0].collections if axes else []) if hasattr(coll, "get_segments") for seg in coll.get_segments()]
        for x, y in lines:
            p["segments"].append([whole(min(x), 0.001), whole(max(x), 0.001), whole(min(y), 0.125), whole(max(y), 0.125)])
    elif folder == "HolePresenceProbability":
        p["what"] = "holes"
        p["panels"] = [read_map(a, w, h) for a in axes]
    elif folder == "GroundState" or re.match(r"Excited\d+$", folder):
        p["what"] = "electrons"
        p["state"] = 0 if folder == "GroundState" else int(folder[7:])
        p["panels"] = [read_map(a, w, h) for a in axes]
        p["number"] = number(fig.get_suptitle())
    elif folder == "DeterminantsAmplitude":
        p["what"] = "amplitude"
        p["panels"] = [{"number": number(a.get_title()),
                        "points": [[whole(x, 2 * UNIT), whole(y)] for x, y in zip(a.lines[0].get_xdata(), a.lines[0].get_ydata())]} for a in axes]
    elif folder == "AmplitudesStaticEmbeddingNeel":
        p["what"] = "effect"
        for key in ("cluster", "embedding"):
            bars = [c for c in axes[0].containers if c.get_label() == key]
            p[key] = [whole(r.get_height(), UNIT * UNIT) for c in bars for r in sorted(c, key=lambda r: r.get_x())]
    return p


def drawn(fn, *args, size, render=False):
    """The pictures that a call saves: the last one saved under each name (a .pdf beside a .png is the same picture)."""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    saved = {}
    real = Figure.savefig

    def savefig(self, fname, **kw):
        if render:
            real(self, fname, **kw)
        else:
            open(fname, "wb").close()
        saved[os.path.normpath(str(fname))] = read(self, str(fname), *size)
    Figure.savefig = savefig
    try:
        fn(*args)
    finally:
        Figure.savefig = real
        plt.close("all")
    for path in [p for p in saved if p.endswith(".pdf") and p[:-4] + ".png" in saved]:
        del saved[path]
    return list(saved.values())


FOLDERS = ["Spectrum", "HolePresenceProbability", "SpinDistribution", "DeterminantsAmplitude", "AmplitudesStaticEmbeddingNeel"]


def computation(r, lat, nh, nb, inter, flags):
    """A computation as it would be saved, with chosen eigenvalues and eigenvectors; and the integers behind them."""
    n = M.nsites(*lat)
    d = M.dim(n, nh, nb)
    conf = M.configuration(*lat, nh, nb)
    basis = bC.construct_basis(conf)
    nst = min(d, r.choice([1, 2, 3, 4, 5, 7]))
    vals = sorted(r.choice([r.randint(-40, 40), r.randint(-3, 3)]) for _ in range(nst))

    def vector():
        big = r.choice([1, 5, 49])
        return [r.choice([-1, 1]) * (2 * r.randint(0, big) + 1) for _ in range(d)]
    vecs, emb = [vector() for _ in range(nst)], vector()

    def saved(vs, vl):
        es = dav.Eigenstates([v / 8 for v in vl], [], np.array(vs, dtype=float).T * UNIT)
        data = iC.Data(conf, inter, dav.Diagonalization(nst, 100, 1e-6, 0), flags)
        return iC.DataComputations(data, basis.determinants, hC.build_hamiltonian(conf, inter, basis, M.booleans([])), es, iC.Times(0.0, 0.0, 0.0))
    return vals, vecs, emb, saved(vecs, vals), saved([emb], vals[:1])


def picture_scenarios(sid, lat, nh, nb, sweep, render, seed):
    import postProcessing as pP
    import embedding as E
    r = random.Random(seed)
    n = M.nsites(*lat)
    w, h = M.shape(*lat)
    sel = r.choice([list(M.TERMS), ["t", "z", "ij"], r.sample(M.TERMS, 3)])
    flags = M.booleans(sel)
    inter = M.interactions({k: 1 for _, k in M.PRM}, 1)
    neel, static, dyn = r.choice([(False, False, False), (True, False, False), (False, True, False), (True, True, False), (False, False, True), (True, False, True)])
    neigh = r.random() < 0.4
    ask = {"spectrum": r.random() < 0.7, "holes": r.random() < 0.75, "electrons": r.random() < 0.75, "amplitude": r.random() < 0.7,
           "neel": neel, "static": static or dyn, "nex": r.choice([0, 1, 2, 3, 8]), "nplot": r.choice([1, 2, 3, 4, 4, 5, 8, 9, 12])}
    contents = [(nh, n - nh - na) for na in range(n - nh + 1)] if sweep else [(nh, nb)]
    out = []

    def prepare():
        for sub in ("initialComputations",):
            os.makedirs(sub, exist_ok=True)
        for sub in FOLDERS:
            os.makedirs("tJ-HamCsr/tJ-H%d/%s" % (n, sub), exist_ok=True)
        for a, b in contents:
            vals, vecs, emb, dc, de = computation(r, lat, a, b, inter, flags)
            iC.save_data(dc)
            if neel or static or dyn:
                E.save_data_embedding_blocks(de, dyn, neel, neigh)
            out.append({"id": "%s-%d-%d" % (sid, a, b), "w": w, "h": h, "n": n, "nh": a, "nb": b, "vals": vals, "vecs": vecs, "emb": emb, "ask": ask, "pics": [], "err": ""})
    _, err = attempt(prepare)
    if err:
        return [{"id": sid, "w": w, "h": h, "n": n, "nh": nh, "nb": nb, "vals": [], "vecs": [], "emb": [], "ask": ask, "pics": [], "err": err}]
    inp = pP.InputPlotting(ask["nex"], ask["nplot"], ask["spectrum"], ask["holes"], ask["electrons"], ask["amplitude"], neel, static, dyn, neigh)
    data = iC.Data(M.configuration(*lat, nh, nb), inter, dav.Diagonalization(2, 100, 1e-6, 0), flags)
    pics, err = attempt(drawn, pP.generate_plots if sweep else pP.generate_plots_configuration, data, inp, size=(w, h), render=render)
    for s in out:
        s["err"] = err
    names = {"tJ-H%d%d%d" % (n, n - s["nh"] - s["nb"], s["nb"]): s for s in out}
    for p in pics or []:
        names.get(p["name"], out[0])["pics"].append(p)
    return out


def c30(c):
    r = rng("C30")
    jobs = []
    flat = [l for l in RECTS if l[0] * l[2] >= 2 and l[1] * l[2] >= 2 and l[0] * l[1] * l[2] ** 2 <= 9]
    for i in range(pick(100, 500)):
        lat = ("periodic",) + r.choice(flat)
        n = M.nsites(*lat)
        sweep = i % 4 == 0 and n <= 6
        nh, nb = content(r, n, pick(40, 80))
        if sweep:
            nh = r.randint(max(0, n - 4), n)
        jobs.append((picture_scenarios, ("f%d" % i, lat, nh, nb, sweep, i % 9 == 1, r.random())))
    scns = [s for group in c.record(jobs, limit=200) for s in group]
    c.tlc("Picture", scns, expect_states=sum(M.dim(s["n"], s["nh"], s["nb"]) for s in scns))
    c.sample(next({k: s[k] for k in ("id", "w", "h", "nh", "nb", "vals", "vecs", "ask")} | {"first": s["pics"][0]} for s in scns if s["pics"]))
    c.extra["pictures"] = sum(len(s["pics"]) for s in scns)


# -- the spectrum against t/J -----------------------------------------------------------------
class Asked:
    """Stands in for the complete computation: notes what is asked, and answers levels that cross as the ratio changes."""

    def __init__(self, r, nbval, real):
        self.calls, self.real, self.levels, self.exchanges = [], real, {}, {}
        for key in ("plain", "full"):
            levels = []
            while len(levels) < nbval:
                two = r.choice([1, 1, 2])
                lev = (r.randint(-4000000, 4000000), r.choice([0, 1, -1]) * r.randint(1, 6000000), r.randint(-300000, 300000), r.choice([0.5, 1.5]))
                levels += [lev] * two
            self.levels[key] = levels[:nbval]
            # Neighboring levels whose spins are exchanged from some ratio on: the code then exchanges their curves.
            self.exchanges[key] = [(r.uniform(0.3, 10), *r.sample(range(nbval), 2)) for _ in range(r.choice([0, 1, 3]) if nbval > 1 else 0)]

    def energies(self, key, ratio):
        out = sorted((round(a + b / (1 + ratio) + c * ratio), s) for a, b, c, s in self.levels[key])
        spins = [s for _, s in out]
        for x, i, j in self.exchanges[key]:
            if ratio > x:
                spins[i], spins[j] = spins[j], spins[i]
        return [e for e, _ in out], spins

    def __call__(self, data):
        flags, inter = data.bool_interactions, data.interactions
        sel = [t for t, name in zip(M.TERMS, ("bt", "bz", "bij", "bSD", "btN", "bV")) if getattr(flags, name)]
        call = {"sel": sel, "inter": {k: float(getattr(inter, a)) for a, k in M.PRM}, "conf": data.configuration, "diag": data.diagonalization}
        if self.real:
            dc = self.real(data)
            call["e"], call["s"] = [int(round(float(v) * 1e6)) for v in dc.eigenstates.eigvals], list(dc.eigenstates.spins)
        else:
            e, s = self.energies("plain" if len(sel) == 3 else "full", abs(inter.t) / inter.J)
            shift = 3e-7 * (len(self.calls) % 3 - 1)
            call["e"], call["s"] = e, s
            es = dav.Eigenstates([v * 1e-6 + shift for v in e], list(s), np.eye(data.configuration.nb_conf)[:, :len(e)])
            dc = iC.DataComputations(data, bC.construct_basis(data.configuration).determinants, None, es, iC.Times(0.0, 0.0, 0.0))
        self.calls.append(call)
        return dc


def ratio_scenario(sid, lat, nb, real, seed):
    import sys
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    import postProcessing as pP
    r = random.Random(seed)
    n = M.nsites(*lat)
    d = M.dim(n, n - 3, nb)
    nbval = min(d, r.choice([1, 2, 3, 4, 5, 6]))
    if real:
        nbval = 2
    prm = {k: r.choice([-1, 1]) * r.randint(1, 900) for _, k in M.PRM}
    for k in r.sample([k for k in prm if k not in ("t", "J")], r.choice([0, 1, 4])):
        prm[k] = 0
    inter = itr.Interactions(**{a: prm[k] / 250 for a, k in M.PRM})
    keep = dict(vars(inter))
    conf = M.configuration(*lat, n - 3, nb)
    diag = dav.Diagonalization(nbval, 300, 1e-8, 0)
    asked = Asked(r, nbval, real and iC.perform_initial_computations)
    x = {"id": sid, "n": n, "prm": prm, "nbval": nbval, "axis": [], "pics": [], "kept": False, "err": ""}
    shown = {}

    def savefig(self, fname, **kw):
        name = os.path.splitext(os.path.basename(str(fname)))[0]
        open(fname, "wb").close()
        ax = [a for a in self.axes if a.lines][0]
        shown[name] = [{"x": [float(v) for v in l.get_xdata()], "y": [int(round(float(v) * 1e6)) for v in l.get_ydata()],
                        "color": matplotlib.colors.to_hex(l.get_color()), "style": l.get_linestyle()} for l in ax.lines]

    def f():
        os.makedirs("tJ-HamCsr/tJ-H%d" % n, exist_ok=True)
        mods = [m for m in list(sys.modules.values()) if getattr(m, "perform_initial_computations", None) is iC.perform_initial_computations]
        real_save, real_run = Figure.savefig, iC.perform_initial_computations
        for m in mods:
            m.perform_initial_computations = asked
        Figure.savefig = savefig
        try:
            pP.plot_spectrum_dependance(iC.Data(conf, inter, diag, M.booleans(r.sample(M.TERMS, 2))))
        finally:
            Figure.savefig = real_save
            for m in mods:
                m.perform_initial_computations = real_run
            plt.close("all")
        x["kept"] = dict(vars(inter)) == keep
        stem = "tJ-H%d%d%d" % (n, 3 - nb, nb)
        if set(shown) != {stem, stem + "-extended"}:
            raise RuntimeError("pictures named %s" % sorted(shown))
        axis = shown[stem][0]["x"]
        x["axis"] = [int(round(1e6 * v)) for v in axis]
        for what, name, size in (("plain", stem, 3), ("full", stem + "-extended", 6)):
            calls = sorted((c for c in asked.calls if len(c["sel"]) == size), key=lambda c: -c["inter"]["J"])
            if len(calls) < len(axis):
                raise RuntimeError("%d computations with %d terms for %d ratios" % (len(calls), size, len(axis)))
            where = np.array([-c["inter"]["J"] for c in calls])
            p = {"what": what, "asked": [], "answer": [], "terms": calls[0]["sel"], "curves": [],
                 "same": all(c["sel"] == calls[0]["sel"] and c["diag"].nb_val == nbval and c["conf"].nholes == n - 3 and c["conf"].nbeta == nb and
                             np.array_equal(c["conf"].bond_matrix, conf.bond_matrix) for c in calls)}
            for v in axis:
                c = calls[int(np.argmin(abs(where + abs(inter.t) / v)))]
                g, out = c["inter"], {}
                for _, k in M.PRM:
                    z = g[k] * v if k == "J" else g[k] * inter.J / g["J"] if k in ("Jpar", "Jper", "hpar", "hper") else g[k]
                    out[k] = int(round(250 * z)) if abs(250 * z - round(250 * z)) < 1e-4 else M.BAD
                p["asked"].append(out)
                p["answer"].append(c["e"])
                if v == axis[0]:
                    p["mult"] = [int(round(2 * s)) + 1 for s in c["s"]]
            for l in shown[name]:
                if l["x"] != axis:
                    raise RuntimeError("curves of different axes")
                p["curves"].append({"y": l["y"], "mult": {"#0000ff": 2, "#008000": 4}.get(l["color"], 0), "deg": {"--": 1, "-": 2}.get(l["style"], 0)})
            x["pics"].append(p)
    _, x["err"] = attempt(f)
    if x["err"]:
        x["axis"], x["pics"] = [], []
    return x


def c34(c):
    r = rng("C34")
    lats = [("periodic",) + l for l in RECTS if 3 <= l[0] * l[1] * l[2] ** 2 <= 6]
    jobs = [(ratio_scenario, ("x%d" % i, r.choice(lats), r.choice([0, 1, 1, 2, 3]), False, r.random())) for i in range(pick(14, 80))]
    if not quick():
        jobs += [(ratio_scenario, ("real%d" % nb, ("periodic", 3, 1, 1), nb, True, r.random())) for nb in (1, 2)]
    scns = c.record(jobs, limit=600)
    c.tlc("Ratio", scns, expect_states=sum(1 + len(s["axis"]) for s in scns), traces=2 * len(scns))
    c.extra["ratios"] = sum(len(s["axis"]) for s in scns)
    c.sample(next({k: s[k] for k in ("id", "n", "prm", "nbval")} | {"asked": s["pics"][0]["asked"][0], "answer": s["pics"][0]["answer"][0]} for s in scns if s["pics"]))
