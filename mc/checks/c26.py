"""C26: the plot scripts.

Files with every subset of the five spectra and every combination of numbers of
incoming and outgoing polarisations, momenta and mesh points (square and not, two
points and more), with and without momentum vectors, with maps that vanish altogether
or for one polarisation pair, are plotted by the real scripts with
matplotlib drawing to memory; the content of every axes (lines, images, extents,
orientation, energies) is compared with the data in the file. Default file name, explicit
path, missing files and wrong argument counts are run through the scripts' command
lines; files of real simulate_spectra calls and runs are plotted as well.
"""

import contextlib
import io
import itertools
import os
import re
import runpy
import sys

import numpy as np

from mc.checks.c25 import scratch
from mc.harness import Result, Violation, need

ID = "C26"
MEANING = "states: files; transitions: curves and images compared; traces: executions of the scripts"
ASSUMPTIONS = ["energy meshes are uniform with at least two points", "matplotlib draws its artists faithfully (their data is inspected)"]
NAMES = ["PS", "XPS", "XAS", "NIXS", "RIXS"]
L3, L2 = list(range(-7, 2)), list(range(11, 16))


def BOUNDS(tier):
    return dict(subsets=32, polarisations="1..4 x 1..4" if tier == "quick" else "1..5 x 1..5", momenta="1..4", mesh_points="2..50")


def cases(tier):
    out = [["subset", s, v] for s in range(32) for v in range(2 if tier == "quick" else 6)]
    top = 4 if tier == "quick" else 5
    out += [["panels", i, j, z] for i in range(1, top + 1) for j in range(1, top + 1) for z in range(3)]
    out += [["mesh", a, b] for a in (2, 3, 9, 31, 50) for b in (2, 3, 40, 51)]
    out += [["bin", a, b, z] for a in (2, 3, 4, 9, 50) for b in (2, 3, 7, 50, 200) for z in (0, 1)]
    out += [["cli", i] for i in range(8)]
    out += [["real", i] for i in range(2 if tier == "quick" else 8)]
    return out


def field(shape, k, zero=0):
    """Positive data without any symmetry, spanning several orders of magnitude, some below the cut-off."""
    n = int(np.prod(shape))
    i = np.arange(n, dtype=float)
    x = (1.5 + np.sin(0.7 * i + k) + np.cos(0.013 * i * i)) * 10 ** (2 * np.sin(0.31 * i + 0.2 * k) - 1)
    if zero != 2:
        x[(i * 7 + k).astype(int) % 11 == 3] = 1e-8
    return x.reshape(shape) * (zero != 1)


def write(path, sel, v, ni=3, no=3, nq=2, nin=30, nloss=40, zero=0, qs=True):
    import h5py

    d = {}
    nw = 25 + 3 * v
    d["E"] = np.array([-3.0, -2.9])[: 1 + v % 2]
    d["w"] = np.linspace(-25, 25, nw)
    d["wIn"] = np.linspace(-10, 20, nin)
    d["wLoss"] = np.linspace(-2, 12, nloss)
    if qs:
        d["qsNIXS"] = np.array([[2.0 + i, 1.0, -0.5 * i] for i in range(nq)])
    r = np.linspace(0, 5, 20)
    d["r"], d["RiNIXS"], d["RjNIXS"] = r, r**2, r**3
    shape = dict(PS=(10, nw), XPS=(6, nw), XAS=(1 + (v + 2) % 3, nw), NIXS=(nq, nloss), RIXS=(ni, no, nin, nloss))
    for n in sel:
        z = zero if n == "RIXS" else 2
        a = field(shape[n], v + len(n), z)
        if n == "RIXS" and zero == 2:
            a[-1, 0] = 0
        d[n] = np.array([a * (1 + 0.1 * i) for i in range(len(d["E"]))])
        d[n + "thermal"] = a
    with h5py.File(path, "w") as f:
        for k, x in d.items():
            f.create_dataset(k, data=x)
    return d


def draw(call):
    """Execute a script with drawing to memory: [(axes data of figure)], stdout, error."""
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt

    plt.close("all")
    out, err = io.StringIO(), None
    shown = []
    old, plt.show = plt.show, lambda *a, **k: shown.append(len(plt.get_fignums()))
    try:
        import warnings

        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                call()
            except SystemExit as e:
                err = e
            except Exception as e:
                err = e
            figs = []
            for n in plt.get_fignums():
                f = plt.figure(n)
                f.canvas.draw()
                figs.append([axes(a) for a in f.axes])
        return figs, out.getvalue(), err, bool(shown)
    finally:
        plt.show = old
        plt.close("all")


def axes(a):
    ln = [dict(x=np.array(l.get_xdata(), float), y=np.array(l.get_ydata(), float), label=l.get_label()) for l in a.lines]
    im = [dict(z=np.ma.filled(np.ma.masked_invalid(np.ma.array(i.get_array(), dtype=float)), np.nan), extent=tuple(i.get_extent()), origin=i.origin, clim=i.get_clim()) for i in a.images]
    # a colour bar has no lines or images of its own
    return dict(lines=ln, images=im, title=a.get_title(), xlabel=a.get_xlabel(), ylabel=a.get_ylabel(), xlim=a.get_xlim(), ylim=a.get_ylim())


def match(got, want, what, where, res, rtol=1e-9):
    need(got.shape == want.shape, where, what, "has shape", got.shape, "expected", want.shape)
    need(np.allclose(got, want, rtol=rtol, atol=1e-12, equal_nan=True), where, what, "is", got, "expected", want)
    res.transitions += 1


def line(a, i, x, y, what, where, res):
    need(len(a["lines"]) > i, where, what, "is not drawn")
    match(a["lines"][i]["x"], x, what + " energies", where, res)
    match(a["lines"][i]["y"], y, what, where, res)


def image(a, z, x, y, what, where, res, rtol=1e-9):
    """z[x, y]; every pixel is centred at its energies, values below the cut-off are not shown."""
    need(len(a["images"]) == 1, where, what, "is not one image")
    im = a["images"][0]
    want = np.where(z.T < 1e-6, np.nan, z.T)
    # orientation: rows are y, columns are x
    match(im["z"] if im["origin"] == "lower" else im["z"][::-1], want, what, where, res, rtol)
    seen = want[want > 0]
    if seen.size:
        lo, hi = im["clim"]
        need(lo <= seen.min() * (1 + 1e-6) and seen.max() <= hi * (1 + 1e-6) or lo == hi, where, what, "colours cover", im["clim"], "values", seen.min(), seen.max())
    l, r, b, t = im["extent"]
    dx, dy = x[1] - x[0], y[1] - y[0]
    match(np.array([l, r, b, t]), np.array([x[0] - dx / 2, x[-1] + dx / 2, y[0] - dy / 2, y[-1] + dy / 2]), what + " extent", where, res, 1e-5)
    need(a["xlim"][0] < a["xlim"][1] and a["ylim"][0] < a["ylim"][1], where, what, "axes are reversed")


def check(figs, d, where, res):
    """All figures of plotSpectra for the data of a file, in any order of figures."""
    todo = [[a for a in f if a["lines"] or a["images"]] for f in figs]

    def take(pred, what):
        for i, f in enumerate(todo):
            if pred(f):
                return todo.pop(i)
        need(False, where, "no figure of", what)

    has = lambda n: n + "thermal" in d  # noqa: E731
    lab = lambda f: [l["label"] for a in f for l in a["lines"]]  # noqa: E731
    w, win, wl = d["w"], d["wIn"], d["wLoss"]
    for n, name in (("PS", "photo-emission"), ("XPS", "XPS")):
        if has(n):
            f = take(lambda f: lab(f) == [name], n)
            line(f[0], 0, w, d[n + "thermal"].sum(0), n, where, res)
    if has("XAS"):
        f = take(lambda f: "XAS" in lab(f), "XAS")
        need(len(f) == 1, where, "XAS figure")
        need(lab(f) == (["XAS", "FY", "quasi-elastic FY"] if has("RIXS") else ["XAS"]), where, "curves of the XAS figure are", lab(f))
        line(f[0], 0, w, d["XASthermal"].sum(0), "XAS", where, res)
        if has("RIXS"):
            x = d["RIXSthermal"]
            tot = x.sum((0, 1)) * (wl[1] - wl[0]) / (np.pi * len(x))
            line(f[0], 1, win, tot.sum(1), "fluorescence yield", where, res)
            line(f[0], 2, win, tot[:, wl < 0.2].sum(1), "quasi-elastic fluorescence yield", where, res)
    if has("NIXS"):
        x = d["NIXSthermal"]
        f = take(lambda f: len(f) == 1 and not f[0]["images"] and len(f[0]["lines"]) == len(x) and "in" not in f[0]["lines"][0]["label"], "NIXS")
        for i in range(len(x)):
            line(f[0], i, wl, x[i], "NIXS %d" % i, where, res)
            if "qsNIXS" in d:
                need("%.1f" % np.linalg.norm(d["qsNIXS"][i]) in f[0]["lines"][i]["label"], where, "label of momentum", i, "is", f[0]["lines"][i]["label"])
    if has("RIXS"):
        x = d["RIXSthermal"]
        s = x.sum((0, 1))
        f = take(lambda f: len(f) == 2 and f[0]["lines"] and f[1]["lines"], "energy loss curves")
        for a, es, off in ((f[0], L3, 1.5), (f[1], L2, 1)):
            need(len(a["lines"]) == len(es), where, "number of energy loss curves", len(a["lines"]))
            seen = []
            for l in a["lines"]:
                e = float(re.search(r"=(-?[\d.]+)$", l["label"]).group(1))
                seen.append(e)
                k = np.argmin(abs(win - e))
                # equally close energies are both fine
                cand = [k2 for k2 in range(len(win)) if abs(abs(win[k2] - e) - abs(win[k] - e)) < 1e-9]
                need(any(np.allclose(l["y"], off * es.index(e) + s[c], rtol=1e-9) for c in cand), where, "energy loss curve of", e, "is wrong")
                match(l["x"], wl, "energy loss", where, res)
            need(sorted(seen) == es, where, "incoming energies of the curves are", seen)
        f = take(lambda f: len(f) == 1 and f[0]["images"], "the summed RIXS map") if x.shape[:2] != (1, 1) else take(lambda f: len(f) == 1 and f[0]["images"], "RIXS map")
        image(f[0], s, win, wl, "RIXS map", where, res)
        if x.shape[:2] != (1, 1):
            f = take(lambda f: f and all(a["images"] for a in f), "RIXS maps of all polarisations")
            need(len(f) == x.shape[0] * x.shape[1], where, "number of polarisation maps", len(f))
            for a, (i, j) in zip(f, itertools.product(range(x.shape[0]), range(x.shape[1]))):
                need(a["title"] == f"({i},{j})", where, "title of map", (i, j), "is", a["title"])
                image(a, x[i, j], win, wl, "RIXS map %d,%d" % (i, j), where, res)
            for j in range(x.shape[1]):
                need(f[-1 - j]["xlabel"], where, "bottom row has no label")
    need(not todo, where, len(todo), "unexpected figures", [lab(f) for f in todo])


def plot(path):
    from impurityModel.plotScripts.plotSpectra import plot_spectra_in_file

    plot_spectra_in_file(path)


def script(name, *args):
    def call():
        old = sys.argv
        sys.argv = [name] + list(args)
        try:
            runpy.run_module("impurityModel.plotScripts." + name, run_name="__main__")
        finally:
            sys.argv = old

    return call


def spectra(call, d, where, res):
    figs, out, err, shown = draw(call)
    need(err is None, where, "raises", type(err).__name__, err)
    check(figs, d, where, res)
    need(shown or not figs, where, "nothing is shown")
    res.states += 1
    res.traces += 1


def rixs_bin(call, x, win, wl, where, res):
    figs, out, err, shown = draw(call)
    need(err is None, where, "raises", type(err).__name__, err)
    f = [[a for a in f if a["lines"] or a["images"]] for f in figs]
    need(len(f) == 1 and len(f[0]) == 1, where, "figures", f)
    image(f[0][0], x, win, wl, "RIXS map", where, res, 1e-6)
    res.states += 1
    res.traces += 1


def write_bin(path, nin, nloss, zero=0):
    win, wl = np.linspace(-10, 20, nin), np.linspace(-2, 12, nloss)
    x = field((nin, nloss), 5, zero).astype(np.float32).astype(float)
    t = np.zeros((nloss + 1, nin + 1), dtype=np.float32)
    t[0, 0], t[0, 1:], t[1:, 0], t[1:, 1:] = nin, win, wl, x.T
    t.tofile(path)
    return x, win, wl


def failing(call, where, res):
    figs, out, err, shown = draw(call)
    bad = isinstance(err, Exception) or isinstance(err, SystemExit) and err.code not in (None, 0)
    need(bad and not figs, where, "is not reported as an error:", repr(err))
    res.traces += 1


def run(case):
    res = Result()
    try:
        with scratch() as tmp:
            if case[0] == "subset":
                sel = [n for i, n in enumerate(NAMES) if case[1] >> i & 1]
                v = case[2]
                d = write("some file.h5", sel, v, ni=1 + v % 3, no=1 + (v + 1) % 3, nq=1 + (v + case[1]) % 4, qs=(v + case[1]) % 3 > 0)
                spectra(lambda: plot("some file.h5"), d, f"file with {sel}:", res)
            elif case[0] == "panels":
                d = write("a.h5", ["RIXS", "XAS"] if case[1] % 2 else ["RIXS"], case[2], ni=case[1], no=case[2], nin=11 + case[1], zero=case[3])
                spectra(lambda: plot("a.h5"), d, f"{case[1]} x {case[2]} polarisations, {['', 'zero map', 'one zero map'][case[3]]}:", res)
            elif case[0] == "mesh":
                d = write("a.h5", NAMES, 1, ni=2, no=1, nin=case[1], nloss=case[2])
                spectra(lambda: plot("a.h5"), d, f"{case[1]} incoming energies, {case[2]} losses:", res)
            elif case[0] == "bin":
                x = write_bin("RIXS.bin" if case[1] % 2 else "other map", *case[1:])
                rixs_bin(script("plotRIXS", *([] if case[1] % 2 else ["other map"])), *x, f"RIXS.bin {case[1:]}:", res)
            elif case[0] == "cli":
                i = case[1]
                if i == 0:
                    d = write("spectra.h5", NAMES[:3], 0)
                    spectra(script("plotSpectra"), d, "plotSpectra without argument:", res)
                elif i == 1:
                    d = write("spectra.h5", NAMES[:1], 0)
                    os.mkdir("dir")
                    d = write(os.path.join("dir", "other.h5"), NAMES[1:4], 3)
                    spectra(script("plotSpectra", os.path.join("dir", "other.h5")), d, "plotSpectra with argument:", res)
                elif i == 2:
                    failing(script("plotSpectra"), "plotSpectra without its default file", res)
                    failing(script("plotSpectra", "nofile.h5"), "plotSpectra with a missing file", res)
                    write("spectra.h5", NAMES[:1], 0)
                    failing(script("plotSpectra", "nofile.h5"), "plotSpectra with a missing file and a default one", res)
                elif i == 3:
                    failing(script("plotRIXS"), "plotRIXS without its default file", res)
                    failing(script("plotRIXS", "nofile"), "plotRIXS with a missing file", res)
                    write_bin("RIXS.bin", 4, 5)
                    failing(script("plotRIXS", "nofile"), "plotRIXS with a missing file and a default one", res)
                    failing(script("plotRIXS", "RIXS.bin", "RIXS.bin"), "plotRIXS with two files", res)
                    os.mkdir("adir")
                    failing(script("plotRIXS", "adir"), "plotRIXS of a directory", res)
                    failing(script("plotSpectra", "adir"), "plotSpectra of a directory", res)
                elif i == 4:
                    write_bin("RIXS.bin", 4, 5)
                    x = write_bin("m", 7, 9)
                    rixs_bin(script("plotRIXS", "m"), *x, "plotRIXS with argument:", res)
                    x = write_bin("RIXS.bin", 5, 6)
                    rixs_bin(script("plotRIXS"), *x, "plotRIXS without argument:", res)
                elif i == 5:
                    # importing draws nothing
                    def call():
                        import importlib

                        for n in ("plotSpectra", "plotRIXS"):
                            importlib.reload(importlib.import_module("impurityModel.plotScripts." + n))

                    figs, out, err, shown = draw(call)
                    need(err is None and not figs, "importing the plot scripts", err, figs)
                    res.traces += 1
                elif i == 6:
                    a = write("a.h5", NAMES, 0)
                    b = write("b.h5", NAMES[:2], 1)
                    spectra(lambda: plot("a.h5"), a, "first of two files:", res)
                    spectra(lambda: plot("b.h5"), b, "second of two files:", res)
                else:
                    figs, out, err, shown = draw(script("plotSpectra", "--help"))
                    need(isinstance(err, SystemExit) and err.code in (None, 0) and not figs, "plotSpectra --help:", err)
                    res.traces += 1
            else:
                from mc.checks import c25

                import h5py
                from impurityModel.ed.spectra import simulate_spectra

                sim = [(2, 1, 2, 3, 2, 4), (1, 3, 1, 1, 3, 3)] + [(1 + i % 3, 1 + i % 2, 1 + i % 3, 1 + i // 2 % 3, 1 + i % 3, 2 + i) for i in range(6)]
                model, m, T, basis, E, V, args, nB = c25.simulate_args(sim[case[1]])
                f = h5py.File("spectra.h5", "w")
                for k, x in (("w", m["w"]), ("wIn", m["wIn"]), ("wLoss", m["wLoss"]), ("qsNIXS", m["qs"]), ("E", E)):
                    f.create_dataset(k, data=x)
                with contextlib.redirect_stdout(io.StringIO()):
                    simulate_spectra(*args, f, nB)
                d = c25.content()
                spectra(script("plotSpectra"), d, f"file of simulate_spectra {sim[case[1]]}:", res)
                rixs_bin(script("plotRIXS"), d["RIXSthermal"].sum((0, 1)), d["wIn"], d["wLoss"], f"RIXS.bin of simulate_spectra {sim[case[1]]}:", res)
    except Violation:
        raise
    res.outcomes = {case[0]}
    return res
