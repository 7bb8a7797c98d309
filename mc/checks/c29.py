"""C29: the shipped scripts and material data.

Every script in /repo/scripts is run with every documented number of bath states and several
numbers of ranks, given, left out or empty, from several directories and in several spellings of its
path, with mpirun/mpiexec replaced by a recorder. The recorded command line is given to the
real program: the parser must accept it, and main is run up to the diagonalisation. Hamiltonian (against the
file and the exact interaction), basis (against direct enumeration) and, for the small
systems, the real ground multiplet are compared with what the material demands. Every parameter
of the shipped crystal-field files must have an effect and every radial function be normalised.
"""

import glob
import importlib
import json
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
from collections import OrderedDict
from math import comb

import numpy as np

from mc import refham
from mc.checks import c12, c27
from mc.checks.c25 import scratch
from mc.env import REPO
from mc.harness import Result, need

ID = "C29"
MEANING = "states: (script, arguments, way of calling) and data files; transitions: compared values; traces: executions of scripts and programs"
ASSUMPTIONS = ["the repository's path contains no white space (the scripts do not quote it)", "scripts start the program with mpirun or mpiexec"]
TIMEOUT = 800
CHUNK = 1
# electrons of the 3d shell, degeneracy of the high-spin cubic ground term with spin-orbit coupling: 6A1, 5T2, 4T1, 3A2
ELEMENT = {"Mn": (5, 6), "Fe": (6, 15), "Co": (7, 12), "Ni": (8, 3)}
BATHS = [10, 20, 50, 100, 300]
RANKS = [1, 2, 7, 16]
STAND_IN = """#!/bin/bash
n=$(ls "$VF_RECORD" | wc -l)
{ printf '%s\\0' "$(basename "$0")" "$PWD" "$@"; } > "$VF_RECORD/$n"
exit ${VF_STATUS:-0}
"""


def scripts():
    return [s for s in sorted(os.path.basename(f) for f in glob.glob(os.path.join(REPO, "scripts", "run_*.sh"))) if known(s)]


def arguments(script):
    """(positional arguments, number of bath states or None, ranks) of a script."""
    if "_CF" in script:
        return [([], None, 1)]
    if "_Xbath" in script:
        out = [([], 10, 1), ([""], 10, 1), (["", ""], 10, 1)]
        out += [([str(b)], b, 1) for b in BATHS] + [([str(b), ""], b, 1) for b in BATHS[:2]]
        return out + [([str(b), str(r)], b, r) for b in BATHS for r in RANKS] + [(["", str(r)], 10, r) for r in RANKS]
    return [([], None, 1), ([""], None, 1)] + [([str(r)], None, r) for r in RANKS]


def known(script):
    return re.fullmatch(r"run_(Mn|Fe|Co|Ni)_(MnO|FeO|CoO|NiO)_(CF|Xbath|(\d+)p(\d+)bath)\.sh", script)


def BOUNDS(tier):
    return dict(scripts=scripts(), bath_states=BATHS, ranks=RANKS, ways_of_calling=5)


def cases(tier):
    out = [["reference"], ["files"]]
    for s in scripts():
        out += [["launch", s], ["status", s]]
    for s in scripts():
        for b in ([None] if "_Xbath" not in s else BATHS[: 4 if tier == "quick" else 5]):
            out.append(["model", s, b])
    out += [["ground", s, b] for s in scripts() for b in ([None] if "_CF" in s else [10, 20] if "_Xbath" in s else []) if tier == "thorough" or "MnO" not in s]
    return out


# ---- launching


def launch(script, args, how="absolute", status=0):
    """Run the script with a recorder in place of mpirun; returns (exit status, records, working directory)."""
    d = tempfile.mkdtemp(prefix="vf_c29_")
    try:
        for sub in ("bin", "rec", "work", "work/sub"):
            os.mkdir(os.path.join(d, sub))
        for name in ("mpirun", "mpiexec"):
            f = os.path.join(d, "bin", name)
            with open(f, "w") as fh:
                fh.write(STAND_IN)
            os.chmod(f, 0o755)
        env = {k: v for k, v in os.environ.items() if not k.startswith("VF_")}
        env.update(PATH=os.path.join(d, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), VF_RECORD=os.path.join(d, "rec"), VF_STATUS=str(status), PYTHONDONTWRITEBYTECODE="1")
        path = os.path.join(REPO, "scripts", script)
        cwd = os.path.join(d, "work")
        if how == "absolute":
            cmd = [path]
        elif how == "relative":
            cmd = [os.path.relpath(path, cwd)]
        elif how == "bash":
            cmd = ["bash", path]
        elif how == "scripts":
            cwd = os.path.join(REPO, "scripts")
            cmd = ["./" + script]
        else:
            cwd = os.path.join(d, "work", "sub")
            cmd = ["bash", "../" + os.path.relpath(path, os.path.join(d, "work"))]
        r = subprocess.run(cmd + list(args), cwd=cwd, env=env, capture_output=True, text=True, timeout=60, stdin=subprocess.DEVNULL)
        rec = []
        for f in sorted(os.listdir(os.path.join(d, "rec")), key=int):
            with open(os.path.join(d, "rec", f), "rb") as fh:
                rec.append([os.fsdecode(x) for x in fh.read().split(b"\0")[:-1]])
        return r, rec, cwd
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse(rec, where):
    """(ranks, module, arguments, working directory) of a recorded command."""
    _, cwd, *argv = rec
    ranks = 1
    i = 0
    while i < len(argv) and argv[i].startswith("-"):
        if argv[i] in ("-n", "-np", "--np", "-c"):
            need(i + 1 < len(argv) and argv[i + 1].isdigit(), where, "starts", argv, "without a number of ranks")
            ranks = int(argv[i + 1])
            i += 1
        i += 1
    need(i < len(argv) and re.fullmatch(r"python[0-9.]*", os.path.basename(argv[i])), where, "does not start python but", argv[i:])
    i += 1
    while i < len(argv) and argv[i].startswith("-") and argv[i] != "-m":
        i += 1
    need(i + 1 < len(argv) and argv[i] == "-m", where, "does not start a module but", argv[i:])
    return ranks, argv[i + 1], argv[i + 2 :], cwd


def program(script, b, where):
    """The arguments main gets for a script: through the recorder and the real parser."""
    r, rec, _ = launch(script, [] if b is None else [str(b)])
    need(r.returncode == 0 and len(rec) == 1, where, "fails or does not start one program:", r.returncode, r.stderr[-300:])
    _, module, args, _ = parse(rec[0], where)
    kind = {v: k for k, v in c27.MODULES.items()}.get(module)
    need(kind == ("cf" if "_CF" in script else "op"), where, "starts the module", module)
    err, got = c27.execute(kind, args)
    need(err is None and len(got) == 1, where, "the program refuses", args, repr(err))
    return module, got[0]


def files(script, b):
    m = known(script)
    el, compound, kind = m.group(1, 2, 3)
    h0 = "h0_%s_CF.json" % compound if kind == "CF" else "h0_%s_%sbath.pickle" % (compound, b if kind == "Xbath" else kind[:-4])
    return os.path.join(REPO, "h0", h0), os.path.join(REPO, "radialOrbitals", el + "3d.dat")


def bath_numbers(script, b):
    """(valence, conduction) bath states announced."""
    m = known(script)
    if m.group(3) == "CF":
        return 10, 0
    return (b, 0) if b is not None else (int(m.group(4)), int(m.group(5)))


def run_launch(script, res):
    ways = ["absolute", "relative", "bash", "scripts", "nested"]
    for args, b, ranks in arguments(script):
        seen = set()
        for how in ways if len(args) == len([a for a in args if a]) else ways[:1]:
            where = f"{script} {' '.join(map(repr, args))} ({how} path):"
            r, rec, cwd = launch(script, args, how)
            need(r.returncode == 0, where, "fails with status", r.returncode, r.stderr[-300:])
            need(len(rec) == 1, where, "starts", len(rec), "programs")
            n, module, argv, at = parse(rec[0], where)
            need(n == ranks, where, "starts", n, "ranks instead of", ranks)
            need(os.path.realpath(at) == os.path.realpath(cwd), where, "runs in", at, "and not where it was called")
            need(module == "impurityModel.ed.get_spectra" + ("_using_CF" if "_CF" in script else ""), where, "starts", module)
            paths = [os.path.join(at, p) for p in argv[:2]]
            for p, q in zip(paths, files(script, b)):
                need(os.path.isfile(p) and os.path.realpath(p) == os.path.realpath(q), where, "uses the file", p, "instead of", q)
            seen.add(tuple(argv[2:]))
            # says what it does
            out = r.stdout
            for q in files(script, b):
                need(os.path.basename(q) in out, where, "does not print the file name", os.path.basename(q))
            if "Number of MPI ranks to use:" in out:
                need(re.search(r"Number of MPI ranks to use: *%d\b" % ranks, out), where, "prints another number of ranks:", out)
            if "Number of bath states:" in out:
                need(re.search(r"Number of bath states: *%d\b" % b, out), where, "prints another number of bath states:", out)
            res.states += 1
            res.traces += 1
            res.transitions += len(argv)
        need(len(seen) == 1, script, args, "depends on the way it is called:", seen)
        got = c27.execute("cf" if "_CF" in script else "op", list(files(script, b)) + list(seen.pop()))
        need(got[0] is None and len(got[1]) == 1, script, args, "is refused by the program:", repr(got[0]))
        p = got[1][0]
        nv, nc = bath_numbers(script, b)
        need(list(p["ls"]) == [1, 2] and list(p["nBaths"]) == [0, nv + nc] and list(p["nValBaths"]) == [0, nv], script, args, "runs with nBaths", p["nBaths"], "and nValBaths", p["nValBaths"], "expected", nv + nc, "and", nv)
        need(list(p["n0imps"]) == [6, ELEMENT[known(script).group(1)][0]], script, args, "runs with the occupations", p["n0imps"])


def run_status(script, res):
    """A failing or missing program is not a success of the script."""
    for status in (1, 3, 137):
        r, rec, _ = launch(script, [], status=status)
        need(len(rec) == 1 and r.returncode != 0, script, "reports success although the program failed with status", status)
        res.traces += 1
        res.states += 1


# ---- what is started


class Reached(Exception):
    pass


def up_to_eigensystem(module, par, where):
    """(n_spin_orbitals, hOp, basis, nPsiMax) main gives to the diagonalisation."""
    import inspect

    from impurityModel.ed import finite

    mod = importlib.import_module(module)
    real = finite.eigensystem
    sig = inspect.signature(real)
    got = []

    def stop(*a, **k):
        got.append(sig.bind(*a, **k).arguments)
        raise Reached()

    places = [(m, k) for n, m in list(sys.modules.items()) if n.startswith("impurityModel") and m for k, v in list(vars(m).items()) if v is real]
    for m, k in places:
        setattr(m, k, stop)
    try:
        mod.main(**par)
    except Reached:
        pass
    finally:
        for m, k in places:
            setattr(m, k, real)
    need(len(got) == 1, where, "does not diagonalise once")
    return list(got[0].values())[:4]


def n_basis(nv, nc, n0, p):
    """Number of product states of the ground-state basis (3d shell and its baths; the 2p shell is full)."""
    tot = 0
    for holes in range(min(nv, p["dnValBaths"][1]) + 1):
        for con in range(min(nc, p["dnConBaths"][1]) + 1):
            imp = n0 + holes - con
            if 0 <= imp <= 10 and abs(imp - n0) <= p["dnTols"][1]:
                tot += comb(10, imp) * comb(nv, holes) * comb(nc, con)
    return tot


def stored(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def run_model(script, b, res):
    where = f"{script} {'' if b is None else b}:"
    module, p = program(script, b, where)
    nv, nc = bath_numbers(script, b)
    nb = nv + nc
    el = known(script).group(1)
    n0 = ELEMENT[el][0]
    h0file = files(script, b)[0]
    with scratch():
        n, op, basis, nPsi = up_to_eigensystem(module, p, where)
    need(n == 16 + nb, where, "has", n, "spin-orbitals instead of", 16 + nb)
    need(nPsi == p["nPsiMax"], where, "asks for", nPsi, "eigenstates")
    # the Hamiltonian
    nBaths = OrderedDict([(1, 0), (2, nb)])
    ix = refham.pos(nBaths)
    if module.endswith("CF"):
        with open(h0file) as f:
            par = json.load(f)
        two, one = refham.impurity(*[p[k] for k in ("Fdd", "Fpp", "Fpd", "Gpd", "xi_2p", "xi_3d")], n0, p["chargeTransferCorrection"], p["hField"])
        g1, _, _ = refham.split(op)
        h = refham.one_matrix(g1, {i: i for i in range(n)}) - refham.one_matrix(one, ix)
        h = np.where(abs(h) < 1e-11, 0, h)  # rounding of adding and subtracting the large double counting
        c12.cf_check(h, nBaths, par, where, res)
        h0 = h
    else:
        h0 = refham.one_matrix(stored(h0file), ix)
    q = dict(p, n3d=n0, c=p["chargeTransferCorrection"])
    c12.compare(op, q, h0, nBaths, where, res)
    # the basis
    basis = list(basis)
    need(len(set(basis)) == len(basis) == n_basis(nv, nc, n0, p), where, "has", len(basis), "basis states, expected", n_basis(nv, nc, n0, p))
    arr = np.unpackbits(np.frombuffer(b"".join(basis), np.uint8).reshape(len(basis), -1), axis=1)[:, :n]
    N = 6 + n0 + nv
    need(np.all(arr.sum(1) == N), where, "has basis states of", sorted(set(arr.sum(1).tolist())), "electrons instead of", N)
    core = [ix[1, s, m] for s in range(2) for m in range(-1, 2)]
    need(np.all(arr[:, core] == 1), where, "has basis states with 2p holes")
    # filled are the bath states below the Fermi level
    for bath in range(nb):
        i = ix[2, bath]
        need((h0[i, i].real < 0) == (bath < nv), where, "bath state", bath, "at", h0[i, i].real, "is taken as", "valence" if bath < nv else "conduction")
    d = [ix[2, s, m] for s in range(2) for m in range(-2, 3)]
    vb = [ix[2, x] for x in range(nv)]
    cb = [ix[2, x] for x in range(nv, nb)]
    holes, con = nv - arr[:, vb].sum(1), arr[:, cb].sum(1)
    need(np.all(holes <= p["dnValBaths"][1]) and np.all(con <= p["dnConBaths"][1]) and np.all(arr[:, d].sum(1) == n0 + holes - con), where, "has basis states outside the occupation limits")
    need(np.sum((holes == 0) & (con == 0)) == comb(10, n0), where, "lacks nominal product states")
    res.transitions += arr.size
    res.states += 1
    res.traces += 1


def run_ground(script, b, res):
    """The whole ground multiplet, and nothing but it, is considered."""
    where = f"{script} {'' if b is None else b}:"
    module, p = program(script, b, where)
    el = known(script).group(1)
    n0, g = ELEMENT[el]
    with scratch():
        n, op, basis, nPsi = up_to_eigensystem(module, p, where)
        from impurityModel.ed import finite

        es, psis = finite.eigensystem(n, op, basis, nPsi)
    es = np.array(es)
    cut = p["energy_cut"] * 8.617333262e-5 * p["T"]
    need(len(es) == len(psis) == nPsi, where, "finds", len(es), "eigenstates")
    kept = int(np.sum(es - es[0] < cut))
    need(kept == g, where, "considers", kept, "eigenstates of a ground term of", g, ":", (es - es[0]).tolist())
    need(len(es) > kept and es[kept] - es[0] > 2 * cut, where, "thermally occupied eigenstates may be missing:", (es - es[0]).tolist())
    ix = refham.pos(OrderedDict([(1, 0), (2, n - 16)]))
    up = [ix[2, 1, m] for m in range(-2, 3)]
    dn = [ix[2, 0, m] for m in range(-2, 3)]
    spin = (10 - n0) / 2
    for psi in psis[:kept]:
        need(abs(sum(abs(a) ** 2 for a in psi.values()) - 1) < 1e-3, where, "eigenstate not normalised")
        nd = sum(abs(a) ** 2 * sum(c == "1" for c in bits(s, n, up + dn)) for s, a in psi.items())
        need(n0 - 1e-3 < nd < n0 + 0.5, where, "has", nd, "3d electrons")
    s2 = [finite.getSsqr3d(OrderedDict([(1, 0), (2, n - 16)]), psi) for psi in psis[:kept]]
    need(np.all(abs(np.array(s2) - spin * (spin + 1)) < 0.2 * spin * (spin + 1)), where, "is not high spin:", s2)
    res.states += kept
    res.transitions += kept
    res.traces += 1


def bits(s, n, where):
    t = "".join(format(x, "08b") for x in s)
    return [t[i] for i in where]


def run_reference(res):
    """The complete run of the script with 50 bath states against the output committed in the repository."""
    where = "run_Ni_NiO_Xbath.sh 50:"
    module, p = program("run_Ni_NiO_Xbath.sh", 50, where)
    want = os.path.join(REPO, "impurityModel", "test", "referenceOutput", "Ni_NiO_50bath")
    with scratch():
        importlib.import_module(module).main(**p)
        for name, tol in (("PS", 2e-3), ("XPS", 2e-3), ("NIXS", 4e-3), ("XAS", 2e-3)):
            a, b = np.loadtxt(name + ".dat"), np.loadtxt(os.path.join(want, name + ".dat"))
            need(a.shape == b.shape, where, name, "has the shape", a.shape, "and in the reference output", b.shape)
            d = abs(a - b)
            for c in range(a.shape[1]):
                # operators mix within degenerate momenta only, columns are given
                need(d[:, c].max() <= tol * abs(b[:, 0 if c == 0 else 1]).max() + 2.1e-4 * (name == "PS") + 1.1e-4, where, name, "column", c, "at", a[d[:, c].argmax(), 0], "differs from the reference output by", d[:, c].max())
            res.transitions += a.size
        a, b = np.fromfile("RIXS.bin", np.float32), np.fromfile(os.path.join(want, "RIXS.bin"), np.float32)
        need(a.shape == b.shape == (51 * 4001,), where, "RIXS.bin has", a.shape, "numbers and in the reference output", b.shape)
        a, b = a.reshape(-1, 51), b.reshape(-1, 51)
        need(abs(a[:, 0] - b[:, 0]).max() < 1e-4 and abs(a[0] - b[0]).max() < 1e-4, where, "RIXS.bin has other meshes than the reference output")
        d = abs(a - b)[1:, 1:]
        need(d.max() < 0.02 * abs(b[1:, 1:]).max() and d.mean() < 1e-3 * abs(b[1:, 1:]).max(), where, "RIXS.bin differs from the reference output by", d.max(), "(mean %g)" % d.mean())
        res.transitions += a.size
    res.states += 1
    res.traces += 1


# ---- data files


def run_files(res):
    need(len(scripts()) >= 6, "scripts are missing:", scripts())
    from impurityModel.ed.get_spectra_using_CF import read_h0_CF_file

    used = {files(s, b)[0] for s in scripts() for b in (BATHS if "_Xbath" in s else [None])}
    have = set(glob.glob(os.path.join(REPO, "h0", "h0_*")))
    need(used <= have, "Hamiltonian files missing:", used - have)
    for f in sorted(have):
        name = os.path.basename(f)
        if f.endswith(".json"):
            with open(f) as fh:
                par = json.load(fh)
            base = read_h0_CF_file(f)
            want = [dict(refham.CF_DEFAULT, **par)[k] for k in refham.CF_DEFAULT]
            need(sorted(base) == sorted(want), name, "is read as", base, "expected the values", want)
            need(all(v > 0 for k, v in par.items() if k.startswith("v_")) and par.get("e_deltaO_imp", 1) > 0, name, "has unphysical values", par)
            need(all(v < 0 for k, v in par.items() if "_val_" in k and k[0] == "e") and all(v > 0 for k, v in par.items() if "_con_" in k and k[0] == "e"), name, "has baths on the wrong side of the Fermi level", par)
            with tempfile.TemporaryDirectory() as d:
                for k in par:
                    g = os.path.join(d, "h0.json")
                    with open(g, "w") as fh:
                        json.dump(dict(par, **{k: par[k] + 0.125}), fh)
                    need(read_h0_CF_file(g) != base, name, "parameter", k, "has no effect")
                    res.transitions += 1
        else:
            h = stored(f)
            m = re.fullmatch(r"h0_NiO_(\d+)(p(\d+))?bath\.pickle", name)
            if not m:
                continue
            nv, nc = int(m.group(1)), int(m.group(3) or 0)
            labels = {x for pr in h for x, _ in pr}
            need({x for x in labels if len(x) == 2} == {(2, i) for i in range(nv + nc)}, name, "does not have", nv + nc, "bath states")
            need({x for x in labels if len(x) == 3} == {(2, s, m) for s in range(2) for m in range(-2, 3)}, name, "does not have the 3d shell")
            for (a, b_), v in h.items():
                need(a[1] == "c" and b_[1] == "a" and np.isfinite(v), name, "process", (a, b_))
                need(abs(h.get(((b_[0], "c"), (a[0], "a")), 0) - np.conj(v)) < 1e-12, name, "is not Hermitian at", (a, b_))
                res.transitions += 1
        res.states += 1
        res.traces += 1
    for el in ELEMENT:
        f = os.path.join(REPO, "radialOrbitals", el + "3d.dat")
        r, R = np.loadtxt(f).T
        need(np.all(np.diff(r) >= 0) and np.all(r >= 0) and np.all(np.isfinite(R)), f, "has no ascending mesh")
        norm = np.sum(0.5 * np.diff(r) * ((R * r)[1:] ** 2 + (R * r)[:-1] ** 2))
        need(abs(norm - 1) < 1e-3, f, "has the norm", norm)
        res.states += 1


def run(case):
    res = Result()
    if case[0] == "files":
        run_files(res)
    elif case[0] == "reference":
        run_reference(res)
    elif case[0] == "launch":
        run_launch(case[1], res)
    elif case[0] == "status":
        run_status(case[1], res)
    elif case[0] == "model":
        run_model(case[1], case[2], res)
    else:
        run_ground(case[1], case[2], res)
    res.outcomes = {case[0]}
    return res
