#!/usr/bin/env python3
"""Systematic small changes of the code under test, to find what the checks do not see.

mutants.py list                      number of changes per file
mutants.py run OUT [--stride N --offset K --jobs J --files GLOB]
Each change is made in a scratch copy of /repo; the checks run (most relevant first) until one
reports a violation. Survivors have to be looked at: they are equivalent, or a gap.
"""
import argparse
import ast
import concurrent.futures as cf
import copy
import fnmatch
import glob
import json
import os
import shutil
import subprocess
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FIRST = {
    "product_state_representation.py": "C01 C02 C03",
    "create.py": "C02 C05 C03",
    "remove.py": "C02 C05 C03",
    "average.py": "C14 C30 C25",
    "mpi_comm.py": "C24 C21 C22 C23",
    "finite.py": "C03 C05 C06 C04 C07 C08 C09 C10 C11 C12 C13 C14 C16 C15 C21 C22 C28 C17",
    "spectra.py": "C16 C17 C18 C19 C20 C25 C23 C28 C24",
    "get_spectra.py": "C27 C12 C30 C25 C29",
    "get_spectra_using_CF.py": "C27 C12 C30 C29 C25",
    "plotRIXS.py": "C26",
    "plotSpectra.py": "C26",
}
# the checks that look at a function most directly (used with --plan)
PLAN = {
    "finite.py": {
        "get_job_tasks": "C21", "eigensystem": "C15", "printExpValues": "C14 C30", "printThermalExpValues": "C14 C30", "dc_MLFT": "C11", "get_spherical_2_cubic_matrix": "C11 C13 C12", "daggerOp": "C05", "assert_hermitian": "C05",
        "get_basis": "C07", "inner": "C05", "addToFirst": "C05", "a": "C05", "c": "C05", "gauntC": "C10", "getU": "C10", "printGaunt": "C10", "getNoSpinUop": "C10", "getUop": "C10", "addOps": "C05", "get2p3dSlaterCondonUop": "C10 C11",
        "getSOCop": "C11", "gethHfieldop": "C11", "c2i": "C06", "i2c": "C06", "applyOp": "C03 C04", "get_hamiltonian_matrix": "C09 C22 C23 C21", "get_hamiltonian_matrix_from_h_dict": "C09 C22 C23",
        "expand_basis": "C08 C22 C28", "expand_basis_and_hamiltonian": "C09 C22 C08", "get_tridiagonal_krylov_vectors": "C16 C23 C17", "add": "C05", "norm2": "C05",
    },
    "spectra.py": {
        "simulate_spectra": "C25", "getDipoleOperators": "C19", "getDaggeredDipoleOperators": "C19", "getDipoleOperator": "C19", "getNIXSOperators": "C20", "getNIXSOperator": "C20", "getInversePhotoEmissionOperators": "C19 C25",
        "getPhotoEmissionOperators": "C19 C25", "getGreen": "C16 C23", "getSpectra": "C17 C23 C28", "getRIXSmap": "C18 C23 C28",
    },
    "get_spectra.py": {"": "C27", "main": "C30 C25 C12", "get_hamiltonian_operator": "C12 C11", "read_pickled_file": "C12"},
    "get_spectra_using_CF.py": {"": "C27", "main": "C30 C25 C12", "get_hamiltonian_operator_using_CF": "C12", "get_CF_hamiltonian": "C12", "read_h0_CF_file": "C12 C29"},
}
ALL = ["C%02d" % i for i in range(1, 31)]
SKIP_CALLS = {"print", "add_argument", "ArgumentParser", "time", "savetxt_header"}


def sites(tree):
    """All (path, new node, description); path = list of (field, index)."""
    out = []

    def skip(node):
        if isinstance(node, ast.Call):
            f = node.func
            n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            return n in SKIP_CALLS
        return False

    def visit(node, path, fn):
        if isinstance(node, (ast.FunctionDef,)):
            fn = node.name
        if skip(node):
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for o in alt.get(type(node.ops[0]), []):
                new = copy.deepcopy(node)
                new.ops = [o()]
                out.append((path, new, fn, "compare"))
        if isinstance(node, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
            o = alt.get(type(node.op))
            if o and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                new = copy.deepcopy(node)
                new.op = o()
                out.append((path, new, fn, "binop"))
        if isinstance(node, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            o = alt.get(type(node.op))
            if o:
                new = copy.deepcopy(node)
                new.op = o()
                out.append((path, new, fn, "augop"))
                out.append((path, ast.Assign(targets=[copy.deepcopy(node.target)], value=copy.deepcopy(node.value), lineno=1), fn, "aug to assign"))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)) and not (isinstance(node.op, ast.USub) and isinstance(node.operand, ast.Constant) and False):
            out.append((path, copy.deepcopy(node.operand), fn, "drop unary"))
        if isinstance(node, ast.BoolOp):
            new = copy.deepcopy(node)
            new.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            out.append((path, new, fn, "boolop"))
        if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None and node.value is not Ellipsis:
            v = node.value
            if isinstance(v, bool):
                out.append((path, ast.Constant(not v), fn, "bool"))
            elif isinstance(v, int):
                out.append((path, ast.Constant(v + 1), fn, "const+1"))
                if v > 0:
                    out.append((path, ast.Constant(v - 1), fn, "const-1"))
            elif isinstance(v, (float, complex)):
                out.append((path, ast.Constant(v * 1.5 if v else 0.5), fn, "const"))
        if isinstance(node, ast.Call):
            n = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
            if n in ("conj", "sorted", "copy", "deepcopy", "abs", "real", "ravel", "tuple", "list", "frozenset", "set", "array", "transpose", "unique", "argsort", "sqrt", "exp") and len(node.args) >= 1:
                out.append((path, copy.deepcopy(node.args[0]), fn, "drop call " + n))
            for i in range(len(node.args) - 1):
                a, b = node.args[i], node.args[i + 1]
                if isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id != b.id:
                    new = copy.deepcopy(node)
                    new.args[i], new.args[i + 1] = new.args[i + 1], new.args[i]
                    out.append((path, new, fn, "swap arguments"))
            for i, k in enumerate(node.keywords):
                if k.arg:
                    new = copy.deepcopy(node)
                    del new.keywords[i]
                    out.append((path, new, fn, "drop keyword " + k.arg))
        if isinstance(node, ast.Attribute) and node.attr in ("T", "real", "imag") and isinstance(node.ctx, ast.Load):
            out.append((path, copy.deepcopy(node.value), fn, "drop ." + node.attr))
        if isinstance(node, (ast.If, ast.IfExp)):
            for v in (True, False):
                new = copy.deepcopy(node)
                new.test = ast.Constant(v)
                out.append((path, new, fn, "if %s" % v))
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and not skip(node.value):
            out.append((path, ast.Pass(), fn, "drop statement"))
        if isinstance(node, (ast.Raise, ast.Assert, ast.Continue, ast.Break)):
            out.append((path, ast.Pass(), fn, "drop " + type(node).__name__))
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            for f in ("lower", "upper", "step"):
                if getattr(node.slice, f) is not None:
                    new = copy.deepcopy(node)
                    setattr(new.slice, f, None)
                    out.append((path, new, fn, "drop slice " + f))
        for field, val in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(val, ast.AST):
                visit(val, path + [(field, None)], fn)
            elif isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            continue  # docstring
                        visit(x, path + [(field, i)], fn)

    visit(tree, [], "")
    return out


def apply(tree, path, new):
    tree = copy.deepcopy(tree)
    node = tree
    for f, i in path[:-1]:
        node = getattr(node, f) if i is None else getattr(node, f)[i]
    f, i = path[-1]
    if i is None:
        setattr(node, f, new)
    else:
        getattr(node, f)[i] = new
    return ast.fix_missing_locations(tree)


def node_at(tree, path):
    for f, i in path:
        tree = getattr(tree, f) if i is None else getattr(tree, f)[i]
    return tree


def everything(pattern, stride=1, offset=0):
    out, number = [], -1
    fs = [os.path.relpath(f, REPO) for f in glob.glob(REPO + "/impurityModel/**/*.py", recursive=True)]
    for f in sorted(fs):
        if os.path.basename(f) not in FIRST or "/test/" in f or not fnmatch.fnmatch(f, pattern):
            continue
        src = open(os.path.join(REPO, f)).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for path, new, fn, kind in sites(tree):
            number += 1
            if number % stride != offset:
                continue
            t = apply(tree, path, new)
            try:
                text = ast.unparse(t)
                compile(text, f, "exec")
            except Exception:
                continue
            if text != base:
                old = node_at(tree, path)
                out.append((f, fn, kind, getattr(old, "lineno", 0), ast.unparse(old).split("\n")[0][:90], ast.unparse(ast.fix_missing_locations(new)).split("\n")[0][:90], text))
    return out


def one(m, workers, tmpdir, only=None, plan=False):
    f, fn, kind, line, old, new, text = m
    tmp = tempfile.mkdtemp(prefix="mut_", dir=tmpdir)
    t0 = time.time()
    try:
        shutil.copytree(REPO, tmp + "/repo", ignore=shutil.ignore_patterns(".git", "referenceOutput_"))
        with open(os.path.join(tmp, "repo", f), "w") as fh:
            fh.write(text)
        env = dict(os.environ, REPO=tmp + "/repo", VERIF_OUT=tmp + "/out", VERIF_SEED="1")
        os.makedirs(tmp + "/out", exist_ok=True)
        order = FIRST[os.path.basename(f)].split()
        if plan:
            todo = PLAN.get(os.path.basename(f), {})
            order = todo[fn].split() if fn in todo else ["C13", "C14"] if f.endswith("finite.py") else order
        order += [c for c in (ALL if only is None else only) if c not in order]
        for c in order:
            try:
                r = subprocess.run([V + "/check", c, "--jobs", str(workers)], env=env, cwd=V, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return dict(killed=c, how="timeout", t=time.time() - t0)
            if r.returncode == 1:
                what = [x for x in r.stdout.splitlines() if x.startswith("what:")]
                return dict(killed=c, how=(what or [""])[0][:160], t=time.time() - t0)
            if r.returncode:
                return dict(killed=c, how="status %d %s" % (r.returncode, (r.stdout + r.stderr)[-200:]), t=time.time() - t0)
        return dict(killed=None, t=time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["list", "run", "show"])
    ap.add_argument("out", nargs="?")
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--files", default="*")
    ap.add_argument("--only-first", action="store_true")
    ap.add_argument("--plan", action="store_true")
    a = ap.parse_args()
    ms = everything(a.files, a.stride, a.offset)
    if a.what == "list":
        import collections

        for k, v in sorted(collections.Counter((m[0], m[1]) for m in ms).items()):
            print(v, *k)
        print(len(ms))
        return
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(x)["m"]) for x in open(a.out)}
    todo = [m for m in ms if m[:6] not in done]
    print(len(todo), "of", len(ms), flush=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fh:
        fut = {ex.submit(one, m, a.workers, "/tmp", [] if a.only_first or a.plan else None, a.plan): m for m in todo}
        for f in cf.as_completed(fut):
            r = f.result()
            r["m"] = fut[f][:6]
            fh.write(json.dumps(r) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
