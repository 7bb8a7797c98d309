"""Regenerates MANIFEST.json: a check is claimed when mc/checks/<id>.py exists."""
import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
    "C01": "explicit-state exploration of the conversion graph against a bit-mask model",
    "C02": "explicit-state exploration of the Fock graph, all representations against a bit-mask model",
    "C03": "exhaustive enumeration of operator strings x states x restrictions x cut-offs against a model of the algebra",
    "C04": "exhaustive enumeration of call histories on a shared store against the store-free model",
    "C05": "exhaustive enumeration of bounded operators and states against their matrices",
    "C06": "exhaustive enumeration of shell and bath arrangements and labels against an enumerating model",
    "C07": "exhaustive enumeration of bounded basis requests against a filter over the whole Fock space",
    "C08": "explicit-state closure model against the real expansion: all hopping graphs x starts x restrictions x stores",
    "C09": "exhaustive enumeration of bounded operators and state lists through all construction modes",
    "C10": "exhaustive enumeration of shells, multipoles and matrix elements against exact rational Gaunt coefficients",
    "C11": "exhaustive enumeration over shells, unit parameters and directions against exact operators",
    "C12": "exhaustive enumeration of parameter choices and input files against a reference Hamiltonian",
    "C13": "exhaustive enumeration of all d-shell product states and pair superpositions x bath arrangements",
    "C14": "exhaustive enumeration of bounded energy/observable/temperature lists, printed tables read back",
    "C15": "exhaustive enumeration of bounded Hamiltonians x state counts x cut-offs x modes against dense diagonalisation",
    "C16": "exhaustive enumeration of Hamiltonians x start states x modes x Krylov sizes x call histories against the exact resolvent",
    "C17": "exhaustive enumeration of eigenstate/operator lists and permutations x modes against the exact resolvent",
    "C18": "exhaustive enumeration of operator/energy/eigenstate lists and permutations x modes against a dense Kramers-Heisenberg model",
    "C19": "exhaustive enumeration of shells, polarisations and matrix elements against exact angular integrals",
    "C20": "exhaustive enumeration of momentum directions, shells and multipoles against a plane-wave expansion",
    "C21": "exhaustive enumeration of task counts, rank counts and ranks",
    "C22": "stateless exploration of message schedules and buffering over virtual MPI ranks running the real code",
    "C23": "stateless exploration of message schedules and buffering over virtual MPI ranks running the real code",
    "C24": "stateless exploration of message schedules over virtual MPI ranks running the real code",
    "C25": "exhaustive enumeration of a bounded set of complete runs against an independent dense calculation",
    "C26": "exhaustive enumeration of file contents against recorded drawing calls",
    "C27": "exhaustive enumeration of bounded command lines against the documented acceptance rule",
    "C28": "exhaustive enumeration of call sequences on shared arguments against each call alone in a fresh process",
    "C29": "exhaustive enumeration of shipped scripts x arguments x ways of calling, executed with a recording launcher and driven into the real program",
    "C30": "exhaustive enumeration of a bounded grid of runs, the printed report parsed against exact values",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(V, "mc", "checks", i.lower() + ".py")
        if os.path.exists(f):
            doc = next(l for l in open(f)).strip()
            import ast

            doc = " ".join(ast.get_docstring(ast.parse(open(f).read())).split())
            doc = doc.split(": ", 1)[-1]
            checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique="model checking: " + TECH[i], level="model_checking",
                               level_note=doc))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks), "claimed", len(na), "not")


main()
