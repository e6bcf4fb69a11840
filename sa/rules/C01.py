"""DDL is write-ahead."""
from ..engine import Engine
from ..catalog import CatalogSpec, exec_roots


def run(prog, res, tier):
    res.rule("Typestate over all paths from the statement dispatcher: every change of the in-memory spaces/models is preceded, on its path, by the success branch of a system-journal commit whose event type describes that change; a failed commit never leads to a success response; a committed event is applied before returning.")
    spec = CatalogSpec(prog, {"spaces", "models", "Space", "ModelData"})
    eng = Engine(prog, spec)
    roots = exec_roots(prog)
    res.floor("roots", len(roots), 15, "statement handlers")
    for r in roots:
        eng.run(r, ("N", None, frozenset()))
    res.merge_engine(eng)
    res.floor("commit_sites", len(spec.commits), 9, "commit sites")
    res.floor("mutation_sites", len(spec.muts), 10, "mutation sites")
    for c in sorted(spec.commits):
        res.sample("commit %s in %s" % c)
    for c in sorted(spec.muts):
        res.sample("mutation %s in %s" % c)
