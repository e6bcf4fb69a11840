"""User management is write-ahead."""
from ..engine import Engine
from ..catalog import CatalogSpec, exec_roots


def run(prog, res, tier):
    res.rule("Typestate over all paths from the statement handlers: every change of the in-memory user table is preceded, on its path, by the success branch of a system-journal commit whose event type describes that change; a failed commit never leads to a success response; a committed event is applied before returning.")
    spec = CatalogSpec(prog, {"users", "User"})
    eng = Engine(prog, spec)
    roots = exec_roots(prog)
    res.floor("roots", len(roots), 15, "statement handlers")
    for r in roots:
        eng.run(r, ("N", None, frozenset()))
    res.merge_engine(eng)
    res.floor("commit_sites", len([c for c in spec.commits if "User" in c[0]]), 3, "user commit sites")
    res.floor("mutation_sites", len([c for c in spec.muts if c[0][0] in spec.kinds]), 3, "user mutation sites")
    for c in sorted(spec.commits):
        res.sample("commit %s in %s" % c)
    for c in sorted(spec.muts):
        res.sample("mutation %s in %s" % c)
