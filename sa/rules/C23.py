"""Files of spaces and models."""
import re
from ..engine import Engine
from ..catalog import exec_roots
from .. import files as F


def run(prog, res, tier):
    res.rule("Provenance of paths: every call that creates, opens, renames or deletes a file or directory is found, from the statement handlers, from the start of the process and in the service that carries out deletions, and the text its path is made of is followed through the functions that build it, with the names and ids of the object in hand kept apart.")
    st, e1 = F.Statement(prog), None
    eng = Engine(prog, st)
    for r in exec_roots(prog):
        eng.run(r, st.start)
    res.merge_engine(eng, "_statements")
    up = F.Startup(prog)
    e2 = Engine(prog, up)
    up.apart = {i.id for i in prog.insts.values() if re.search(r"FractalMgr::(general|hp)_executor_svc::\{closure|^engine::core::exec::", i.body.path)}
    for r in prog.find_insts(r"^entrypoint$"):
        e2.run(r, None)
    for r in prog.find_insts(r"^engine::start::\{closure#0\}$"):
        e2.run(r, None)
    res.merge_engine(e2, "_startup")
    wk = F.Worker(prog)
    e3 = Engine(prog, wk)
    ws = prog.find_insts(r"FractalMgr::general_executor_svc::\{closure#0\}$")
    for r in ws:
        e3.run(r, None)
    res.merge_engine(e3, "_service")
    for s, ks in ((st, ("create_dir", "new", "scheduled", "object", "create-modelC", "create-modelF", "create-spaceC", "create-spaceF", "drop-modelC", "drop-spaceC")), (up, ("open",)), (wk, ("receive", "remove_dir_all"))):
        for k in ks:
            res.floor("%s_%s" % (type(s).__name__.lower(), k), s.n.get(k, 0), 1, "%s events in the analysis of the %s" % (k, {"Statement": "statements", "Startup": "start", "Worker": "service"}[type(s).__name__]))
    # the same path wherever a file or directory is made, opened or deleted
    def paths(s, op, names):
        return {p: w for (o, p), w in s.seen.items() if o == op and F.shape(p) == names}
    mod, spc = frozenset(F.NAMES), frozenset(F.SELF)
    reach = prog.reach_fwd([r.id for r in prog.find_insts(r"^main$|^entrypoint$|^engine::start::\{closure#0\}$")] + [r.id for r in exec_roots(prog)] + [r.id for r in ws])
    made = paths(st, "new", mod)
    res.floor("model_files", len(made), 1, "data files made for models")
    for s in (up,):
        for op, do in (("open", "opened"), ("new", "created")):
            for p, w in paths(s, op, mod).items():
                res.oblige(p in made, "path-differs:%s" % op, "at startup a model's file is %s under %s, which is not where CREATE MODEL makes it (%s)" % (do, p, ", ".join(made)), w)
    res.floor("model_files_opened", len(paths(up, "open", mod)), 1, "data files opened at startup")
    dm = {**paths(st, "create_dir", mod)}
    ds = {**paths(st, "create_dir", spc)}
    for d, w in dm.items():
        res.oblige(any(d.startswith(x + "/") for x in ds), "model-outside-space", "the directory of a model (%s) is not within that of its space" % d, w)
    for names, have in ((mod, dm), (spc, ds)):
        for p, w in paths(st, "scheduled", names).items():
            res.oblige(p in have, "schedules-other:%s" % ("model" if names is mod else "space"), "the directory scheduled for deletion (%s) is not the one that was made" % p, w)
    # nothing else touches files
    done = st.sites | up.sites | wk.sites
    for i in prog.insts.values():
        for bb, b in enumerate(i.body.blocks):
            if b["t"][0] == "call" and not b.get("cl"):
                c = prog.callee(i, bb)
                k = st.kind(c)
                if k in F.EFFECT - {"read", "read_to_string"} or k in ("fut", "create", "create_new"):
                    res.count("file_effects", 1)
                    if (i.body.path, c.path) not in done and i.id in reach:
                        res.violation("unexamined:%s@%s" % (c.path, i.body.path), "`%s` is called where its path could not be followed" % c.path, i.body.path)
    for s in (st, up, wk):
        for k, v in sorted(s.n.items()):
            if "%s_%s" % (type(s).__name__.lower(), k) in res.counts:
                continue
            res.count("%s_%s" % (type(s).__name__.lower(), k), v)
    for k, v in list(st.seen.items()) + list(up.seen.items()):
        res.sample("%s %s in %s" % (k + (v,)))
