"""Rows follow the schema of their model."""
import re
from ..engine import Engine, G
from .. import schema, dml
from ..restore import table


def run(prog, res, tier):
    res.rule("Every function that takes a row's cells to show, change or log them first brings the row to the model's current schema; every schema change is recorded in the model's delta log under a version greater than all before; the resolver applies exactly the changes newer than the row's version, each as recorded, and then sets the version; the decoders of row batches map columns to fields by the schema version the row was written under.")
    rs = schema.resolvers(prog)
    res.floor("resolvers", len(rs), 1, "functions that bring a row to the current schema")
    for i in rs:
        s = schema.Resolve(prog)
        e = Engine(prog, s)
        e.run(i, (True if i.body.argc == 2 else None, None, None, None, None, 0, 0))
        res.merge_engine(e, "_resolve")
        for k in ("range", "next", "add", "rem", "version"):
            res.floor("resolve_" + k, len(s.n.get(k, ())), 1, "%s steps" % k)
    # columns as of a version
    cs = [i for i in prog.insts.values() if not i.body.kind.startswith("Closure") and prog.tys(prog.lty(i, 0)) == "std::vec::Vec<%s>" % schema.RAW
          and [prog.tys(prog.lty(i, k)) for k in range(1, i.body.argc + 1)] == ["&" + schema.MD, schema.DV]]
    res.floor("column_functions", len(cs), 1, "functions yielding the columns at a schema version")
    for i in cs:
        s = schema.Columns(prog)
        e = Engine(prog, s)
        e.run(i, (None, None, False, None), args=[None, G("ver")])
        res.merge_engine(e, "_columns")
        for k in ("range", "next", "insert"):
            res.floor("columns_" + k, len(s.n.get(k, ())), 1, "%s steps" % k)
    # changes to the fields of a model
    rs = [i for i in prog.insts.values() if not i.body.kind.startswith("Closure") and "{closure" not in i.body.path
          and any(prog.tys(prog.lty(i, k)).startswith("engine::ql::ddl::alt::AlterModel") for k in range(1, i.body.argc + 1))
          and prog.tys(prog.lty(i, 0)).startswith("std::result::Result<()")]
    res.floor("alter_handlers", len(rs), 1, "handlers of ALTER MODEL")
    for t in [i for i in prog.insts.values() if re.search(r"GNSEventLog as .*EventLogSpec>::DECODE_DISPATCH$", i.path)]:
        for fid in table(prog, t):
            f = prog.insts.get(fid)
            if f is not None and re.search(r"engine::txn::gns::model::AlterModel(Add|Remove)Txn", f.args):
                rs.append(f)
    tot = {}
    for i in rs:
        s = schema.Record(prog)
        e = Engine(prog, s)
        e.run(i, (None, None, 0))
        res.merge_engine(e, "_record")
        res.sample("schema changes: %s %s" % (i.body.path, i.args[:60]))
        for k in ("add", "rem", "delta", "bump"):
            tot.setdefault(k, set()).update((i.id, x) for x in s.n.get(k, ()))
    for k, n in (("add", 2), ("rem", 2), ("delta", 3), ("bump", 1)):
        res.floor("record_" + k, len(tot.get(k, ())), n, "%s steps" % k)
    todo, lvl = schema.recorders(prog), 0
    res.floor("recorders", len(todo), 1, "functions recording schema changes")
    cs = prog.callers()
    while todo and lvl < 4:
        nx = []
        for i in todo:
            s = schema.Record(prog, inner=True)
            e = Engine(prog, s)
            e.run(i, (None, None, 0), args=[("r", "self", (), 1)] + [None] * (i.body.argc - 1))
            if s.unknown:
                nx += [x for x in cs.get(i.id, ())]
            else:
                res.merge_engine(e, "_delta")
        todo, lvl = nx, lvl + 1
    res.oblige(not todo, "delta-version", "the version a schema change is recorded under cannot be determined")
    # rows in statements and in the log writer
    jobs = []
    for kind in ("ins", "upd", "sel", "sela"):
        for i, k in dml.roots(prog, kind):
            jobs.append((kind, i, "make", False))
    for i in prog.insts.values():
        if re.search(r"JournalAdapterEvent<.*>>::write_direct$", i.body.path) and "ModelDataAdapter" in i.path:
            jobs.append(("log", i, "make", "FullModel" in i.path))
    rr = schema.restore_roots(prog)
    res.floor("restore_functions", len(rr), 2, "functions restoring the rows of a batch")
    for i in rr:
        jobs.append(("restore", i, "restore", False))
    tot = {}
    for kind, i, mode, full in jobs:
        s = schema.Rows(prog, mode, full)
        e = Engine(prog, s)
        e.run(i, (0, None, False, frozenset()))
        res.merge_engine(e, "_rows")
        res.sample("rows (%s): %s" % (kind, i.body.path))
        for k, v in s.n.items():
            tot.setdefault(kind, {}).setdefault(k, set()).update(v)
    for kind, ks in (("ins", ("made",)), ("upd", ("resolve", "read")), ("sel", ("resolve", "read")), ("sela", ("resolve", "read")), ("log", ("resolve_if", "read")),
                     ("restore", ("made", "resolve", "insert", "field", "columns"))):
        for k in ks:
            res.floor("%s_%s" % (kind, k), len(tot.get(kind, {}).get(k, ())), 1, "%s steps" % k)
    # models written anew when migrating
    ms = [i for i in prog.insts.values() if i.path.startswith("engine::storage::") and not i.body.kind.startswith("Closure") and "{closure" not in i.body.path
          and any(prog.tys(prog.lty(i, k)) == "engine::core::GNSData" for k in range(1, i.body.argc + 1)) and "Result<" in prog.tys(prog.lty(i, 0))]
    n = 0
    for i in ms:
        s = schema.Migrate(prog)
        e = Engine(prog, s)
        e.run(i, (0, 0, None))
        res.merge_engine(e, "_migrate")
        n += len(s.n.get("dump", ()))
    res.floor("migrations", n, 1, "places that write a whole model")
