"""Statements that only read change nothing and see a consistent state."""
import re
from ..engine import Engine, G
from .. import dml, reads, catalog, schema


def run(prog, res, tier):
    res.rule("(1) No function reachable from the executor of a reading statement makes a change (catalog, accounts, rows, logs, queues). (2) On every path of SELECT, rows are read while the index latch is held exclusively (SELECT ALL) and each row under its own lock; the cell written for a column is that column's own field of the row, or its key for the primary key alone; the number of columns announced is the number of cells written; INSERT and DELETE change the row index only under its latch.")
    # no effects
    skip = {i.id for i in schema.resolvers(prog)}
    got = {}
    for i in catalog.exec_roots(prog):
        ks = {reads.READ[t] for t in reads.parsed(prog, i) if t in reads.READ}
        if not ks:
            continue
        k = sorted(ks)[0]
        got.setdefault(k, []).append(i)
        seen, todo, how = {i.id}, [i.id], {}
        while todo:
            x = todo.pop()
            inst = prog.insts[x]
            for bb, b in enumerate(inst.body.blocks):
                if b["t"][0] == "call" and not b.get("cl"):
                    c = prog.callee(inst, bb)
                    w = reads.effect(prog, inst, c)
                    res.count("call_sites", 1)
                    if w:
                        chain, y = [], x
                        while y is not None:
                            chain.append(prog.insts[y].body.path)
                            y = how.get(y)
                        res.violation("effect:%s:%s" % (k, w.split(" (")[0].replace(" ", "-")), "a statement that only reads (%s) %s (through %s)" % (k, w, " <- ".join(chain[:6])),
                                      "%s:%s" % (inst.body.file, c.line) if hasattr(inst.body, "file") else inst.body.path)
            for y in prog.callees(inst):
                if y.id not in seen and y.id not in skip:
                    seen.add(y.id)
                    how[y.id] = x
                    todo.append(y.id)
        res.count("functions_reached", len(seen))
        res.sample("%s: %s reaches %d functions" % (k, i.body.path, len(seen)))
    for k in ("sel", "sela", "inspect", "use"):
        res.floor("entries_" + k, len(got.get(k, ())), 1, "executor entries for %s" % k)
    # the row set
    for kind in ("ins", "upd", "del", "sel", "sela"):
        tot = {}
        for i, k in dml.roots(prog, kind):
            s = reads.Latch(prog, kind)
            e = Engine(prog, s)
            e.run(i, "")
            res.merge_engine(e, "_latch")
            for a, v in s.n.items():
                tot.setdefault(a, set()).update(v)
        for w in {"ins": ("change",), "del": ("change",), "sela": ("scan", "latchX")}.get(kind, ()):
            res.floor("%s_%s" % (kind, w), len(tot.get(w, ())), 1, "%s events" % w)
    # what is sent
    enc = reads.encoders(prog)
    res.floor("encoders", len(enc), 1, "functions that encode a cell")
    for kind in ("sel", "sela"):
        tot = {}
        for i, k in dml.roots(prog, kind):
            s = reads.Result(prog, kind, enc)
            e = Engine(prog, s)
            e.run(i, (0, 0, None, None, None))
            res.merge_engine(e, "_result")
            for a, v in s.n.items():
                tot.setdefault(a, set()).update(v)
        for w in ("lock", "field", "cell", "ok") + (("lookup",) if kind == "sel" else ("rows",)):
            res.floor("%s_%s" % (kind, w), len(tot.get(w, ())), 1, "%s events" % w)
        res.sample({k: len(v) for k, v in tot.items()})
