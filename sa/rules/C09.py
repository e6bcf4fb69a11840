"""Catalog records are applied in full or refused when the log is read back."""
import re
from ..engine import Engine, G
from ..restore import RestoreSpec, ValueSpec, MergeSpec, REQS, FIELD, table

RX_T = re.compile(r"engine::txn::gns::\w+::(\w+)")


def run(prog, res, tier):
    res.rule("(1) On every path through the decoder of each of the catalog's record types that reports success, exactly the change the record stands for was made to the spaces, models or accounts, no step of it failed (name taken, object or field missing), the ids of the objects a drop or model alteration names were compared equal, and no bytes of the record were left over. (2) The decoder at position n of the dispatch table is the one of the record type that is written with code n. (3) Merging a property patch, live or on replay, changes the target for every entry of the patch.")
    codes = {}
    for i in prog.find_insts(r"::md$"):
        if "GNSEventLog" not in i.path and "GNSEventLog" not in i.args:
            continue
        m = RX_T.search(i.args)
        if not m:
            continue
        v = ValueSpec(prog)
        Engine(prog, v).run(i, None)
        codes[m.group(1)] = v.out
    res.floor("record_types_written", len(codes), len(REQS), "record types written to the catalog log")
    tables = [i for i in prog.insts.values() if re.search(r"GNSEventLog as .*EventLogSpec>::DECODE_DISPATCH$", i.path)]
    res.floor("dispatch_tables", len(tables), 1, "decode tables")
    roots = {}
    for t in tables:
        for n, fid in enumerate(table(prog, t)):
            f = prog.insts.get(fid)
            m = RX_T.search(f.args) if f is not None else None
            res.oblige(m is not None, "table:%d" % n, "entry %d of the catalog's decode table is not the decoder of a record type" % n)
            if not m:
                continue
            roots[m.group(1)] = f
            w = codes.get(m.group(1), set())
            res.oblige(w == {("k", n)}, "code:" + m.group(1), "records of type %s are written with code %s but read back as code %d" % (m.group(1), sorted(w, key=str), n))
    for t in sorted(REQS):
        if not res.oblige(t in roots, "no-decoder:" + t, "there is no decoder for %s records" % t):
            continue
        s = RestoreSpec(prog, t)
        e = Engine(prog, s)
        e.run(roots[t], (frozenset(), None, False, frozenset()))
        res.merge_engine(e)
        if t in FIELD:
            res.oblige(("fields", FIELD[t]) in s.made, "no-field-change:" + t, "no path through the decoder of %s performs the field %s" % (t, FIELD[t]))
        if t == "DropSpaceTxn":
            res.oblige(("models", "del") in s.made, "no-model-drop:" + t, "dropping a space on replay does not drop its models")
        res.sample("%s: %s" % (t, sorted(s.made)))
    ms = MergeSpec(prog)
    e = Engine(prog, ms)
    for i in prog.find_insts(r"engine::data::dict::rmerge_data_with_patch$"):
        e.run(i, False, [G("cur"), G("patch")])
    res.merge_engine(e, "_merge")
    res.floor("merge_steps", ms.n, 2, "steps of a property merge")
