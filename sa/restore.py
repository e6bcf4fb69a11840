"""Applying catalog records when the log is read back (C09)."""
import re
from .engine import Spec, Outcome, V, G, K, TRUE, FALSE
from .catalog import map_event, stmt_event, REQ

RX_SCAN = re.compile(r"mem::scanner::Scanner(::<.*>)?::(\w+)$")
RX_PREP = re.compile(r"engine::data::dict::rprepare_metadata_patch$")
RX_MERGE = re.compile(r"engine::data::dict::rmerge_data_with_patch$")
DICT = "engine::data::dict::DictEntryGeneric"
SCAN_PEEK = {"eof", "has_left", "rounded_eq", "remaining", "new", "cursor", "rounded_cursor_value", "rounded_cursor", "current_buffer", "buffer", "inner_buffer", "full_buffer"}
REQS = {k: (set(v[0]), set(v[1])) for k, v in REQ.items()}
REQS["AlterSpaceTxn"][0].add(("Space", "env"))      # an env key removed by the patch is put back, as when the statement ran
FIELD = {"AlterModelAddTxn": "insert", "AlterModelRemoveTxn": "delete", "AlterModelUpdateTxn": "update"}
SAME = {"DropSpaceTxn": {"space"}, "AlterModelAddTxn": {"space", "model"}, "AlterModelRemoveTxn": {"space", "model"},
        "AlterModelUpdateTxn": {"space", "model"}, "DropModelTxn": {"space", "model"}}
GM = "engine::storage::common_encoding::r1::impls::gns"


def field_event(c):
    """(insert|delete|update) on the field list of an existing model"""
    m = re.search(r"IndexSTSeqDll<.*STIndex.*>::st_(insert|delete|update|get_mut)\w*$", c.path or "")
    if m and c.inst is not None and c.inst.args.startswith("engine::mem::rawslice::RawStr | engine::core::model::Field |"):
        return m.group(1)
    return None


def field_set(prog, inst, st):
    """a field of a model is overwritten through a reference"""
    pl = st[1]
    return st[0] == "=" and len(pl) == 2 and pl[1] == "*" and re.sub(r"'\w+ ", "", prog.tys(prog.lty(inst, pl[0]))) == "&mut engine::core::model::Field"


class RestoreSpec(Spec):
    """aut = (changes made, conflict met, everything read, identities compared equal)"""
    name = "restore"
    tagging = True
    field_tags = {("engine::core::space::Space", "uuid"): "space", ("engine::core::model::ModelData", "uuid"): "model",
                  (GM + "::SpaceIDRes", "uuid"): "rec", (GM + "::model::ModelIDRes", "model_uuid"): "rec"}

    def __init__(self, prog, txn):
        super().__init__(prog)
        self.txn = txn
        self.need, self.may = REQS[txn]
        self.made = set()

    def field(self, c):
        return field_event(c) if self.txn != "CreateModelTxn" else None

    def scan(self, c):
        m = RX_SCAN.search(c.path or "")
        return m.group(2) if m else None

    def is_event_call(self, c):
        return bool(map_event(c) or self.field(c) or self.scan(c) or RX_PREP.search(c.path or "") or RX_MERGE.search(c.path or "") or self.hashset(c) or self.dict_insert(c))

    def dict_insert(self, c):
        """an insertion into a property map"""
        p = c.path or ""
        if c.ext is None:
            return bool(re.search(r"STIndex<.*st_(insert|upsert)$", p)) and c.inst is not None and DICT in c.inst.args.split(" | ")
        return DICT in (c.selfty or "") and p.rsplit("::", 1)[-1] in ("insert", "or_insert", "or_insert_with")

    def hashset(self, c):
        return bool(re.search(r"HashSet::<.*>::remove$", c.path or "")) and c.ext is not None

    def has_stmt_event(self, inst):
        return any(stmt_event(s) or self.reads_id(s) or field_set(self.prog, inst, s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    def reads_id(self, st):
        s = str(st)
        return any("'n': '%s', 'o': '%s'" % (n, o) in s for o, n in self.field_tags)

    def on_call(self, ctx, c, args):
        muts, conflict, eof, same = ctx.aut
        s = self.scan(c)
        if s:
            if s == "eof":
                return [Outcome((muts, conflict, True, same), TRUE), Outcome((muts, conflict, False, same), FALSE)]
            if s in SCAN_PEEK:
                return [Outcome(ctx.aut, None)]
            return [Outcome((muts, conflict, False, same), None)]
        if RX_PREP.search(c.path or ""):
            return [Outcome(ctx.aut, V(1, None)), Outcome((muts, "Space.props", eof, same), V(0))]
        if RX_MERGE.search(c.path or ""):
            return [Outcome((muts | {("Space", "props")}, conflict, eof, same), None)]
        if self.dict_insert(c):
            return [Outcome((muts | {("Space", "env")} if ("Space", "props") in muts else muts, conflict, eof, same), None)]
        if self.hashset(c):
            return [Outcome(ctx.aut, TRUE), Outcome((muts, "Space.models", eof, same), FALSE)]
        ev = map_event(c)
        f = self.field(c)
        if f:
            ev = ("fields", f)
        if not ev:
            return None
        if f == "get_mut":
            return [Outcome(ctx.aut, V(1, None)), Outcome((muts, "fields.update", eof, same), V(0))]
        done = (muts | {ev}, conflict, eof, same)
        self.made.add(ev)
        opt = ev in self.may and ev not in self.need
        fail = ctx.aut if opt else (muts, "%s.%s" % ev, eof, same)
        n = c.path.rsplit("::", 1)[-1]
        e = c.selfty or ""
        if f or n in ("st_insert", "st_delete", "st_update"):
            return [Outcome(done, TRUE), Outcome(fail, FALSE)]
        if "Entry<" in e or n not in ("insert", "remove", "remove_entry", "st_delete_return", "st_update_return"):
            return [Outcome(done, None)]
        if n == "insert":
            return [Outcome(done, V(0)), Outcome(fail, V(1, None))]
        return [Outcome(done, V(1, None)), Outcome(fail, V(0))]

    def on_stmt(self, ctx, st):
        ev = stmt_event(st)
        if self.txn != "CreateModelTxn" and field_set(self.prog, ctx.inst, st):
            ev = ("fields", "update")
        if not ev or ev[0] == "ModelData" or (ev == ("Space", "uuid")):
            return None
        muts, conflict, eof, same = ctx.aut
        if ev == ("Space", "props") and ("Space", "props") not in muts:
            return None          # counted when the patch was merged
        self.made.add(ev)
        return (muts | {ev}, conflict, eof, same)

    def on_branch(self, ctx, op, a, b):
        if op != "Eq":
            return None
        muts, conflict, eof, same = ctx.aut
        for x, y in ((a, b), (b, a)):
            if "rec" in y:
                for k in ("space", "model"):
                    if k in x and k not in y:
                        return (muts, conflict, eof, same | {k})
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        muts, conflict, eof, same = ctx.aut
        t = self.txn
        if ret is not None and ret[0] == "v" and ret[1] == 1:
            return None
        if ret is None or ret[0] != "v":
            ctx.report("result-lost:" + t, "the outcome of applying %s is not returned" % t)
            return None
        if conflict:
            ctx.report("conflict-ignored:%s:%s" % (t, conflict), "a %s record that cannot be applied (%s failed) is accepted" % (t, conflict))
        need = {m for m in self.need if m[0] != "ModelData"}
        if need - muts and not conflict:
            ctx.report("not-applied:%s:%s" % (t, ",".join("%s.%s" % m for m in sorted(need - muts))), "a %s record is accepted without being applied (%s)" % (t, sorted(need - muts)))
        extra = {m for m in muts if m not in self.need and m not in self.may and not (m[0] == "fields" and m[1] == FIELD.get(t))}
        if extra:
            ctx.report("wrong-change:%s:%s" % (t, ",".join("%s.%s" % m for m in sorted(extra))), "applying a %s record also changes %s" % (t, sorted(extra)))
        if not eof:
            ctx.report("trailing-bytes:" + t, "a %s record with bytes left over is accepted" % t)
        if SAME.get(t, set()) - same:
            ctx.report("identity:%s:%s" % (t, ",".join(sorted(SAME[t] - same))), "a %s record is applied without comparing the id of the %s it names" % (t, ", ".join(sorted(SAME[t] - same))))
        return None


class ValueSpec(Spec):
    """collects the constants a function can return"""
    name = "value"

    def __init__(self, prog):
        super().__init__(prog)
        self.out = set()
        self._rel = set(prog.insts)

    def on_return(self, ctx, ret):
        if not ctx.stack:
            self.out.add(ret)
        return None


def table(prog, inst):
    """function instances of a constant dispatch table, in order"""
    by = {}
    for r in inst.reify:
        x = prog.insts[r]
        by.setdefault(x.args, []).append(r)
    defs, order = {}, None
    for b in inst.body.blocks:
        for s in b["s"]:
            if s[0] != "=":
                continue
            rv = s[2]
            if len(s[1]) == 1 and rv[0] == "cast":
                defs[s[1][0]] = rv[2]
            if rv[0] == "agg" and rv[1] == "array":
                order = rv[2]
    if order is None:
        return list(inst.reify)
    out = []
    for o in order:
        src = defs.get((o.get("m") or o.get("c") or [None])[0], o)
        k = src.get("k") or {}
        hit = None
        if k.get("fn"):
            for r in inst.reify:
                x = prog.insts[r]
                t = re.findall(r'"((?:[^"\\]|\\.)*)"', k.get("ga") or "")
                if (x.body.path == k["fn"] or x.body.path.endswith("::" + k["fn"].rsplit("::", 1)[-1])) and (not t or x.args == " | ".join(t)):
                    hit = r
        out.append(hit)
    return out


class MergeSpec(Spec):
    """each entry of a property patch changes the properties it is merged into; aut = an entry is waiting"""
    name = "merge"
    tagging = True

    def __init__(self, prog):
        super().__init__(prog)
        self.n = 0

    def kind(self, c):
        p = c.path or ""
        if RX_MERGE.search(p):
            return "rec"
        n = p.rsplit("::", 1)[-1]
        if c.ext is None:
            if re.search(r"STIndex<.*st_(insert|upsert|delete|update)\w*$", p) and c.inst is not None and DICT in c.inst.args.split(" | "):
                return "set"
            return None
        if DICT not in (c.selfty or ""):
            return None
        if n == "next" and "hash_map::" in c.selfty:
            return "next"
        if n in ("insert", "remove", "remove_entry", "or_insert", "or_insert_with", "entry", "insert_entry"):
            return "set"
        return None

    def is_event_call(self, c):
        return self.kind(c) is not None

    def on_call(self, ctx, c, args):
        k = self.kind(c)
        if k is None:
            return None
        self.n += 1
        if k == "next":
            if ctx.aut:
                ctx.report("patch-entry-lost", "an entry of a property patch can be skipped without changing the properties it is merged into")
            return [Outcome(True, V(1, ctx.eng.union(ctx.env, args))), Outcome(False, V(0))]
        mine = "cur" in ctx.eng.tags(ctx.env, args[0]) if args else False
        u = ctx.eng.union(ctx.env, args)
        return [Outcome(False if mine else ctx.aut, u if k == "set" and u and "cur" in u[1] and c.path.endswith("entry") else None)]

    def on_return(self, ctx, ret):
        if not ctx.stack and ctx.aut:
            ctx.report("patch-entry-lost", "an entry of a property patch can be skipped without changing the properties it is merged into")
        return None
