"""Rows and the schema versions of their model (C14)."""
import re
from .engine import Spec, Outcome, V, K, G, TRUE, FALSE, PRUNE, NEG

MD = "engine::core::model::ModelData"
DS = "engine::core::model::delta::DeltaState"
DV = "engine::core::model::delta::DeltaVersion"
PART = "engine::core::model::delta::SchemaDeltaPart"
KIND = "engine::core::model::delta::SchemaDeltaKind"
RD = "engine::core::index::row::RowData"
ROW = "engine::core::index::row::Row"
CELL = "engine::data::cell::Datacell"
RAW = "engine::mem::rawslice::RawStr"
RX_LOCK = re.compile(r"lock_api::RwLock::<R, T>::(\w+)$")
RX_GUARD = re.compile(r"lock_api::RwLock(?:Upgradable)?(?:Read|Write)Guard::<.*>::\w+$")
RX_ST = re.compile(r"(?:STIndex|HashMap::<.*>|IndexSTSeqDll<.*>|STIndex<.*>)(?:>)?::(st_\w+|insert|remove|clear|retain|drain|get_mut|entry|iter_mut|values_mut)$")
FLIP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}
IMPL = {"Lt": {"Lt", "Le", "Ne"}, "Gt": {"Gt", "Ge", "Ne"}, "Eq": {"Eq", "Le", "Ge"}, "Le": {"Le"}, "Ge": {"Ge"}, "Ne": {"Ne"}}


def self_of(c):
    s = c.selfty or (c.t0 if isinstance(c.t0, str) else "") or ""
    if not s and c.ga and len(c.ga) > 4:
        s = c.ga[2:].split('", "')[0].rstrip('"]')
    return s


def tail(c):
    return (c.path or "").rsplit("::", 1)[-1]


def row_fields(c):
    """operation on the field map of a row"""
    s = self_of(c)
    p, d = c.path or "", c.declared or ""
    t = d.rsplit("::", 1)[-1] if "STIndex" in d else tail(c)
    if c.inst is not None and "HashMap<K, V, S>" in p and c.inst.args.startswith("%s | %s |" % (RAW, CELL)):
        return t
    if "HashMap::<" in p and ("HashMap<%s, %s" % (RAW, CELL)) in s:
        return t
    return None


def model_fields(c):
    """operation on the ordered field list of a model"""
    if c.inst is not None and "IndexSTSeqDll" in (c.path or "") and c.inst.args.startswith("%s | engine::core::model::Field |" % RAW):
        return tail(c)
    return None


def delta_map(c):
    s = self_of(c)
    if "BTreeMap" in (c.path or "") and s.startswith("std::collections::BTreeMap<%s, %s" % (DV, PART)):
        return tail(c)
    return None


def delta_next(c):
    s = self_of(c)
    t = tail(c)
    if t in ("next", "next_back") and PART in s and "btree_map" in s:
        return "rev" if ("Rev<" in s) != (t == "next_back") else "fwd"
    return None


def field_place(st_place, adt, name):
    return any(isinstance(p, dict) and p.get("n") == name and p.get("o") == adt for p in st_place[1:])


def places(st):
    """places read by a statement"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            for k in ("c", "m"):
                if k in x and isinstance(x[k], list):
                    out.append(x[k])
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            if x and isinstance(x[0], str) and x[0] in ("ref", "addr", "len", "discr", "rawptr", "copyref") and len(x) > 1:
                for y in x[1:]:
                    if isinstance(y, list) and y and isinstance(y[0], int):
                        out.append(y)
            for y in x:
                walk(y)
    if st[0] == "=":
        walk(st[2])
    return out


def is_resolve(c):
    """brings a row to the current schema and returns it frozen"""
    return c.inst is not None and bool(re.search(r"row::Row::resolve_schema_deltas_and_freeze\w*$", c.path or ""))


def resolvers(prog):
    out = []
    for i in prog.insts.values():
        if i.body.kind.startswith("Closure") or "{closure" in i.body.path:
            continue
        a = [prog.tys(prog.lty(i, k)) for k in range(1, i.body.argc + 1)]
        if "&" + DS in a and "&" + ROW in a and "RwLockReadGuard<" in prog.tys(prog.lty(i, 0)) and RD in prog.tys(prog.lty(i, 0)):
            out.append(i)
    return out


class Resolve(Spec):
    """aut = (condition, up to date, iteration, pending change, version written, parity, mutated)"""
    name = "resolve"
    tagging = True
    count_steps = True
    field_tags = {(DS, "schema_current_version"): "scv", (RD, "txn_revised_schema_version"): "rsv"}

    def __init__(self, prog):
        super().__init__(prog)
        self._rel = set(prog.insts)
        self.n = {}

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.bb))

    def stop(self, inst):
        p = inst.body.path
        return "STIndex<" in p or p.endswith("Datacell::null")

    def on_call(self, ctx, c, args):
        cond, upto, it, pend, ver, par, mut = ctx.aut
        eng, env = ctx.eng, ctx.env
        d = c.declared or ""
        if re.search(r"ops::Fn(Mut|Once)?::call(_mut|_once)?$", d) and c.inst is not None and self.is_cond(c.inst):
            self.hit("condition", ctx)
            if self.always(c.inst):
                return [Outcome((True,) + ctx.aut[1:], TRUE)]
            return [Outcome((True,) + ctx.aut[1:], TRUE), Outcome((False,) + ctx.aut[1:], FALSE)]
        t = delta_map(c)
        if t == "range":
            first = self.first(eng, env, args[1] if len(args) > 1 else None)
            self.hit("range", ctx)
            if not first:
                ctx.report("range", "the schema changes applied to a row do not begin right after the version of the row")
            return [Outcome((cond, upto, "run", pend, ver, par, mut), G("deltas"))]
        if t in ("iter", "values", "into_iter"):
            return [Outcome((cond, upto, "run", pend, ver, par, mut), G("deltas"))]
        if t and t not in ("len", "is_empty", "get", "last_key_value", "contains_key"):
            ctx.report("delta-map:" + t, "applying the schema changes to a row alters the list of changes")
            return [Outcome(ctx.aut, None)]
        if re.search(r"Iterator::(rev|skip|step_by|take|filter|skip_while|take_while|filter_map)$", d or c.path or ""):
            tg = eng.tags(env, args[0]) if args else frozenset()
            if "deltas" in tg:
                ctx.report("order:" + tail(c), "the schema changes are not all applied to a row in order (%s)" % tail(c))
            return None
        n = delta_next(c)
        if n or (re.search(r"Iterator::next$", d) and args and "deltas" in eng.tags(env, args[0])):
            if n == "rev":
                ctx.report("order:rev", "the schema changes are applied to a row in reverse order")
            self.hit("next", ctx)
            self.check_pend(ctx)
            p2 = 1 - par
            item = lambda k: V(1, ("s", (("bx", G("did%d" % p2)), ("bx", ("s", (V(k, G("fname"), G("pos")),))))))
            return [Outcome((cond, upto, "done", None, ver, par, mut), V(0)),
                    Outcome((cond, upto, "run", "add", ver, p2, mut), item(self.vi("FieldAdd"))),
                    Outcome((cond, upto, "run", "rem", ver, p2, mut), item(self.vi("FieldRem")))]
        f = row_fields(c)
        if f:
            tg = [eng.tags(env, a) for a in args]
            if f in ("st_insert", "st_upsert", "insert"):
                self.hit("add", ctx)
                if len(tg) < 3 or "fname" not in tg[1] or pend != "add":
                    ctx.report("apply-add", "a field is set in a row that the schema change being applied did not add")
                elif "null" not in tg[2]:
                    ctx.report("apply-add-null", "a field added to a row by a schema change is not null")
                return [Outcome((cond, upto, it, None if pend == "add" else pend, ver, par, 1), None)]
            if f in ("st_delete", "st_delete_return", "remove", "remove_entry"):
                self.hit("rem", ctx)
                if len(tg) < 2 or "fname" not in tg[1] or pend != "rem":
                    ctx.report("apply-rem", "a field is taken from a row that the schema change being applied did not remove")
                return [Outcome((cond, upto, it, None if pend == "rem" else pend, ver, par, 1), None)]
            if f in ("st_contains", "st_get", "get", "st_len", "len", "contains_key"):
                return None
            ctx.report("apply-other:" + f, "bringing a row to the current schema also does %s to its fields" % f)
            return [Outcome(ctx.aut, None)]
        if (c.path or "").endswith("Datacell::null"):
            return [Outcome(ctx.aut, G("null"))]
        return None

    def is_cond(self, inst):
        """a closure over the row's data that yields a boolean"""
        p = self.prog
        return p.tys(p.lty(inst, 0)) == "bool" and any(RD in p.tys(p.lty(inst, k)) for k in range(1, inst.body.argc + 1))

    def always(self, inst):
        return len(inst.body.blocks) == 1 and any(s[0] == "=" and s[1] == [0] and s[2][0] == "use" and "k" in s[2][1] and s[2][1]["k"].get("v") in (1, "1", True, "true") for s in inst.body.blocks[0]["s"])

    def first(self, eng, env, v):
        if v is None:
            return False
        if v[0] == "s" and len(v[1]) == 2 and v[1][0] is not None and v[1][0][0] == "v":
            lo = v[1][0]
            t = eng.tags(env, lo[2][0]) if lo[2] else frozenset()
            return "rsv" in t and (lo[1] == 1 and "+1" not in t or lo[1] == 0 and "+1" in t)
        t = eng.tags(env, v)
        return "rsv" in t and "+1" in t and not any(x[0] in "+-&" and x != "+1" for x in t)

    def vi(self, name):
        for k, v in enumerate(self.prog.adts[KIND]["variants"]):
            if v["n"] == name:
                return k
        return 0

    def check_pend(self, ctx):
        pend = ctx.aut[3]
        if pend:
            ctx.report("skipped:" + pend, "a schema change (field %s) can be passed over without applying it to the row" % ("added" if pend == "add" else "removed"))

    def on_stmt(self, ctx, st):
        if st[0] == "=" and field_place(st[1], RD, "txn_revised_schema_version"):
            cond, upto, it, pend, ver, par, mut = ctx.aut
            v = ctx.eng.assigned(ctx, st)
            t = ctx.eng.tags(ctx.env, v)
            self.hit("version", ctx)
            new = "ok" if ("did%d" % par in t or "scv" in t and "rsv" not in t) and not any(x in ("+1", "-1") for x in t) else ("same" if "rsv" in t and not (t - {"rsv"}) else "bad")
            return (cond, upto, it, pend, new, par, mut)
        return None

    def has_stmt_event(self, inst):
        return False

    def on_branch(self, ctx, op, a, b):
        for x, y, o in ((a, b, op), (b, a, FLIP.get(op))):
            if "scv" in x and "rsv" in y and o and not any(z[0] in "+-" for z in x | y):
                if "Le" in IMPL.get(o, ()):
                    return ctx.aut[:1] + (1,) + ctx.aut[2:]
                return ctx.aut[:1] + (0,) + ctx.aut[2:]
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        cond, upto, it, pend, ver, par, mut = ctx.aut
        self.check_pend(ctx)
        if cond is False:
            if mut or ver:
                ctx.report("unasked", "a row is changed although the condition for it does not hold")
            return None
        if it is None:
            if not upto:
                ctx.report("unresolved", "a row is handed out although it may be behind the current schema of its model")
            if ver:
                ctx.report("version", "the schema version of a row is set without applying the changes")
            return None
        if it != "done":
            ctx.report("unresolved-rest", "not all schema changes are applied before the row is handed out")
        elif ver not in ("ok",) and (mut or par or ver == "bad"):
            ctx.report("version", "the schema version of a row is not set to the last change that was applied to it")
        return None


# ---- the names of the columns at a schema version

class Columns(Spec):
    """aut = (iteration, pending change, initial names taken, pk removed)"""
    name = "columns"
    tagging = True
    count_steps = True
    field_tags = {(MD, "fields"): "mfields", (MD, "p_key"): "pk"}

    def __init__(self, prog):
        super().__init__(prog)
        self._rel = set(prog.insts)
        self.n = {}
        self.cur = None

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.bb))

    def stop(self, inst):
        return "IndexSTSeqDll" in inst.body.path

    def vi(self, name):
        for k, v in enumerate(self.prog.adts[KIND]["variants"]):
            if v["n"] == name:
                return k
        return 0

    def on_call(self, ctx, c, args):
        it, pend, pk, eq = ctx.aut
        eng, env = ctx.eng, ctx.env
        d, p = c.declared or "", c.path or ""
        t = delta_map(c)
        tg = [eng.tags(env, a) for a in args]
        if t == "range":
            v = args[1] if len(args) > 1 else None
            ts = eng.tags(env, v)
            ok = "ver" in ts and "+1" in ts and not any(x[0] in "+-&" and x != "+1" for x in ts)
            if v is not None and v[0] == "s" and len(v[1]) == 2 and v[1][0] is not None and v[1][0][0] == "v":
                lo = v[1][0]
                ts = eng.tags(env, lo[2][0]) if lo[2] else frozenset()
                ok = "ver" in ts and (lo[1] == 1 and "+1" not in ts or lo[1] == 0 and "+1" in ts)
            if not ok:
                ctx.report("columns-range", "the changes undone to get the columns at a schema version are not those made after it")
            self.hit("range", ctx)
            return [Outcome(("run", pend, pk, eq), G("deltas"))]
        if t and t not in ("len", "is_empty", "iter"):
            ctx.report("columns-map:" + t, "working out the columns alters the list of changes")
        if re.search(r"Iterator::(rev|skip|step_by|take|filter|skip_while|take_while|filter_map)$", d or p) and tg:
            if "deltas" in tg[0]:
                if tail(c) == "rev":
                    return [Outcome(ctx.aut, G(*(tg[0] - {"rev"} if "rev" in tg[0] else tg[0] | {"rev"})))]
                ctx.report("columns-skip", "not every later change is undone (%s)" % tail(c))
            elif tail(c) == "filter" and it == "done":
                keep = self.keeps(ctx, c, args)
                if keep is not None and "pk" in keep:
                    return [Outcome((it, pend, True, eq), eng.union(env, args[:1]))]
            elif "mfields" in tg[0] and "filter" not in tail(c):
                ctx.report("columns-order", "the columns are not taken in the order of the fields (%s)" % tail(c))
            return None
        if (delta_next(c) or re.search(r"Iterator>?::next(_back)?$", d or p)) and tg and "deltas" in tg[0]:
            back = ("rev" in tg[0]) != (tail(c) == "next_back")
            self.hit("next", ctx)
            if not back:
                ctx.report("columns-forward", "later changes are undone in the order they were made, not in reverse")
            self.pend(ctx)
            item = lambda k: V(1, ("s", (("bx", G("did")), ("bx", ("s", (V(k, G("fname"), G("pos")),))))))
            return [Outcome(("done", None, pk, eq), V(0)), Outcome(("run", "add", pk, eq), item(self.vi("FieldAdd"))), Outcome(("run", "rem", pk, eq), item(self.vi("FieldRem")))]
        s = self_of(c)
        if p.startswith("std::vec::Vec::<") and s.startswith("std::vec::Vec<%s>" % RAW):
            if tail(c) == "retain":
                keep = self.keeps(ctx, c, args)
                self.hit("retain", ctx)
                if keep is not None and "fname" in keep:
                    if pend != "add":
                        ctx.report("columns-undo", "undoing the removal of a field drops it from the columns")
                    return [Outcome((it, None if pend == "add" else pend, pk, eq), None)]
                if keep is not None and "pk" in keep:
                    if it == "run":
                        ctx.report("columns-pk-early", "the primary key is dropped before positions of removed fields were used")
                    return [Outcome((it, pend, True, eq), None)]
                ctx.report("columns-retain", "the columns are filtered by something other than an undone change or the primary key")
                return [Outcome(ctx.aut, None)]
            if tail(c) == "insert":
                self.hit("insert", ctx)
                ok = pend == "rem" and len(tg) > 2 and "pos" in tg[1] and not any(x[0] in "+-&" for x in tg[1]) and "fname" in tg[2]
                if not ok:
                    ctx.report("columns-undo-rem", "a removed field is not put back under its name where it was")
                return [Outcome((it, None if pend == "rem" else pend, pk, eq), None)]
            if tail(c) == "remove" and pend == "add":
                return [Outcome((it, None, pk, eq), None)]
            if tail(c) in ("swap_remove", "clear", "truncate", "pop", "reverse", "sort", "dedup", "swap"):
                ctx.report("columns-op:" + tail(c), "the columns at a schema version are changed by %s" % tail(c))
        return None

    def keeps(self, ctx, c, args):
        """the tags of the one string an element must differ from to be kept"""
        for x in c.may or ():
            if "{closure" not in x.body.path:
                continue
            sub = Keep(self.prog)
            from .engine import Engine
            e = Engine(self.prog, sub)
            caps = None
            for a in args[1:]:
                v = a
                if v is not None and v[0] == "c":
                    caps = v
            clo = caps
            if clo is not None:
                clo = ("c", clo[1], tuple(G(*(ctx.eng.tags(ctx.env, y))) if y is not None else None for y in clo[2]))
            if clo is not None and self.prog.tys(self.prog.lty(x, 1)).startswith("&") or self.prog.types[self.prog.lty(x, 1)].get("k") == "ref":
                clo = ("bx", clo) if clo is not None else None
            r = e.run(x, None, args=[clo, G("elem")])
            out = set()
            ok = True
            for aut, ret in r:
                if aut is None or ret not in (TRUE, FALSE):
                    ok = False
                else:
                    out.add((aut, ret))
            if ok and out and all((ret == FALSE) == a[1] for a, ret in out):
                return frozenset().union(*[a[0] for a, _ in out])
        return None

    def pend(self, ctx):
        if ctx.aut[1]:
            ctx.report("columns-not-undone:" + ctx.aut[1], "a change made after the schema version is not undone")

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        self.pend(ctx)
        it, pend, pk, eq = ctx.aut
        if it != "done":
            ctx.report("columns-not-undone", "the changes made after the schema version are not all undone")
        if not pk:
            ctx.report("columns-pk", "the primary key is not left out of the columns")
        return None


class Keep(Spec):
    """truth of a filter over names; aut = (tags of the name compared with, equal)"""
    tagging = True
    count_steps = True
    field_tags = {(MD, "p_key"): "pk"}

    def __init__(self, prog):
        super().__init__(prog)
        self._rel = set(prog.insts)

    def on_call(self, ctx, c, args):
        n = (c.declared or c.path or "").rsplit("::", 1)[-1]
        if n in ("eq", "ne") and len(args) == 2:
            a, b = (ctx.eng.tags(ctx.env, x) for x in args)
            for x, y in ((a, b), (b, a)):
                if "elem" in x and "elem" not in y:
                    return [Outcome((y, True), TRUE if n == "eq" else FALSE), Outcome((y, False), FALSE if n == "eq" else TRUE)]
        return None


# ---- recording changes to the fields of a model

class Record(Spec):
    """aut = (change made and not recorded, change recorded and not made, position before)"""
    name = "record"
    tagging = True
    count_steps = True
    field_tags = {(MD, "fields"): "mfields", (DS, "schema_current_version"): "scv"}

    def __init__(self, prog, inner=False):
        super().__init__(prog)
        self.n = {}
        self.inner, self.unknown = inner, False

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.bb))

    def is_event_call(self, c):
        return bool(model_fields(c) or delta_map(c))

    def has_stmt_event(self, inst):
        return any(s[0] == "=" and (field_place(s[1], DS, "schema_current_version") or s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("adt") in (KIND, PART)) for b in inst.body.blocks if not b.get("cl") for s in b["s"]) or self.reads_tagged(inst)

    def on_call(self, ctx, c, args):
        made, rec, bump = ctx.aut
        eng, env = ctx.eng, ctx.env
        f = model_fields(c)
        if f:
            if not args or "mfields" not in eng.tags(env, args[0]):
                return None
            if f == "st_insert" or f in ("st_delete", "st_delete_return"):
                k = "add" if f == "st_insert" else "rem"
                self.hit(k, ctx)
                if made:
                    ctx.report("unrecorded:" + made, "a field is %s a model without recording it as a schema change" % ("added to" if made == "add" else "removed from"))
                if rec == k:
                    return [Outcome((None, None, bump), None)]
                return [Outcome((k, rec, bump), None)]
            if f in ("st_upsert", "st_update", "st_update_return", "st_clear", "clear") or f.startswith(("_insert", "__insert", "_remove", "_update")):
                ctx.report("reorder:" + f, "%s on the fields of a model can change the order of its columns without a schema change" % f)
                return [Outcome(ctx.aut, None)]
            if f in ("st_contains", "st_get", "st_get_mut", "st_get_cloned", "len", "st_len"):
                self.hit("other", ctx)
                return [Outcome(ctx.aut, None)] if f in ("st_contains",) else None
            return None
        t = delta_map(c)
        if t == "insert":
            part = args[2] if len(args) > 2 else None
            key = eng.tags(env, args[1]) if len(args) > 1 else frozenset()
            self.hit("delta", ctx)
            if self.inner:
                self.unknown = self.unknown or not key
                if key and ("scv" not in key or "+1" not in key or any(x[0] in "+-&" and x != "+1" for x in key)):
                    ctx.report("delta-version", "a schema change is not recorded under the version right after the current one")
            if bump == 2:
                ctx.report("bump-alone", "two schema changes are recorded for one step of the schema version")
            bump = 0 if bump == 1 else 2
            if self.inner:
                return [Outcome((None, None, bump), None)]
            kind = None
            v = part
            for _ in range(3):
                if v is not None and v[0] == "s" and v[1]:
                    v = v[1][0]
            if v is not None and v[0] == "v":
                vs = self.prog.adts[KIND]["variants"]
                kind = {"FieldAdd": "add", "FieldRem": "rem"}.get(vs[v[1]]["n"])
                if kind == "rem" and len(v[2]) > 1:
                    pt = eng.tags(env, v[2][1])
                    if "after" in pt or (v[2][1] is not None and v[2][1][0] == "k"):
                        ctx.report("position", "the position recorded for a removed field is not the one it had before it was removed")
            if kind is None:
                ctx.report("delta-kind", "the kind of a recorded schema change cannot be determined")
                return [Outcome((None, None, bump), None)]
            if made and made != kind:
                ctx.report("delta-kind", "a field %s is recorded as a field %s" % (("added", "removed") if made == "add" else ("removed", "added")))
            if rec:
                ctx.report("phantom:" + rec, "a schema change is recorded without the fields being changed")
            if made == kind:
                return [Outcome((None, None, bump), None)]
            return [Outcome((None, kind, bump), None)]
        if t and t not in ("len", "is_empty", "range", "get", "iter", "last_key_value"):
            ctx.report("delta-map:" + t, "%s on the recorded schema changes of a model" % t)
            return None
        d = c.declared or c.path or ""
        if re.search(r"Iterator>?::(position|rposition|enumerate|find)$", d) and args and "mfields" in eng.tags(env, args[0]):
            return [Outcome(ctx.aut, V(1, G("after" if made == "rem" else "before"))), Outcome(ctx.aut, V(0))] if tail(c) == "position" else None
        return None

    def on_stmt(self, ctx, st):
        if st[0] == "=" and field_place(st[1], DS, "schema_current_version"):
            made, rec, bump = ctx.aut
            t = ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, st))
            self.hit("bump", ctx)
            if "scv" not in t or "+1" not in t or any(x[0] in "+-&" and x != "+1" for x in t):
                ctx.report("bump", "the schema version of a model is set to something other than the next one")
            if bump == 1:
                ctx.report("bump-twice", "the schema version is stepped more than once for one change")
            return (made, rec, 0 if bump == 2 else 1)
        return None

    def on_return(self, ctx, ret):
        made, rec, bump = ctx.aut
        if ctx.stack or self.inner:
            return None
        if made:
            ctx.report("unrecorded:" + made, "a field is %s a model without recording it as a schema change" % ("added to" if made == "add" else "removed from"))
        if rec:
            ctx.report("phantom:" + rec, "a schema change is recorded without the fields being changed")
        if bump:
            ctx.report("bump-alone", "the schema version is stepped without recording a change, or a change is recorded without stepping it")
        return None


def recorders(prog):
    """functions that add to the list of schema changes"""
    return [i for i in prog.insts.values() if any(b["t"][0] == "call" and not b.get("cl") and delta_map(prog.callee(i, bb)) == "insert" for bb, b in enumerate(i.body.blocks))]


# ---- rows: made, read, written to the log, restored

DD = "engine::core::model::delta::DataDelta"
RX_ADAPT = re.compile(r"Iterator::(rev|skip|step_by|take|filter|skip_while|take_while|filter_map|chain|cycle)$")


class Rows(Spec):
    """aut = (row resolved, restored row, restored row is in the index, facts on a row's versions)"""
    name = "rows"
    tagging = True
    count_steps = True

    def __init__(self, prog, mode, full=False):
        super().__init__(prog)
        self.mode, self.full = mode, full
        self.res = {i.id for i in resolvers(prog)}
        self.n = {}
        ft = {(DS, "schema_current_version"): "scv", (RD, "txn_revised_data"): "rev", (DD, "data_version"): "dver", (MD, "fields"): "mfields",
              (RD, "txn_revised_schema_version"): "rsv"}
        for a, d in prog.adts.items():
            if a.startswith("engine::storage::"):
                for v in d.get("variants", ()):
                    for f in v["f"]:
                        if f[0] == "schema_version":
                            ft[(a, "schema_version")] = "bsv"
                        if f[0] == "txn_id" and prog.tys(f[1]) == DV:
                            ft[(a, "txn_id")] = "etx"
        self.field_tags = ft

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def is_event_call(self, c):
        return bool(c.inst is not None and c.inst.id in self.res or row_fields(c) or self.rlock(c) or self.mt(c) or self.cols(c))

    def stop(self, inst):
        return inst.id in self.res

    def rlock(self, c):
        m = RX_LOCK.search(c.path or "")
        return m.group(1) if m and RD in (self_of(c) or "") and m.group(1) not in ("new", "data_ptr", "is_locked") else None

    def mt(self, c):
        m = re.search(r"MTIndex(?:Ext)?::(mt_\w+)$", c.declared or c.path or "")
        return m.group(1) if m and c.inst is not None and ROW in c.inst.args + (c.inst.path or "") else None

    def cols(self, c):
        i = c.inst
        if i is None or i.body.argc != 2 or self.prog.tys(self.prog.lty(i, 0)) != "std::vec::Vec<%s>" % RAW:
            return False
        return self.prog.tys(self.prog.lty(i, 2)) == DV

    def has_stmt_event(self, inst):
        for b in inst.body.blocks:
            if b.get("cl"):
                continue
            for s in b["s"]:
                if s[0] == "=" and (s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("adt") == RD or "'o': '%s'" % RD in str(s)):
                    return True
        return self.reads_tagged(inst)

    def new_row(self, ctx):
        r, row, ins, facts = ctx.aut
        self.lost(ctx)
        return (0, row, ins, frozenset())

    def lost(self, ctx):
        r, row, ins, facts = ctx.aut
        if row == "new" and ins:
            ctx.report("restored-stale", "a row read back from a data log goes into the index without being brought to the current schema")

    def on_call(self, ctx, c, args):
        r, row, ins, facts = ctx.aut
        eng, env = ctx.eng, ctx.env
        if c.inst is not None and c.inst.id in self.res:
            self.hit("resolve", ctx)
            nrow = "fresh" if row == "new" else row
            clo = None
            for a in args:
                if a is not None and a[0] == "c":
                    clo = a
            n = len(c.inst.body.locals) if False else 0
            cond = [x for x in self.prog.callees(c.inst) if self.prog.tys(self.prog.lty(x, 0)) == "bool" and "{closure" in x.body.path] if c.inst.body.argc > 2 else []
            if not cond:
                return [Outcome((1, nrow, ins, facts), G("fresh"))]
            out = []
            for x in cond:
                for aut, ret, e in eng.call_closure(ctx.inst, ctx.bb, x, args, [G("rowdata")], env, ctx.aut, ctx.stack):
                    if ret == TRUE:
                        out.append(Outcome((1, nrow, ins, facts), G("fresh")))
                    elif ret == FALSE:
                        out.append(Outcome((r, row, ins, facts), G("stale")))
                    else:
                        from .engine import conds
                        for truth in (True, False):
                            fs = frozenset((op, self.side(a), self.side(b)) for op, a, b in conds(ret, truth) if self.side(a) and self.side(b))
                            out.append(Outcome((1 if truth else r, nrow if truth else row, ins, fs), G("fresh" if truth else "stale")))
            self.hit("resolve_if", ctx)
            return out
        k = self.rlock(c)
        if k:
            self.hit("lock", ctx)
            return [Outcome(ctx.aut, G("fresh" if r or self.full else "raw"))]
        if self.cols(c):
            t = eng.tags(env, args[1]) if len(args) > 1 else frozenset()
            self.hit("columns", ctx)
            if "bsv" not in t or any(x[0] in "+-&" for x in t):
                ctx.report("columns-version", "the columns of a batch are not those at the batch's schema version")
            return [Outcome(ctx.aut, G("cols"))]
        m = self.mt(c)
        if m:
            if m in ("mt_insert", "mt_upsert") and self.mode == "restore":
                self.hit("insert", ctx)
                return [Outcome((r, row, True, facts), None)]
            return None
        if self.mode == "restore" and RX_ADAPT.search(c.declared or c.path or "") and args:
            t = eng.tags(env, args[0])
            s = self_of(c)
            if ("cols" in t or (CELL in s and "vec::" in s)) and not self.mapped(s):
                ctx.report("row-order:" + tail(c), "the values of a restored row are not matched with the columns one by one (%s)" % tail(c))
        f = row_fields(c)
        if f in ("st_insert", "st_upsert", "insert") and self.mode == "restore":
            self.hit("field", ctx)
            t = eng.tags(env, args[1]) if len(args) > 1 else frozenset()
            if "cols" not in t:
                ctx.report("restored-fields", "a field of a restored row is not named after the columns of its batch")
            return [Outcome(ctx.aut, None)]
        if f and self.mode == "restore" and f not in ("st_get", "st_contains", "get", "len", "st_len", "st_init", "idx_init", "with_capacity", "new", "default"):
            return None
        n = (c.declared or "").rsplit("::", 1)[-1]
        rt = self.prog.tys(self.prog.lty(ctx.inst, c_dest(ctx))) if c_dest(ctx) is not None else ""
        if n == "next" and (ROW in rt or DD in rt) and "Option<" in rt:
            self.lost(ctx)
            return None
        return None

    def mapped(self, s):
        return "DecodedBatchEvent" in s

    def side(self, t):
        if any(x[0] in "+-&" for x in t):
            return None
        if "rev" in t and "dver" not in t:
            return "rev"
        if "dver" in t and "rev" not in t:
            return "dver"
        return None

    def on_stmt(self, ctx, st):
        if st[0] != "=":
            return None
        r, row, ins, facts = ctx.aut
        rv = st[2]
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt") == RD:
            self.lost(ctx)
            vs = {f[0]: o for f, o in zip(self.prog.adts[RD]["variants"][0]["f"], rv[2])}
            tg = {k: ctx.eng.tags(ctx.env, ctx.eng.operand(ctx.env, o, ctx.inst)) for k, o in vs.items()}
            sv = tg.get("txn_revised_schema_version", frozenset())
            self.hit("made", ctx)
            off = any(x[0] in "+-&" for x in sv)
            if self.mode == "restore":
                if "bsv" not in sv or off:
                    ctx.report("restored-version", "a row is restored under a schema version other than its batch's")
                if "etx" not in tg.get("txn_revised_data", frozenset()):
                    ctx.report("restored-txn", "a row is restored without the data version of its record")
                return (r, "new", False, facts)
            if "scv" not in sv or off:
                ctx.report("made-version", "a new row is made under a schema version other than the current one of its model")
            return None
        if field_place(st[1], RD, "txn_revised_schema_version"):
            t = ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, st))
            ctx.report("set-version", "the schema version of a row is set outside of the step that brings it up to date")
            return None
        for pl in self.uses(rv):
            for k, pr in enumerate(pl[1:], 1):
                if isinstance(pr, dict) and pr.get("o") == RD and pr.get("n") == "fields":
                    t = ctx.eng.tags(ctx.env, self.base(ctx, pl[:k]))
                    self.hit("read", ctx)
                    if "raw" in t:
                        ctx.report("raw-read", "the fields of a row are used without bringing the row to the current schema")
                    elif "stale" in t:
                        ctx.report("stale-read", "the fields of a row are used although it was left at an older schema version")
                    elif "fresh" not in t and "#new" not in t and not (self.mode == "restore"):
                        ctx.report("unknown-read", "the fields of a row are used, and nothing shows that it was brought to the current schema")
        return None

    def base(self, ctx, pl):
        v = ctx.eng.read(ctx.env, pl)
        if v is None and pl[-1] == "*":
            v = ctx.eng.read(ctx.env, pl[:-1])
            for _ in range(3):
                if v is not None and v[0] == "r":
                    v = ctx.eng.read_path(ctx.env, v[1], v[2])
        return v

    def uses(self, rv):
        out = []

        def walk(x):
            if isinstance(x, list):
                if x and isinstance(x[0], int) and not isinstance(x[0], bool) and any(isinstance(y, dict) and "o" in y for y in x[1:]):
                    out.append(x)
                    return
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
        walk(rv)
        return out

    def on_branch(self, ctx, op, a, b):
        x, y = self.side(a), self.side(b)
        if not x or not y or x == y:
            return None
        if (x, y) == ("dver", "rev"):
            op = FLIP[op]
        for o, p, q in ctx.aut[3]:
            if (p, q) == ("dver", "rev"):
                o = FLIP[o]
            if NEG[op] in IMPL[o] or self.excl(op, o):
                return PRUNE
        return None

    def excl(self, a, b):
        sets = {"Lt": {"<"}, "Le": {"<", "="}, "Eq": {"="}, "Ge": {"=", ">"}, "Gt": {">"}, "Ne": {"<", ">"}}
        return not (sets[a] & sets[b])

    def on_return(self, ctx, ret):
        if not ctx.stack:
            self.lost(ctx)
        return None


def c_dest(ctx):
    t = ctx.inst.body.blocks[ctx.bb]["t"]
    d = t[3] if t[0] == "call" else None
    return d[0] if d else None


def restore_roots(prog):
    """outermost functions of the storage layer that turn a decoded batch into rows"""
    owners = set()
    for a, d in prog.adts.items():
        if a.startswith("engine::storage::"):
            for v in d.get("variants", ()):
                if any(f[0] == "schema_version" for f in v["f"]):
                    owners.add(a)
    makers = [i.id for i in prog.insts.values() if any(s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("adt") == RD for b in i.body.blocks for s in b["s"])]
    up = prog.reach_back(makers)
    cand = []
    for x in up:
        i = prog.insts[x]
        if "{closure" in i.body.path or not i.path.lstrip("<").startswith("engine::storage::"):
            continue
        a = [prog.tys(prog.lty(i, k)).lstrip("&").replace("mut ", "").split("<")[0] for k in range(1, i.body.argc + 1)]
        if MD in a and owners & set(a):
            cand.append(i)
    inner = set()
    for i in cand:
        inner |= prog.reach_fwd([i.id]) - {i.id}
    return [i for i in cand if i.id not in inner]


class Migrate(Spec):
    """aut = (version zero, changes forgotten, rows: None|'iter'|'todo'|'bad'|'done')"""
    name = "migrate"
    tagging = True
    count_steps = True

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def full(self, st):
        return st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and str(st[2][1].get("adt")).endswith("::FullModel")

    def version(self, st):
        return st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and str(st[2][1].get("adt")).endswith("::DeltaVersion")

    def mnext(self, c):
        s, n = self_of(c), tail(c)
        return n == "next" and "engine::core::model::Model" in s and ("hash_map" in s or "HashMap" in s)

    def rnext(self, c):
        return (c.declared or c.path or "").endswith("Iterator::next") and c.inst is not None and "mtchm::iter" in c.path and ROW in c.inst.args + c.inst.path + str(c.ga)

    def is_event_call(self, c):
        return bool(self.mnext(c) or self.rnext(c) or delta_map(c) == "clear")

    def stop(self, inst):
        return "mtchm::" in inst.body.path

    def has_stmt_event(self, inst):
        for b in inst.body.blocks:
            for s in b["s"]:
                if s[0] == "=" and not b.get("cl") and (self.full(s) or self.version(s) or field_place(s[1], DS, "schema_current_version") or field_place(s[1], RD, "txn_revised_schema_version")):
                    return True
        return False

    def on_call(self, ctx, c, args):
        z, cl, rows = ctx.aut
        if self.mnext(c):
            return [Outcome((0, 0, None), V(1, None)), Outcome((0, 0, None), V(0))]
        if self.rnext(c):
            self.hit("rows", ctx)
            bad = rows in ("todo", "bad")
            return [Outcome((z, cl, "bad" if bad else "todo"), V(1, G("row"))), Outcome((z, cl, "bad" if bad else "done"), V(0))]
        if delta_map(c) == "clear":
            return [Outcome((z, 1, rows), None)]
        return None

    def on_stmt(self, ctx, st):
        z, cl, rows = ctx.aut
        if self.full(st):
            self.hit("dump", ctx)
            if not (z and cl and rows == "done"):
                ctx.report("migrated-version", "a migrated model is written although %s" % ("its schema version was not restarted" if not z else "its recorded schema changes were kept" if not cl else "not all of its rows were set to the restarted schema version"))
            return None
        if st[0] != "=":
            return None
        if field_place(st[1], DS, "schema_current_version"):
            return (1 if ctx.eng.assigned(ctx, st) == K(0) else 0, cl, rows)
        if field_place(st[1], RD, "txn_revised_schema_version"):
            v = ctx.eng.assigned(ctx, st)
            ok = v == K(0) or v is not None and v[0] == "s" and v[1] == (K(0),)
            return (z, cl, "bad" if rows == "bad" or not ok else "iter")
        return None
