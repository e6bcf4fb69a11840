"""Statements and the objects they name (C24)."""
import re
from .engine import Spec, Outcome, V, G, K, TRUE, FALSE, PRUNE
from .catalog import commit_txn, table_of

RX_MAP = re.compile(r"^std::collections::HashMap::<K, V, S(?:, A)?>::(get|get_mut|get_key_value|contains_key|remove|remove_entry|insert|entry|try_insert|retain|clear|drain)$")
RX_SET = re.compile(r"^std::collections::HashSet::<T, S(?:, A)?>::(contains|get|insert|remove|take|replace|is_empty|len|retain|clear|drain)$")
RX_ENT = re.compile(r"^std::collections::hash_map::(VacantEntry|OccupiedEntry|Entry)::<'a, K, V(?:, A)?>::(insert|insert_entry|or_insert|or_insert_with|or_default|remove|remove_entry|get|get_mut|into_mut|key)$")
RX_NEXT = re.compile(r"hash_set::(IntoIter|Iter|Drain)<.*> as std::iter::Iterator>::next$")
RX_EID = re.compile(r"^engine::core::util::EntityID(Ref)?(::<'a>)?::new$")
RX_CNT = re.compile(r"engine::core::index::PrimaryIndex::(count|is_empty|len)$")
SETTY = "HashSet<std::boxed::Box<str>"
EID = "engine::core::util::EntityID"
CS = "engine::net::protocol::ClientLocalState"
FLAG = {"if_not_exists": "ifx", "if_exists": "ifx", "force": "force"}
NEED = {
    "CreateSpaceTxn": (("space-",), ("spaces.ins:own",)),
    "AlterSpaceTxn": (("space+",), ()),
    "DropSpaceTxn": (("space+", "empty|force"), ("spaces.del:own",)),
    "CreateModelTxn": (("space+", "model-"), ("set.ins:own", "models.ins:own")),
    "DropModelTxn": (("model+|idx+", "norows|force"), ("set.del:own", "models.del:own")),
    "AlterModelAddTxn": (("idx+",), ()), "AlterModelRemoveTxn": (("idx+",), ()), "AlterModelUpdateTxn": (("idx+",), ()),
}
HELD = {"space+": "spaces", "space-": "spaces", "empty": "spaces", "full": "spaces", "model+": "spaces", "model-": "spaces", "idx+": "models", "idx-": "models", "rows": "models", "norows": "models"}


class Named(Spec):
    """aut = (facts, phase, txn, changes)

    facts: space+/- (the space named is (not) there), model+/- (in the set of models of its space), idx+/- (in the index of
    models), empty/full (models of the space), norows/rows, force/noforce, ifx/noifx; those about the catalog hold while the
    lock they were found out under does. changes: <table>.<ins|del>:<own|each>"""
    name = "named"
    tagging = True
    disjunctions = True
    START = (frozenset(), "N", None, frozenset())
    field_tags = {
        (EID, "sp"): "sname", (EID, "ep"): "mname", (EID + "Ref", "sp"): "sname", (EID + "Ref", "ep"): "mname",
        ("engine::ql::ddl::crt::CreateSpace", "space_name"): "sname", ("engine::ql::ddl::drop::DropSpace", "space"): "sname",
        ("engine::ql::ddl::alt::AlterSpace", "space_name"): "sname", ("engine::ql::ddl::Use::Space", "0"): "sname",
        ("engine::ql::ddl::Inspect::Space", "0"): "sname", ("engine::ql::ddl::Inspect::Model", "0"): "entity",
        ("engine::ql::ddl::crt::CreateModel", "model_name"): "entity", ("engine::ql::ddl::drop::DropModel", "entity"): "entity",
        ("engine::ql::ddl::alt::AlterModel", "model"): "entity",
        ("engine::ql::dml::ins::InsertStatement", "entity"): "entity", ("engine::ql::dml::sel::SelectStatement", "entity"): "entity",
        ("engine::ql::dml::sel::SelectAllStatement", "entity"): "entity",
        ("engine::ql::dml::upd::UpdateStatement", "entity"): "entity", ("engine::ql::dml::del::DeleteStatement", "entity"): "entity",
        ("engine::core::space::Space", "models"): "smodels", (CS, "cs"): "cs",
        ("engine::ql::ddl::crt::CreateSpace", "if_not_exists"): "ifx", ("engine::ql::ddl::crt::CreateModel", "if_not_exists"): "ifx",
        ("engine::ql::ddl::drop::DropSpace", "if_exists"): "ifx", ("engine::ql::ddl::drop::DropModel", "if_exists"): "ifx",
        ("engine::ql::ddl::drop::DropSpace", "force"): "force", ("engine::ql::ddl::drop::DropModel", "force"): "force",
    }

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.root = None        # create/drop/alter
        self.resp = [v["n"] for v in prog.adts["engine::net::protocol::Response"]["variants"]]

    def see(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def kind(self, c):
        p = c.path or ""
        if RX_EID.search(p) and c.inst is not None:
            return "eid"
        if RX_CNT.search(p):
            return "count"
        if c.inst is not None:
            return None
        m = RX_MAP.search(p)
        if m and table_of(c.selfty) in ("spaces", "models"):
            return "map"
        if RX_SET.search(p) and SETTY in str(c.selfty):
            return "set"
        m = RX_ENT.search(p)
        if m and table_of("hash_map" + str(c.selfty)) in ("spaces", "models"):
            return "entry"
        if RX_NEXT.search(p):
            return "next"
        if re.search(r"^std::option::Option::<T>::as_(de)?ref(_mut)?$", p):
            return "asref"
        if re.search(r"^core::bool::<impl bool>::then_some$", p):
            return "then"
        if p == "std::mem::drop":
            return "drop"
        return None

    def is_event_call(self, c):
        k = self.kind(c)
        return k is not None and k not in ("drop", "next", "asref", "then") or bool(commit_txn(c))

    def sets_cs(self, st):
        return st[0] == "=" and any(isinstance(x, dict) and x.get("o") == CS and x.get("n") == "cs" for x in st[1])

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst) or any(self.sets_cs(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    def stop(self, inst):
        return any("engine::ql::ast::State<" in self.prog.tys(self.prog.lty(inst, l)) for l in range(1, inst.body.argc + 1)) and inst.body.path.startswith(("engine::ql::", "<engine::ql::"))

    def tags(self, ctx, v):
        return frozenset(x for x in ctx.eng.tags(ctx.env, v) if x[0] not in "#%+-&")

    def on_drop(self, ctx, place, ty):
        return self.released(ctx.aut, ty)

    def released(self, aut, ty):
        if "Guard<" not in ty:
            return None
        t = table_of(ty)
        if t is None:
            return None
        f = frozenset("was:" + x if HELD.get(x) == t else x for x in aut[0])
        return (f,) + aut[1:] if f != aut[0] else None

    def key(self, ctx, table, v):
        t = self.tags(ctx, v)
        if table == "spaces":
            if self.root == "use" and "cs" in t and not t & {"sname", "mname", "smodels"}:
                return "cs"
            return "own" if "sname" in t and not t & {"mname", "smodels", "cs"} else None
        if table == "set":
            return "own" if "mname" in t and not t & {"sname", "smodels"} else None
        if "each" in t:
            return "each"
        return "own" if "entity" in t and not t & {"badentity", "sname", "mname"} else None

    def bad(self, ctx, table, op):
        ctx.report("other-object:%s.%s@%s" % (table, op, ctx.inst.body.path), "a statement %s %s other than the one it names" % ({"ins": "adds", "del": "removes"}.get(op, "looks up"), {"spaces": "a space", "models": "a model", "set": "a model of the space"}[table]))

    def known(self, facts, pos, neg):
        return True if pos in facts else False if neg in facts else None

    def find(self, ctx, table, k):
        """the outcomes of a look-up: (facts, found)"""
        facts = ctx.aut[0]
        if k != "own":
            return [(facts, True)] if k == "each" else [(facts | {"saw:%s" % k}, True), (facts | {"%s-" % k}, False)]
        pos, neg = {"spaces": ("space+", "space-"), "set": ("model+", "model-"), "models": ("idx+", "idx-")}[table]
        kn = self.known(facts, pos, neg)
        if kn is None and table == "models":
            kn = self.known(facts, "model+", "model-")      # kept in step
        if kn is None and table == "set":
            kn = self.known(facts | {x[4:] for x in facts if x.startswith("was:idx")}, "idx+", "idx-")
        if kn is None and table == "spaces" and facts & {"idx+", "model+"}:
            kn = True
        out = []
        if kn is not False:
            out.append((facts | {pos, "saw:" + pos} | ({"saw:unnamed"} if k is None else set()), True))
        if kn is not True:
            out.append((facts | {neg}, False))
        return out

    def changed(self, ctx, table, op, k, facts=None):
        f, ph, tx, mu = ctx.aut
        f = f if facts is None else facts
        self.see("%s.%s" % (table, op))
        if k is None:
            self.bad(ctx, table, op)
            k = "other"
        if ph == "C" and tx in NEED:
            for x in NEED[tx][0]:
                if not any(y in f or table != "models" and HELD.get(y) == "models" and "was:" + y in f for y in x.split("|")):
                    ctx.report("no-longer-known:%s:%s.%s" % (tx, table, op), "a change is applied after the lock was let go under which it was found to be possible")
        elif ph == "C":
            ctx.report("wrong-change:%s:%s.%s" % (tx, table, op), "the change made is not the one committed")
        mu = mu | {"%s.%s:%s" % (table, op, k)}
        if k == "each":
            mu = mu - {"pend"}
        return (f, ph, tx, mu)

    def on_call(self, ctx, c, args):
        t = commit_txn(c)
        if t:
            return self.commit(ctx, t)
        k = self.kind(c)
        if k is None:
            return None
        f, ph, tx, mu = ctx.aut
        p = c.path
        if k == "drop":
            a = self.released(ctx.aut, str(c.t0))
            return [Outcome(a, None)] if a else None
        if k == "then":
            fl = [x for x in ("ifx", "force") if x in self.tags(ctx, args[0])]
            if len(fl) != 1 or args[0][0] != "g":
                return None
            return [Outcome((f | {y}, ph, tx, mu), r) for y, o, r in ((fl[0], "no" + fl[0], V(1, args[1])), ("no" + fl[0], fl[0], V(0))) if o not in f]
        if k == "asref":
            if "cs" in self.tags(ctx, args[0]):
                return [Outcome(ctx.aut, V(1, G("cs"))), Outcome(ctx.aut, V(0))]
            return None
        if k == "eid":
            a, b = self.tags(ctx, args[0]), self.tags(ctx, args[1])
            ok = "sname" in a and not a & {"mname", "smodels"}
            if ok and "smodels" in b:
                return [Outcome(ctx.aut, G("each"))]
            if ok and "mname" in b and not b & {"sname", "smodels"}:
                return [Outcome(ctx.aut, G("entity"))]
            return [Outcome(ctx.aut, G("badentity"))]
        if k == "count":
            self.see("count")
            r = c.path.endswith("is_empty")
            out = []
            if "rows" not in f:
                out.append(Outcome((f | {"norows"}, ph, tx, mu), TRUE if r else K(0)))
            if "norows" not in f:
                out.append(Outcome((f | {"rows"}, ph, tx, mu), FALSE if r else K(1)))
            return out
        if k == "next":
            if "smodels" not in self.tags(ctx, args[0]):
                return None
            if "pend" in mu and ph == "C" and tx == "DropSpaceTxn":
                ctx.report("model-left", "a space is dropped without one of its models being removed")
            return [Outcome((f, ph, tx, mu | {"pend"}), V(1, G("smodels"))), Outcome((f, ph, tx, (mu - {"pend"}) | {"all"}), V(0))]
        if k == "entry":
            m = RX_ENT.search(p)
            sl = [x for x in self.tags(ctx, args[0]) if x.startswith("slot:")]
            op = "ins" if m.group(2) in ("insert", "insert_entry", "or_insert", "or_insert_with", "or_default") else "del" if m.group(2).startswith("remove") else None
            if op is None or len(sl) != 1:
                return None
            tb, kk = sl[0][5:].split(":")
            return [Outcome(self.changed(ctx, tb, op, kk if kk != "other" else None), None)]
        table = table_of(c.selfty) if k == "map" else "set"
        n = (RX_MAP if k == "map" else RX_SET).search(p).group(1)
        if n in ("is_empty", "len"):
            if "smodels" not in self.tags(ctx, args[0]):
                return None
            out = []
            if "full" not in f:
                out.append(Outcome((f | {"empty"}, ph, tx, mu), TRUE if n == "is_empty" else K(0)))
            if "empty" not in f:
                out.append(Outcome((f | {"full"}, ph, tx, mu), FALSE if n == "is_empty" else K(1)))
            return out
        if n in ("retain", "clear", "drain"):
            if n == "retain" and table == "models" and tx == "DropSpaceTxn":
                return [Outcome(self.changed(ctx, table, "del", "each")[:3] + (mu | {"all"},), None)]
            if n == "drain" and table == "set":
                return None
            ctx.report("many:%s@%s" % (table, ctx.inst.body.path), "a statement removes more than the object it names")
            return None
        if table == "set" and "smodels" not in self.tags(ctx, args[0]):
            return None
        kk = self.key(ctx, table, args[1])
        self.see("%s.key" % table)
        if n in ("insert", "try_insert", "replace"):
            a = self.changed(ctx, table, "ins", kk)
            return [Outcome(a, None)]
        if n == "entry":
            out = []
            for fa, there in self.find(ctx, table, kk):
                out.append(Outcome((fa, ph, tx, mu), V(0 if there else 1, G("slot:%s:%s" % (table, kk or "other")))))
            return out
        if kk is None:
            self.bad(ctx, table, "get")
        out = []
        for fa, there in self.find(ctx, table, kk):
            obj = G("obj:" + table)
            a = (fa, ph, tx, mu)
            if n in ("remove", "remove_entry", "take"):
                if there:
                    a = self.changed(ctx, table, "del", kk, fa)
                if table == "set" and n == "remove":
                    obj = None
            if n in ("contains_key", "contains") or table == "set" and n == "remove":
                out.append(Outcome(a, TRUE if there else FALSE))
            else:
                out.append(Outcome(a, V(1, obj if n not in ("remove_entry", "get_key_value") else ("s", (None, obj))) if there else V(0)))
        return out

    def commit(self, ctx, t):
        f, ph, tx, mu = ctx.aut
        self.see("commit:" + t)
        if t in NEED:
            for x in NEED[t][0]:
                if not any(y in f for y in x.split("|")):
                    ctx.report("unchecked:%s:%s" % (t, x), "a statement is committed (%s) without it being known, under the lock still held, that %s" % (t, {
                        "space-": "no space has that name", "space+": "the space it names exists", "model-": "no model has that name", "model+|idx+": "the model it names exists", "idx+": "the model it names exists",
                        "empty|force": "the space has no models, or that they may be dropped with it", "norows|force": "the model has no rows, or that they may be dropped with it"}[x]))
        return [Outcome((f, "C", t, mu), V(0, None)), Outcome((f, "F", t, mu), V(1, None))]

    def on_stmt(self, ctx, st):
        if self.sets_cs(st):
            self.see("selects")
            rv = st[2]
            o = rv[1] if rv[0] == "use" else rv[2][0] if rv[0] == "agg" and rv[2] else None
            none = rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("v") == 0
            v = ctx.eng.operand(ctx.env, o, ctx.inst) if o is not None else None
            f, ph, tx, mu = ctx.aut
            if none or v is not None and v[0] == "v" and v[1] == 0:
                return (f, ph, tx, (mu - {"selected"}) | {"unselected"})
            t = self.tags(ctx, v)
            if "sname" not in t or t & {"mname", "cs"}:
                ctx.report("selects-other", "a connection's space is set to something other than what the statement names")
            if "saw:space+" not in ctx.aut[0]:
                ctx.report("selects-unknown", "a connection's space is set without that space being found to exist")
            return (f, ph, tx, (mu - {"unselected"}) | {"selected"})
        return None

    def on_branch(self, ctx, op, a, b):
        f, ph, tx, mu = ctx.aut
        for x, y in ((a, b), (b, a)):
            for fl in ("ifx", "force"):
                if fl in x and (("#0" in y) or ("#1" in y)) and op in ("Eq", "Ne"):
                    on = ("#1" in y) == (op == "Eq")
                    w, o = (fl, "no" + fl) if on else ("no" + fl, fl)
                    if o in f:
                        return PRUNE
                    return (f | {w}, ph, tx, mu)
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        f, ph, tx, mu = ctx.aut
        ok = ret is not None and ret[0] == "v" and ret[1] == 0
        rs = ret[2][0] if ok and ret[2] else None
        nm = None
        if rs is not None and rs[0] == "v":
            nm = self.resp[rs[1]]
        b = rs[2][0] if nm == "Bool" and rs[2] else None
        b = bool(b[1]) if b is not None and b[0] == "k" else None
        if ph == "C" and tx in NEED:
            self.see("done:" + tx)
            for m in NEED[tx][1]:
                if m not in mu:
                    ctx.report("half-applied:%s:%s" % (tx, m), "a committed statement does not make its change to %s" % {"spaces": "the spaces", "set": "the models listed for the space", "models": "the index of models"}[m.split(".")[0]])
            for m in mu:
                if "." in m and m not in NEED[tx][1] and not (tx == "DropSpaceTxn" and m == "models.del:each"):
                    ctx.report("more-applied:%s:%s" % (tx, m), "a committed statement makes another change than its own (%s)" % m)
            if tx == "DropSpaceTxn" and "pend" in mu:
                ctx.report("model-left", "a space is dropped without one of its models being removed")
            elif tx == "DropSpaceTxn" and "all" not in mu and not f & {"empty", "was:empty"}:
                ctx.report("models-left", "a space is dropped without its models being removed")
            if re.match("Create|Drop", tx) and ok:
                if nm is None:
                    ctx.report("answer-unknown", "the response to a statement cannot be told")
                elif "ifx" in f and (nm, b) != ("Bool", True):
                    ctx.report("answer:%s" % tx, "a statement with IF [NOT] EXISTS that did its work does not answer true")
                elif "ifx" not in f and nm != "Empty" and "noifx" in f:
                    ctx.report("answer:%s" % tx, "a statement that did its work does not answer with the empty response")
                elif "ifx" not in f and "noifx" not in f:
                    ctx.report("answer-flag:%s" % tx, "IF [NOT] EXISTS is not looked at")
        if self.root == "use":
            self.see("use")
            if ok and nm == "Empty" and "saw:space+" in f and "selected" not in mu:
                ctx.report("not-selected", "USE is answered as done without the space it names being selected")
            if ok and nm == "Empty" and not mu & {"selected", "unselected"}:
                ctx.report("use-nothing", "USE is answered as done although it did nothing")
            if not ok and "selected" in mu:
                ctx.report("selected-failed", "USE fails although it selected a space")
            if "cs-" in f and "unselected" not in mu:
                ctx.report("stays-selected", "a space that was found to be gone stays selected")
        if tx is None and ok and nm in ("Bool", "Empty") and self.root in ("create", "drop", "alter"):
            # done without doing anything
            self.see("nothing:%s" % nm)
            if nm == "Bool":
                if b is not False:
                    ctx.report("answer-nothing", "a statement that did nothing answers true")
                if "ifx" not in f:
                    ctx.report("ignored", "a statement without IF [NOT] EXISTS is answered as if it had that")
                kd = self.root
                want = {"create": ("model+", "space+", "idx+"), "drop": ("model-", "space-", "idx-")}.get(kd)
                if want and not any("was:" + w in f or w in f for w in want):
                    ctx.report("ignored-wrongly:" + kd, "a statement is answered as if it had nothing to do although its object was not found to be %s" % ("there" if kd == "create" else "missing"))
            elif self.root in ("create", "drop"):
                ctx.report("done-nothing:%s" % self.root, "a CREATE or DROP statement is answered as done although nothing was done")
        return None
