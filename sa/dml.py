"""Row changes made by INSERT, UPDATE and DELETE (C12) and what they store (C13)."""
import re
from .engine import Spec, Outcome, V, K, G, TRUE, FALSE

MD = "engine::core::model::ModelData"
DS = "engine::core::model::delta::DeltaState"
RD = "engine::core::index::row::RowData"
AE = "engine::ql::dml::upd::AssignmentExpression"
CELL = "engine::data::cell::Datacell"
KINDS = {"ins": "Insert", "upd": "Update", "del": "Delete"}
STMT = {"ins": "engine::ql::dml::ins::InsertStatement", "upd": "engine::ql::dml::upd::UpdateStatement", "del": "engine::ql::dml::del::DeleteStatement",
        "sel": "engine::ql::dml::sel::SelectStatement", "sela": "engine::ql::dml::sel::SelectAllStatement"}
RX_MUT = re.compile(r"STIndex::(st_insert|st_upsert|st_update\w*|st_delete\w*|st_clear|st_compact|st_get_mut)$")
RX_HM = re.compile(r"std::collections::HashMap::<.*>::(insert|remove|remove_entry|clear|drain|retain|entry|get_mut|iter_mut|values_mut)$")
RX_VEC = re.compile(r"std::vec::Vec::<.*>::(push|pop|clear|truncate|remove|swap_remove|insert|append|drain)$")
RX_MEM = re.compile(r"mem::(replace|swap|take)$")
RX_NEXT = re.compile(r"(?:Iterator|>)::next$")
RX_NEXTB = re.compile(r"::next_back$")
WRITERS = ("st_insert", "st_upsert", "st_update", "st_update_return", "insert")
FIELDS = ["lock", "fresh", "ver", "dirty", "pend", "log", "undo", "idx", "delta", "cnt", "rev", "bad", "cols", "expr"]
INIT = (0, 0, 0, 0, None, frozenset(), None, None, 0, 0, 0, None, 0, 0)


class A:
    __slots__ = FIELDS

    def __init__(self, t):
        for f, v in zip(FIELDS, t):
            setattr(self, f, v)

    def t(self):
        return tuple(getattr(self, f) for f in FIELDS)


def roots(prog, kind):
    """handlers of a statement: functions that take it by value and return a response"""
    out = []
    for i in prog.insts.values():
        if i.body.kind.startswith("Closure") or "{closure" in i.body.path or i.body.is_coroutine:
            continue
        r = prog.tys(prog.lty(i, 0))
        if not r.startswith("std::result::Result<engine::net::protocol::Response"):
            continue
        a = [prog.tys(prog.lty(i, k)).split("<")[0] for k in range(1, i.body.argc + 1)]
        if STMT[kind] in a:
            out.append((i, a.index(STMT[kind])))
    return out


class RowChange(Spec):
    name = "row-change"
    tagging = True
    field_tags = {(MD, "fields"): "mfields", (MD, "p_key"): "pkname", (DS, "schema_current_version"): "scv", (DS, "data_current_version"): "dcv",
                  (DS, "data_deltas_size"): "dsz", (AE, "lhs"): "lhs", (AE, "rhs"): "rhs", (AE, "operator_fn"): "opf", (RD, "txn_revised_data"): "rvf"}

    def __init__(self, prog, kind, owner):
        super().__init__(prog)
        self.kind, self.owner = kind, owner
        self.n = {}

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.bb))

    def say(self, ctx, prop, key, msg):
        if prop == self.owner:
            ctx.report(key + ":" + self.kind, msg)

    # ---- classification
    def logty(self, s):
        """element type of a collection that keeps replaced cells: mentions a cell, is not a plain list of cells"""
        m = re.match(r"(?:&mut |&)?(?:std::iter::Rev<)?std::(?:vec::(?:Vec|IntoIter|Drain)|collections::VecDeque)<(.*)>$", s or "")
        if not m:
            return False
        e = m.group(1).rstrip(">")
        if re.sub(r"^'_, ", "", m.group(1)).startswith(CELL):
            return False
        if e.startswith("'_, "):
            e = e[4:]
        if CELL in e:
            return not e.startswith(AE)
        a = self.prog.adts.get(e.split("<")[0])
        return bool(a) and any(CELL in self.prog.tys(f[1]) for v in a.get("variants", ()) for f in v["f"])

    def what(self, c):
        d = c.declared or c.path or ""
        p = c.path or ""
        s = c.selfty or (c.t0 if isinstance(c.t0, str) else "") or ""
        if not s and c.ga and len(c.ga) > 4:
            s = c.ga[2:].split('", "')[0].rstrip('"]')
        m = re.search(r"MTIndex::(mt_\w+)$", d)
        if m and "Row" in s + str(c.t0) + p + (str(c.ga) if c.ga else ""):
            return ("mt", m.group(1))
        if re.search(r"row::Row::resolve_schema_deltas_and_freeze\w*$", p):
            return ("resolve", "")
        if re.search(r"row::Row as .*Clone>::clone$", p):
            return ("rowclone", "")
        if re.search(r"smart::RawRC::<.*>::new$", p):
            return ("rc", "")
        m = re.search(r"lock_api::RwLock::<R, T>::(\w+)$", p)
        if m and RD in s:
            return ("rowlock", m.group(1))
        if "RwLockWriteGuard<" in s and RD in s and re.search(r"mem::drop$", p):
            return ("unlock", "")
        m = re.search(r"queue::Queue::<.*>::(\w*enqueue)$", p)
        if m and "DataDelta" in (s + (str(c.ga) if c.ga else "") + (c.inst.args if c.inst else "")):
            return ("enqueue", m.group(1))
        m = re.search(r"sync::atomic::Atomic::<(u64|usize)>::(\w+)$", p)
        if m:
            return ("atom", m.group(2))
        if re.search(r"model::Field::vt_\w+$", p):
            return ("vt", p.rsplit("::", 1)[-1])
        m = RX_MUT.search(d)
        if m and CELL in s:
            return ("fld", m.group(1))
        m = RX_HM.search(p)
        if m and CELL in s and "Ident" not in s:
            return ("fld", m.group(1))
        m = RX_VEC.search(p)
        if m:
            if s.startswith("std::vec::Vec<%s>" % CELL):
                return ("list", m.group(1))
            if self.logty(s):
                return ("log", m.group(1))
        m = RX_MEM.search(p)
        if m and c.t0 == CELL:
            return ("cell", m.group(1))
        if (RX_NEXT.search(d) or RX_NEXTB.search(d) or RX_NEXT.search(p) or RX_NEXTB.search(p)) and self.logty(s):
            return ("log", "next_back" if RX_NEXTB.search(d) or RX_NEXTB.search(p) else "next")
        if (RX_NEXT.search(d) or RX_NEXT.search(p)) and AE in s:
            return ("expr", "next")
        if re.search(r"Iterator(?:>)?::(for_each|try_for_each)$", d) and self.logty(s):
            return ("log", "for_each")
        return None

    def is_op(self, inst, bb):
        d = inst.body.blocks[bb]["t"][3]
        return len(d) == 1 and self.prog.tys(self.prog.lty(inst, d[0])) == "(bool, %s)" % CELL

    def is_event_call(self, c):
        w = self.what(c)
        return bool(w) and w[0] != "atom"

    def has_event(self, inst):
        return super().has_event(inst)

    def stop(self, inst):
        return bool(re.search(r"model::Field::vt_\w+$|row::Row::resolve_schema_deltas_and_freeze\w*$|^engine::idx::mtchm|^engine::idx::st|row::Row as ", inst.body.path)) or \
            self.prog.tys(self.prog.lty(inst, 0)) == "(bool, %s)" % CELL

    def deref_cell(self, inst, st):
        pl = st[1]
        return st[0] == "=" and len(pl) > 1 and pl[-1] == "*" and self.prog.tys(self.prog.lty(inst, pl[0])).replace("'_ ", "") in ("&mut " + CELL, "*mut " + CELL)

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst) or any(self.deref_cell(inst, st) for b in inst.body.blocks if not b.get("cl") for st in b["s"] if st[0] == "=")

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return len(t[1]) == 1 and self.guard(self.prog.tys(self.prog.lty(inst, t[1][0])))

    def guard(self, s):
        return "RwLockWriteGuard<" in s and RD in s and s.startswith(("parking_lot", "std::sync"))

    def on_drop(self, ctx, place, tys):
        if self.guard(tys) and len(place) == 1:
            a = A(ctx.aut)
            a.lock = 0
            return a.t()
        return None

    # ---- effects
    def bad_value(self, ctx, t, what):
        if "badop" in t:
            self.say(ctx, "C13", "failed-operation-stored", "the value of an operation that failed is stored in a row (%s)" % what)
        elif "invalid" in t or "valid" not in t:
            self.say(ctx, "C13", "unchecked-value", "a value is stored in a row without having been found valid for its field (%s)" % what)

    def change(self, ctx, a, how, cell, val):
        """a cell of a row is changed (update)"""
        ct, vt = ctx.eng.tags(ctx.env, cell), ctx.eng.tags(ctx.env, val)
        self.hit("change", ctx)
        if a.undo:
            ok = (how == "shrink") if a.undo == "grow" else (how == "put" and "old" in vt)
            if not ok:
                self.say(ctx, "C12", "undo-mismatch:" + a.undo, "undoing a change does the wrong thing to the row")
            if "lhs" not in ct:
                self.say(ctx, "C12", "undo-other-field:" + a.undo, "undoing a change touches another field than the one changed")
            a.undo = None
            return a
        if how == "shrink":
            self.say(ctx, "C12", "row-shrunk", "an element is taken from a list of a row")
            return a
        if not a.lock:
            self.say(ctx, "C12", "unlocked-change", "a row is changed without holding its write lock")
        if not a.fresh:
            self.say(ctx, "C12", "stale-row", "a row is changed before it was brought up to the current schema")
        if a.pend:
            self.say(ctx, "C12", "unlogged:" + a.pend, "a row is changed again before the previous change can be undone")
        if "lhs" not in ct:
            self.say(ctx, "C12", "other-field", "an update changes another field than the one named by the expression")
        if not vt & {"rhs"}:
            self.say(ctx, "C13", "other-value", "an update stores a value that does not come from the expression")
        self.bad_value(ctx, vt, "update")
        if not a.lock or "wl" in ct or "wl0" in ct:
            pass
        a.dirty = 1
        a.expr = 0
        a.pend = "grow" if how == "grow" else "put"
        return a

    def skipped(self, ctx, a):
        if a.expr:
            self.say(ctx, "C12", "expression-skipped", "an expression of an update is passed over and the statement goes on")

    def record(self, ctx, a, v):
        t = ctx.eng.tags(ctx.env, v)
        if a.pend is None:
            return a
        self.hit("undo_log", ctx)
        if "lhs" not in t:
            self.say(ctx, "C12", "undo-fieldless", "the undo record of a change does not name the changed field")
        if a.pend == "put" and "old" not in t:
            self.say(ctx, "C12", "undo-valueless", "the undo record of a change does not hold the replaced value")
        a.log = a.log | {(a.pend, snap(ctx.eng, ctx.env, v))}
        a.pend = None
        return a

    def consume(self, ctx, a, how, recv):
        if a.undo:
            self.say(ctx, "C12", "undo-skipped:" + a.undo, "an undo record is passed over without restoring the row")
            a.undo = None
        if not a.log:
            return a
        rev = "std::iter::Rev<" in recv
        if (how in ("next", "for_each")) != rev and how != "pop":
            self.say(ctx, "C12", "undo-order", "the changes to a row are undone oldest first")
        return a

    def on_call(self, ctx, c, args):
        eng, env = ctx.eng, ctx.env
        w = self.what(c)
        if w is None:
            if self.is_op(ctx.inst, ctx.bb):
                self.hit("operator", ctx)
                t = frozenset().union(*[eng.tags(env, x) for x in args]) if args else frozenset()
                t = {x for x in t if x[0] not in "#%"}
                if "lhs" not in t or "rhs" not in t:
                    self.say(ctx, "C13", "operands", "an update operation is not given the field's cell and the expression's value")
                return [Outcome(ctx.aut, ("s", (TRUE, G(*(t - {"valid", "invalid", "old"}))))), Outcome(ctx.aut, ("s", (FALSE, G("badop"))))]
            return None
        k, n = w
        a = A(ctx.aut)
        tg = [eng.tags(env, x) for x in args]
        if k == "atom":
            if "dcv" in tg[0]:
                if n == "fetch_add" and not {"#0"} & tg[1]:
                    if self.kind == "upd" and not a.lock:
                        self.say(ctx, "C12", "version-unlocked", "the version of an update is taken without holding the row's write lock")
                    a.ver = 1
                    self.hit("version", ctx)
                    return [Outcome(a.t(), G("newver"))]
                if n in ("store", "swap", "fetch_sub", "fetch_and"):
                    self.say(ctx, "C12", "version-rewound", "the data version of a model is set instead of being advanced")
                return [Outcome(ctx.aut, G("dcv"))]
            if "dsz" in tg[0]:
                if n == "fetch_add":
                    if "#1" not in tg[1]:
                        self.say(ctx, "C12", "delta-count", "the number of queued row changes is not advanced by one")
                    if a.cnt >= a.delta:
                        self.say(ctx, "C12", "counted-first", "a row change is counted before it is queued")
                    a.cnt = min(2, a.cnt + 1)
                    return [Outcome(a.t(), G("hint"))]
                if n in ("store", "fetch_sub") or n == "swap" and not a.cnt:
                    self.say(ctx, "C12", "delta-count", "the number of queued row changes is reset by a statement")
            return None
        if k == "mt":
            self.hit("index", ctx)
            if n in ("mt_get_element",):
                return [Outcome(ctx.aut, V(1, G("selrow"))), Outcome(ctx.aut, V(0))]
            if n in ("mt_insert",) and self.kind == "ins":
                t = set().union(*tg[1:])
                if a.idx:
                    self.say(ctx, "C12", "inserted-twice", "a row is inserted twice")
                if "newver" not in t:
                    self.say(ctx, "C12", "row-unversioned", "an inserted row does not carry the version of its change")
                if "scv" not in t:
                    self.say(ctx, "C12", "row-schema", "an inserted row does not carry the current schema version")
                if a.bad:
                    self.say(ctx, "C13", "invalid-row", "a row with %s is inserted" % a.bad)
                if not a.cols:
                    self.say(ctx, "C13", "columns-unchecked", "a row is inserted although the number of values was not compared with the number of fields")
                if "pk" not in t:
                    self.say(ctx, "C13", "no-primary-key", "a row is inserted under a key that is not the value of its primary key field")
                if a.delta:
                    self.say(ctx, "C12", "queued-first", "a change is queued before the row was inserted")
                b = A(ctx.aut)
                b.idx = "ins"
                return [Outcome(b.t(), TRUE), Outcome(a.t(), FALSE)]
            if n in ("mt_delete", "mt_delete_return", "mt_delete_return_entry") and self.kind == "del":
                if not a.ver:
                    self.say(ctx, "C12", "version-late", "a row is deleted before the version of its deletion is taken")
                if a.idx:
                    self.say(ctx, "C12", "deleted-twice", "a row is deleted twice")
                if a.delta:
                    self.say(ctx, "C12", "queued-first", "a change is queued before the row was deleted")
                b = A(ctx.aut)
                b.idx = "del"
                if n == "mt_delete":
                    return [Outcome(b.t(), TRUE), Outcome(a.t(), FALSE)]
                return [Outcome(b.t(), V(1, G("delrow"))), Outcome(a.t(), V(0))]
            if re.match(r"mt_(insert|upsert|update|delete|clear|vacuum)", n):
                self.say(ctx, "C12", "index-op:" + n, "%s changes the primary index with %s" % (KINDS[self.kind].upper(), n))
            return None
        if k == "resolve":
            if a.lock:
                self.say(ctx, "C12", "self-deadlock", "a row is brought up to date while its write lock is held")
            a.fresh = 1
            return [Outcome(a.t(), G("rdguard"))]
        if k in ("rowclone", "rc"):
            return [Outcome(ctx.aut, eng.union(env, args[:1]))]
        if k == "rowlock":
            if n.startswith(("write", "try_write")):
                if a.lock:
                    self.say(ctx, "C12", "self-deadlock", "a row is locked twice")
                a.lock = 1
                self.hit("rowlock", ctx)
                g = G("wl", *[x for x in tg[0] if x[0] not in "#%"])
                return [Outcome(a.t(), g)] if n == "write" else [Outcome(a.t(), V(1, g)), Outcome(ctx.aut, V(0))]
            return None
        if k == "unlock":
            a.lock = 0
            return [Outcome(a.t())]
        if k == "enqueue":
            self.hit("delta", ctx)
            v = eng_val(eng, env, args[1])
            parts = v[1] if v is not None and v[0] == "s" else None
            kd = None
            t = tg[1]
            if parts:
                for x in parts:
                    x = eng_val(eng, env, x)
                    if x is not None and x[0] == "v" and not x[2]:
                        kd = x[1]
                t = set().union(*[eng.tags(env, x) for x in parts])
            want = [i for i, x in enumerate(self.prog.adts["engine::core::model::delta::DataDeltaKind"]["variants"]) if x["n"] == KINDS[self.kind]]
            if kd not in want:
                self.say(ctx, "C12", "delta-kind", "the queued change is not of kind %s" % KINDS[self.kind])
            if "newver" not in t:
                self.say(ctx, "C12", "delta-version", "the queued change does not carry the version taken for it")
            rows = {"ins": "pk", "upd": "selrow", "del": "delrow"}
            if rows[self.kind] not in t:
                self.say(ctx, "C12", "delta-row", "the queued change does not hold the row that was changed")
            if self.kind == "upd":
                if not a.lock:
                    self.say(ctx, "C12", "queued-unlocked", "the change of a row is queued after its lock was released")
            elif not a.idx:
                self.say(ctx, "C12", "queued-unchanged", "a change is queued although the index was not changed")
            a.delta = min(2, a.delta + 1)
            return [Outcome(a.t(), None)]
        if k == "vt":
            self.hit("check", ctx)
            t = {x for x in tg[1] if x[0] not in "#%"}
            if "mfields" not in tg[0]:
                self.say(ctx, "C13", "wrong-definition", "a value is checked against something other than a field of the model")
            if self.kind == "upd" and "lhs" not in tg[0]:
                self.say(ctx, "C13", "wrong-field", "a value is checked against another field than the one it is stored in")
            b = A(ctx.aut)
            b.bad = a.bad or "a value that is not valid for its field"
            r = args[1]
            if r is not None and r[0] == "r":
                return [Outcome(ctx.aut, TRUE, (r, G(*(t | {"valid"})))), Outcome(b.t(), FALSE, (r, G(*((t - {"valid"}) | {"invalid"}))))]
            return [Outcome(ctx.aut, TRUE), Outcome(b.t(), FALSE)]
        if k == "fld":
            if self.kind == "ins":
                if n in WRITERS:
                    self.hit("store", ctx)
                    t = tg[-1]
                    if not t & {"valid", "invalid"}:
                        self.say(ctx, "C13", "unchecked-value", "a value of a new row is not checked against its field")
                    return [Outcome(ctx.aut, TRUE), Outcome(ctx.aut, FALSE)] if n == "st_insert" else None
                if n in ("remove", "remove_entry", "st_delete_return"):
                    self.hit("takepk", ctx)
                    b = A(ctx.aut)
                    b.bad = a.bad or "no primary key"
                    p = G("pk" if "pkname" in tg[1] else "otherkey", *[x for x in tg[0] if x[0] not in "#%"])
                    return [Outcome(ctx.aut, V(1, p)), Outcome(b.t(), V(0))]
                return None
            if self.kind == "del":
                self.say(ctx, "C12", "row-op:" + n, "DELETE changes the fields of a row with %s" % n)
                return None
            if n in ("st_get_mut", "get_mut"):
                g = G(*[x for x in tg[0] | tg[1] if x[0] not in "#%"])
                if a.undo:
                    return [Outcome(ctx.aut, V(1, g))]
                return [Outcome(ctx.aut, V(1, g)), Outcome(ctx.aut, V(0))]
            cell = eng.union(env, args[:2])
            if n in WRITERS:
                a = self.change(ctx, a, "put", cell, args[-1])
                return [Outcome(a.t(), V(1, G("old")) if n == "st_update_return" else TRUE if n.startswith("st_") else None)]
            self.say(ctx, "C12", "row-op:" + n, "an update changes the set of fields of a row with %s" % n)
            return None
        if k == "cell":
            if self.kind != "upd":
                return None
            a = self.change(ctx, a, "put", args[0], args[1] if len(args) > 1 else None)
            return [Outcome(a.t(), G("old"))]
        if k == "list":
            if self.kind != "upd":
                return None
            if n in ("push",):
                a = self.change(ctx, a, "grow", args[0], args[1])
                return [Outcome(a.t())]
            if n in ("pop", "remove", "swap_remove", "truncate"):
                a = self.change(ctx, a, "shrink" if n in ("pop", "truncate") else "shift", args[0], None)
                return [Outcome(a.t(), V(1, G("popped")) if n == "pop" else None)]
            self.say(ctx, "C12", "list-op:" + n, "an update changes a list of a row with %s" % n)
            return None
        if k == "expr":
            self.hit("expression", ctx)
            self.skipped(ctx, a)
            b = A(a.t())
            b.expr = 1
            return [Outcome(b.t(), V(1, None)), Outcome(a.t(), V(0))]
        if k == "log":
            if self.kind != "upd":
                return None
            if n == "push":
                a = self.record(ctx, a, args[1])
                return [Outcome(a.t())]
            recv = c.selfty or (c.t0 if isinstance(c.t0, str) else "")
            a = self.consume(ctx, a, n, recv)
            if n in ("next", "next_back", "pop"):
                outs = []
                if a.dirty and not a.pend or not a.dirty:
                    z = A(a.t())
                    z.dirty = 0 if not a.pend else 1
                    outs.append(Outcome(z.t(), V(0)))
                else:
                    outs.append(Outcome(a.t(), V(0)))
                for kd, v in a.log:
                    z = A(a.t())
                    z.undo = kd
                    outs.append(Outcome(z.t(), V(1, v)))
                return outs
            if n == "for_each":
                res = []
                cl = args[1]
                x = [m for m in c.may if m.id in eng.rel and cl is not None and cl[0] == "c" and m.body.path == cl[1]]
                for kd, v in a.log:
                    z = A(a.t())
                    z.undo = kd
                    if not x:
                        self.say(ctx, "C12", "undo-skipped:" + kd, "an undo record is passed over without restoring the row")
                    for m in x:
                        for o in eng.call_closure(ctx.inst, ctx.bb, m, args, [v], env, z.t(), ctx.stack):
                            b = A(o[0])
                            if b.undo:
                                self.say(ctx, "C12", "undo-skipped:" + kd, "an undo record is passed over without restoring the row")
                z = A(a.t())
                if not a.pend:
                    z.dirty = 0
                return [Outcome(z.t())]
            return None
        return None

    def on_branch(self, ctx, op, x, y):
        a = A(ctx.aut)
        if self.kind == "ins" and op == "Eq" and ("mfields" in x and not bare(y) <= {"mfields"} or "mfields" in y and not bare(x) <= {"mfields"}):
            a.cols = 1
            return a.t()
        return None

    def on_stmt(self, ctx, st):
        if st[0] != "=":
            return None
        pl = st[1]
        if isinstance(pl[-1], dict) and pl[-1].get("o") == RD and pl[-1].get("n") == "txn_revised_data" and self.kind == "upd":
            a = A(ctx.aut)
            t = ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, st))
            self.hit("revised", ctx)
            if "newver" not in t:
                self.say(ctx, "C12", "revised-version", "an updated row is not marked with the version of the change")
            if not a.lock:
                self.say(ctx, "C12", "revised-unlocked", "an updated row is marked with its version without holding its lock")
            a.rev = 1
            return a.t()
        if self.kind == "upd" and self.deref_cell(ctx.inst, st):
            a = self.change(ctx, A(ctx.aut), "put", ctx.eng.read(ctx.env, [pl[0]]), ctx.eng.assigned(ctx, st))
            return a.t()
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        a = A(ctx.aut)
        if ret is None or ret[0] != "v":
            self.say(ctx, "C12", "result-unknown", "the outcome of the statement is lost")
            return None
        if ret[1] == 0:
            self.hit("ok", ctx)
            if a.delta != 1:
                self.say(ctx, "C12", "ok-without-delta" if not a.delta else "ok-two-deltas", "the statement succeeds with %s change queued for the log" % ("no" if not a.delta else "more than one"))
            if a.cnt != a.delta:
                self.say(ctx, "C12", "delta-count", "a queued row change is not counted")
            if self.kind == "upd":
                self.skipped(ctx, a)
                if not a.rev:
                    self.say(ctx, "C12", "not-revised", "an update succeeds but the row keeps its old version")
            elif not a.idx:
                self.say(ctx, "C12", "ok-without-change", "the statement succeeds but the index was not changed")
        else:
            self.hit("err", ctx)
            if a.delta:
                self.say(ctx, "C12", "err-with-delta", "the statement fails but its change is queued for the log")
            if a.dirty:
                self.say(ctx, "C12", "err-not-undone" + (":" + a.pend if a.pend else ""), "the statement fails but leaves a changed row behind")
            if a.idx:
                self.say(ctx, "C12", "err-with-change", "the statement fails but has changed the index")
            if a.rev:
                self.say(ctx, "C12", "err-revised", "the statement fails but leaves its version in the row")
        return None


def bare(t):
    return {x for x in t if x[:1] not in "#%&+-"}


def eng_val(eng, env, v):
    while v is not None and v[0] == "r":
        v = eng.read_path(env, v[1], v[2])
    return v


def snap(eng, env, v, d=4):
    """a value with references replaced by their tags"""
    if v is None or d < 0:
        return None
    if v[0] == "r":
        return eng.union(env, [v])
    if v[0] == "v":
        return ("v", v[1], tuple(snap(eng, env, x, d - 1) for x in v[2]))
    if v[0] == "s":
        return ("s", tuple(snap(eng, env, x, d - 1) for x in v[1]))
    return v
