"""Statements that only read (C15)."""
import re
from .engine import Spec, Outcome, V, K, G, TRUE, FALSE, conds
from . import schema
from .schema import MD, RD, ROW, RAW, CELL, RX_LOCK, self_of, tail, row_fields, model_fields
from .catalog import commit_txn
from .iomodel import is_file_write
from .dml import STMT

READ = {STMT["sel"]: "sel", STMT["sela"]: "sela", "engine::ql::ddl::Inspect": "inspect", "engine::ql::ddl::Use": "use"}
IDENT = "engine::ql::lex::raw::Ident"
SHARED = ("std::collections::HashMap<std::boxed::Box<str>, engine::core::space::Space", "std::collections::HashMap<engine::core::util::EntityID, engine::core::model::Model",
          "std::collections::HashMap<std::boxed::Box<str>, engine::core::system_db::User")


def parsed(prog, entry):
    """statement types an entry of the dispatch tables parses"""
    out = set()
    for x in prog.reach_fwd({entry.id}):
        i = prog.insts[x]
        m = re.match(r"std::result::Result<(engine::ql::[\w:]+?)(<.*>)?, engine::error::QueryError>$", prog.tys(prog.lty(i, 0)))
        if m:
            out.add(m.group(1))
    return out


def row_index(c):
    m = re.search(r"MTIndex(?:Ext)?::(mt_\w+)$", c.declared or c.path or "")
    return m.group(1) if m and c.inst is not None and ROW in c.inst.args + (c.inst.path or "") else None


def row_iter(c):
    d = c.declared or c.path or ""
    return d.endswith("Iterator::next") and c.inst is not None and "mtchm::iter" in (c.path or "") and ROW in c.inst.args + c.inst.path + str(c.ga)


def effect(prog, inst, c):
    """what calling c changes, for a statement that must change nothing"""
    p = c.path or ""
    s = self_of(c)
    m = row_index(c)
    if m and re.search(r"insert|upsert|update|delete|clear|remove", m):
        return "changes the row index (%s)" % m
    m = RX_LOCK.search(p)
    if m and re.search(r"^(try_)?write|upgrad|get_mut|into_inner", m.group(1)):
        if RD in s:
            return "locks a row for writing"
        if "std::vec::Vec<%s>" % CELL in s:
            return "locks a list for writing"
        if any(t in s for t in SHARED):
            return "locks the catalog for writing"
    m = re.search(r"queue::Queue::<.*>::(\w*enqueue)$", p)
    if m and "DataDelta" in (s + str(c.ga) + (c.inst.args if c.inst else "")):
        return "queues a row change"
    if commit_txn(c):
        return "commits an event to the system journal"
    if re.search(r"raw::journal::raw::RawJournalWriter::<.*>::\w*commit\w*$", p):
        return "commits to a log"
    if is_file_write(c):
        return "writes to a file"
    if inst.body.path.startswith("engine::core::model::delta::") and atomic_write(c):
        return "changes the data version or the change count of a model"
    if re.search(r"tokio::sync::mpsc::(\w+::)*\w*Sender::<.*>::(\w*send\w*)$", p):
        return "posts a background task"
    return None


def atomic_write(c):
    m = re.search(r"sync::atomic::Atomic(?:::<|<)\w+>::(\w+)$", c.path or "")
    return m.group(1) if m and m.group(1) not in ("load", "new", "into_inner", "get_mut") else None


class Latch(Spec):
    """aut = latch: '' | 'S' | 'X'   (who holds the latch of the row index)"""
    name = "latch"

    def __init__(self, prog, kind):
        super().__init__(prog)
        self.kind = kind
        self.n = {}
        self.memo = {}

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def latch(self, c):
        m = RX_LOCK.search(c.path or "")
        return m.group(1) if m and re.search(r"RwLock<[^<>]*, \(\)>$", self_of(c)) and m.group(1) not in ("new", "data_ptr", "is_locked") else None

    def guard(self, s, depth=0):
        """does a value of this type own a latch guard"""
        if s in self.memo:
            return self.memo[s]
        self.memo[s] = False
        if s.startswith(("&", "*")):
            r = False
        elif re.search(r"RwLock(?:Upgradable)?(?:Read|Write)Guard<'_, [^<>]*, \(\)>", s):
            r = True
        else:
            r = any(self.fields(a, depth) for a in re.findall(r"engine::[\w:]+", s))
        self.memo[s] = r
        return r

    def fields(self, a, depth):
        d = self.prog.adts.get(a)
        return bool(d) and depth < 6 and any(self.guard(self.prog.tys(f[1]), depth + 1) for v in d.get("variants", ()) for f in v["f"])

    def is_event_call(self, c):
        return bool(self.latch(c) or row_index(c) or row_iter(c) or (c.path or "") == "std::mem::drop" and self.guard(str(c.t0)))

    def stop(self, inst):
        return "mtchm::" in inst.body.path

    def is_event_drop(self, inst, bb):
        t = inst.body.blocks[bb]["t"]
        return len(t[1]) == 1 and self.guard(self.prog.tys(self.prog.lty(inst, t[1][0])))

    def on_drop(self, ctx, place, tys):
        return "" if self.guard(tys) else None

    def on_call(self, ctx, c, args):
        l = self.latch(c)
        if l:
            k = "X" if l.endswith("write") or "exclusive" in l else "S"
            self.hit("latch" + k, ctx)
            if l.startswith("try_"):
                return [Outcome(k, V(1, G("latch"))), Outcome(ctx.aut, V(0))]
            return [Outcome(k, G("latch"))]
        if (c.path or "") == "std::mem::drop" and self.guard(str(c.t0)):
            return [Outcome("", None)]
        m = row_index(c)
        if m and re.search(r"insert|upsert|update|delete|clear|remove", m):
            self.hit("change", ctx)
            if not ctx.aut:
                ctx.report("unlatched-change:" + self.kind, "the row index is changed without holding its latch: a SELECT ALL that is running can see the change or not")
            return None
        if m and "iter" in m or row_iter(c):
            self.hit("scan", ctx)
            if ctx.aut != "X":
                ctx.report("unlatched-scan:" + self.kind, "rows are read one after another %s" % ("with the index latch held shared, so statements can insert and delete rows meanwhile" if ctx.aut else "without holding the index latch"))
            if row_iter(c):
                return [Outcome(ctx.aut, V(1, G("row"))), Outcome(ctx.aut, V(0))]
        return None


class Result(Spec):
    """What a SELECT sends.
    aut = (row looked up / taken, its lock taken, column state, header, key is the primary key, rows counted)"""
    name = "result"
    tagging = True
    field_tags = {(MD, "fields"): "mfields", (MD, "p_key"): "pkname"}

    def __init__(self, prog, kind, encoders):
        super().__init__(prog)
        self.kind, self.enc = kind, encoders
        self.res = {i.id for i in schema.resolvers(prog)}
        self.n = {}

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def col_iter(self, c):
        """iterates the columns of the model ('m') or those named by the statement ('s')"""
        if not (c.declared or c.path or "").endswith("Iterator::next"):
            return None
        s = self_of(c)
        if re.search(r"iter::(\w+::)*(Skip|SkipWhile|StepBy|Take|TakeWhile|Filter)<.*(%s|IndexSTSeqDllIterOrd)" % IDENT, s):
            return "partial"
        if c.inst is not None and "IndexSTSeqDllIterOrd" in (c.path or "") and "engine::core::model::Field" in c.inst.args + c.inst.path:
            return "m" if "Base" not in c.path else None
        if IDENT in s and re.match(r"&?(mut )?std::(slice::Iter|vec::(IntoIter|Drain))<", s):
            return "s"
        return None

    def col_len(self, c):
        if tail(c) != "len":
            return None
        if model_fields(c) == "len" or c.inst is not None and "IndexSTSeqDll" in (c.path or "") and "engine::core::model::Field" in c.inst.args:
            return "m"
        return "s" if IDENT in self_of(c) else None

    def is_enc(self, c):
        return c.inst is not None and c.inst.id in self.enc

    def pkcell(self, c):
        return c.inst is not None and re.search(r"cell::VirtualDatacell(::)?<.*>::new\w*$", c.path or "")

    def intbuf(self, c):
        return c.inst is not None and re.search(r"numbuf::\w+(::<.*>)?::scoped$", c.path or "")

    def is_event_call(self, c):
        return bool(c.inst is not None and c.inst.id in self.res or row_fields(c) or row_iter(c) or row_index(c) or self.col_iter(c) or self.is_enc(c))

    def stop(self, inst):
        return inst.id in self.res or inst.id in self.enc or "mtchm::" in inst.body.path

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst)

    def keyed(self, ctx, args):
        t = set()
        for a in args:
            t |= set(ctx.eng.tags(ctx.env, a))
        return t

    def on_call(self, ctx, c, args):
        got, lock, col, hdr, pk = ctx.aut
        if c.inst is not None and c.inst.id in self.res:
            self.hit("lock", ctx)
            if lock:
                ctx.report("row-locked-twice:" + self.kind, "the same row is locked more than once for one result: its fields can come from two versions of the row")
            return [Outcome((got, 1, col, hdr, pk), G("fresh"))]
        if row_iter(c):
            self.hit("rows", ctx)
            self.close(ctx)
            return [Outcome((1, 0, None, hdr, None), V(1, G("row"))), Outcome((0, 0, None, hdr, None), V(0))]
        m = row_index(c)
        if m and "get" in m:
            self.hit("lookup", ctx)
            if got:
                ctx.report("row-read-twice:" + self.kind, "the row is looked up more than once for one result")
            return [Outcome((1, 0, col, hdr, pk), V(1, G("row"))), Outcome((0, 0, col, hdr, pk), V(0))]
        k = self.col_iter(c)
        if k:
            self.hit("columns_" + k, ctx)
            self.close(ctx)
            if k == "partial":
                ctx.report("missing-cell:" + self.kind, "some columns are skipped")
                return None
            if hdr and hdr != k and got:
                ctx.report("column-count:" + self.kind, "the number of columns announced is not that of the columns sent")
            return [Outcome((got, lock, k, hdr, None), V(1, G("col"))), Outcome((got, lock, None, hdr, None), V(0))]
        k = self.col_len(c)
        if k:
            return [Outcome(ctx.aut, G("len:" + k))]
        if self.intbuf(c):
            l = {t[4:] for t in self.keyed(ctx, args[:1]) if str(t).startswith("len:")}
            if len(l) == 1:
                self.hit("header", ctx)
                return [Outcome((got, lock, col, l.pop(), pk), None)]
            return None
        if self.pkcell(c):
            return [Outcome(ctx.aut, G("pkcell"))]
        if row_fields(c) in ("st_get", "get", "st_get_cloned", "index", "st_contains", "contains_key"):
            self.hit("field", ctx)
            t = self.keyed(ctx, args[1:])
            if col and "col" not in t:
                ctx.report("wrong-field:" + self.kind, "a field of the row is looked up under a name that is not the column's")
            if row_fields(c) in ("st_contains", "contains_key"):
                return None
            if pk == 1:
                return [Outcome(ctx.aut, V(0))]
            out = [Outcome((got, lock, col, hdr, 0), V(1, G("cell")))]
            if pk is None:
                out.append(Outcome((got, lock, col, hdr, pk), V(0)))
            return out
        if re.search(r"PartialEq(<.*>)?>?::(eq|ne)$", c.declared or c.path or "") and len(args) == 2:
            a, b = (self.keyed(ctx, [x]) for x in args)
            if ("pkname" in b and "pkname" not in a and (not col or "col" in a)) or ("pkname" in a and "pkname" not in b and (not col or "col" in b)):
                self.hit("is_key", ctx)
                eq = (c.declared or c.path).endswith("eq")
                o = []
                if pk != 0:
                    o.append(Outcome((got, lock, col, hdr, 1), TRUE if eq else FALSE))
                if pk != 1:
                    o.append(Outcome((got, lock, col, hdr, 0), FALSE if eq else TRUE))
                return o
        if self.is_enc(c):
            self.hit("cell", ctx)
            t = self.keyed(ctx, args)
            if col == "done":
                ctx.report("extra-cell:" + self.kind, "two cells are sent for one column")
            if "pkcell" in t and "cell" not in t:
                if pk != 1:
                    ctx.report("wrong-cell:" + self.kind, "the primary key is sent for a column that was not found to be the primary key")
            elif "cell" not in t and (col or t & {"row", "mfields", "fresh"}):
                ctx.report("wrong-cell:" + self.kind, "the value sent for a column is not the one read from the row under its name")
            return [Outcome((got, lock, "done" if col else None, hdr, None), None)]
        return None

    def close(self, ctx):
        col = ctx.aut[2]
        if col not in (None, "done"):
            ctx.report("missing-cell:" + self.kind, "nothing is sent for one of the columns")

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        if ret is not None and ret[0] == "v" and ret[1] == 0:
            self.hit("ok", ctx)
            self.close(ctx)
        return None


def encoders(prog):
    """functions that write one cell to a response: fn(&mut Vec<u8>, &Datacell)"""
    out = set()
    for i in prog.insts.values():
        if i.body.argc == 2 and "{closure" not in i.body.path and i.path.startswith("engine::core::") and prog.tys(prog.lty(i, 2)).replace("'_ ", "") == "&" + CELL \
                and prog.tys(prog.lty(i, 1)).replace("'_ ", "") == "&mut std::vec::Vec<u8>":
            out.add(i.id)
    return out
