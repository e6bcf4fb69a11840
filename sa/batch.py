"""Batches of row changes: what happens to them when the log refuses them, and how they are replayed (C16)."""
import re
from .engine import Spec, Outcome, V, K, G, TRUE, FALSE, PRUNE, NEG
from .schema import MD, DS, DV, RD, ROW, FLIP, IMPL, self_of, tail
from .reads import row_index

DELTA = "engine::core::model::delta::DataDelta"
TASK = "engine::fractal::mgr::CriticalTask"
PKEY = "engine::core::index::key::PrimaryIndexKey"
RX_Q = re.compile(r"(enqueue|dequeue|pop_front|pop_back|pop|push_front|push_back|push|extend|append|drain|clear|truncate)$")


def about(c, ty):
    return ty in self_of(c) + str(c.ga) + (c.inst.args if c.inst else "")


def delta_op(c):
    """('take'|'give'|'giveall'|'keep'|'keepall'|'discard') for operations on collections of row changes"""
    p, s = c.path or "", self_of(c)
    t = tail(c)
    if c.inst is not None and c.inst.body.path.endswith("ops::Drop>::drop"):
        return None
    q = re.search(r"queue::Queue::<|VecDeque::<", p) or "VecDeque<%s" % DELTA in s
    v = re.search(r"std::vec::Vec::<", p) and s.startswith("std::vec::Vec<%s" % DELTA)
    if q and about(c, DELTA):
        if re.search(r"dequeue$|^pop", t):
            return "take"
        if re.search(r"enqueue$|^push", t):
            return "give"
        if t in ("extend", "append"):
            return "giveall"
    if v:
        if t == "push":
            return "keep"
        if t in ("clear", "truncate"):
            return "discard"
    if t == "extend" and "std::vec::Vec<%s" % DELTA in s:
        return "keepall"
    if t == "extend" and "VecDeque<%s" % DELTA in s:
        return "giveall"
    return None


def container(c):
    return "deque" if "VecDeque" in (c.path or "") + self_of(c) else "queue"


def delta_iter(c):
    """1: goes through changes in order, 2: in reverse"""
    d = c.declared or c.path or ""
    if d.endswith("Iterator::for_each"):
        d = "Iterator::next"
    s = self_of(c)
    if re.search(r"std::vec::Vec::<", c.path or "") and tail(c) == "pop" and s.startswith("std::vec::Vec<%s" % DELTA):
        return 2
    if not re.search(r"Iterator::next(_back)?$|::next(_back)?$", d):
        return 0
    if not re.search(r"(vec::(IntoIter|Drain)|slice::Iter|vec_deque::\w+)<.*%s" % DELTA, s):
        return 0
    return 1 + (s.count("Rev<") + d.endswith("next_back")) % 2


def atom(c):
    m = re.search(r"sync::atomic::Atomic(?:::<|<)(\w+)>::(\w+)$", c.path or "")
    return m.group(2) if m else None


def has_place(prog, inst, adt, name):
    return any("'n': '%s', 'o': '%s'" % (name, adt) in str(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])


class Failed(Spec):
    """aut = (loose: a change was taken and is held nowhere, taken, item: one being returned, returned, failed, retry, counted,
    nothing returned is left to be taken)"""
    name = "failed-batch"
    tagging = True
    count_steps = True
    field_tags = {(DS, "data_deltas_size"): "dsz"}

    backs, live = frozenset(), frozenset()

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.back = set()

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def commit(self, c):
        return c.inst is not None and re.search(r"RawJournalWriter::<J>::commit\w*$", c.inst.body.path) and any(x in c.inst.args for x in self.events)

    def is_event_call(self, c):
        return bool(delta_op(c) or delta_iter(c) or self.commit(c) or tail(c) == "is_iffy" and "FractalModelDriver" in (c.path or "") + self_of(c))

    def has_stmt_event(self, inst):
        return any(self.retry(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"]) or self.reads_tagged(inst)

    def retry(self, st):
        return st[2][2] if st[0] == "=" and st[2][0] == "agg" and isinstance(st[2][1], dict) and st[2][1].get("adt") == TASK and st[2][1].get("vn", st[2][1].get("v")) in ("WriteBatch", self.wb) else None

    def on_call(self, ctx, c, args):
        loose, taken, item, ret, failed, retry, cnt, fe = ctx.aut
        k = delta_op(c)
        if k and ctx.inst.body.path.endswith("ops::Drop>::drop"):
            return None
        if k == "take":
            self.hit("take", ctx)
            if loose:
                ctx.report("change-lost", "another change is taken from the queue of a model while the last one is not kept anywhere it could be returned from")
            q = container(c)
            if self.backs and q not in self.backs and not fe:
                ctx.report("returned-not-next", "a change is taken from the queue of a model before those that were returned by a failed batch")
            nfe = 1 if q in self.backs else fe
            return [Outcome((1, 1, item, ret, failed, retry, cnt, 0), V(1, G("delta"))), Outcome((loose, taken, item, ret, failed, retry, cnt, nfe), V(0))]
        if k in ("keep", "keepall"):
            self.hit("keep", ctx)
            return [Outcome((0, taken, 0, ret, failed, retry, cnt, fe), None)]
        if k == "give":
            self.hit("give", ctx)
            if failed:
                self.back.add(container(c))
                t = tail(c)
                if not t.endswith("push_front") and container(c) in self.live:
                    ctx.report("returned-not-next", "a change of a failed batch is returned behind changes that were made after it")
                if item == 1 and t.endswith("push_front") or item == 2 and t.endswith("push_back"):
                    ctx.report("returned-not-next", "the changes of a failed batch are returned in the reverse order")
            return [Outcome((0, taken, 0, ret, failed, retry, cnt, fe), None)]
        if k == "giveall":
            self.hit("give", ctx)
            if failed:
                self.back.add(container(c))
                if container(c) in self.live:
                    ctx.report("returned-not-next", "changes of a failed batch are returned behind changes that were made after them")
            return [Outcome((0, taken, 0, 1, failed, retry, cnt, fe), None)]
        if k == "discard":
            if failed and not ret:
                ctx.report("change-lost", "the changes of a failed batch are thrown away")
            return [Outcome((loose, 0 if not failed else taken, item, ret, failed, retry, cnt, fe), None)]
        if delta_iter(c) and tail(c) == "for_each":
            out, todo, seen = [], [ctx.aut], set()
            while todo:
                a = todo.pop()
                if a in seen:
                    continue
                seen.add(a)
                if a[2]:
                    ctx.report("change-lost", "a change of a failed batch is not returned to the queue of its model")
                out.append(Outcome(a[:2] + (0, 1) + a[4:], None))
                for m in c.may:
                    for o in ctx.eng.call_closure(ctx.inst, ctx.bb, m, args, [G("delta")], dict(ctx.env), a[:2] + (delta_iter(c),) + a[3:], ctx.stack):
                        todo.append(o[0])
            return out
        if delta_iter(c):
            if item:
                ctx.report("change-lost", "a change of a failed batch is not returned to the queue of its model")
            return [Outcome((loose, taken, delta_iter(c), ret, failed, retry, cnt, fe), V(1, G("delta"))), Outcome((loose, taken, 0, 1, failed, retry, cnt, fe), V(0))]
        if atom(c) and args and "dsz" in ctx.eng.tags(ctx.env, args[0]):
            m = atom(c)
            if m == "swap":
                return [Outcome(ctx.aut, G("obs"))]
            if re.search(r"add|store|or", m):
                return [Outcome((loose, taken, item, ret, failed, retry, 1, fe), None)]
            return None
        if tail(c) == "is_iffy" and "FractalModelDriver" in (c.path or "") + self_of(c):
            return [Outcome((loose, taken, item, ret, 1, retry, cnt, fe), TRUE), Outcome(ctx.aut, FALSE)]
        return None

    def after_call(self, ctx, c, args, aut0, o):
        if not self.commit(c):
            return o
        self.hit("commit", ctx)
        loose, taken, item, ret, failed, retry, cnt, fe = o.aut
        if o.ret is not None and o.ret[0] == "v":
            if o.ret[1] == 0:
                return Outcome((0, 0, 0, 0, 0, retry, cnt, fe), o.ret)
            if loose and not ret:
                ctx.report("change-lost", "a change is taken from the queue of a model and is not kept when writing it fails")
            return Outcome((0, taken, item, ret, 1, retry, cnt, fe), o.ret)
        out = []
        for v, f in ((V(0, None), 0), (V(1, None), 1)):
            if f and loose:
                ctx.report("change-lost", "a change is taken from the queue of a model and is not kept when writing it fails")
            out.append(Outcome((0, taken if f else 0, item, ret if f else 0, f, retry, cnt, fe), v))
        return out

    def on_stmt(self, ctx, st):
        ops = self.retry(st)
        if not ops:
            return None
        loose, taken, item, ret, failed, retry, cnt, fe = ctx.aut
        self.hit("retry", ctx)
        t = ctx.eng.tags(ctx.env, ctx.eng.operand(ctx.env, ops[-1], ctx.inst))
        if failed and ("obs" not in t or any(x[0] in "+-&" for x in t)):
            ctx.report("retry-size", "a failed batch is retried for another number of changes than it was to write")
        return (loose, taken, item, ret, failed, 1, cnt, fe)

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        loose, taken, item, given, failed, retry, cnt, fe = ctx.aut
        if failed:
            if taken and not given:
                ctx.report("change-lost", "the changes taken for a batch that could not be committed are not returned: they never reach the log")
            if not retry:
                ctx.report("not-retried", "a batch that could not be committed is not retried")
            if cnt:
                ctx.report("counted-twice", "the changes of a failed batch are counted as new ones although the batch is retried for them")
        elif given:
            ctx.report("written-twice", "changes that were committed are queued again")
        return None


class Write(Spec):
    """the writer of one batch. aut = (delta: None|'todo'|'stale'|'written'|'bad', counted, cmp: None|'eq'|'ne', bytes since the comparison)"""
    name = "write-batch"
    tagging = True
    count_steps = True

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        ft = {(RD, "txn_revised_data"): "rev", (DELTA, "data_version"): "dver"}
        for a, d in prog.adts.items():
            if a.startswith("engine::storage::v2::impls::"):
                for v in d.get("variants", ()):
                    for f in v["f"]:
                        if prog.tys(f[1]) in ("usize", "u64"):
                            ft[(a, f[0])] = "n:%s.%s" % (a.rsplit("::", 1)[-1], f[0])
        self.field_tags = ft

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def writes(self, c):
        return c.inst is not None and re.search(r"TrackedWriter<.*>::d?track(ed)?_write\w*$", c.inst.path) or re.search(r"rw::TrackedWriter::<.*>::d?track(ed)?_write\w*$", c.path or "")

    def is_event_call(self, c):
        return bool(delta_op(c) == "take" or self.writes(c))

    def stop(self, inst):
        return False

    def bump(self, st):
        """increment of a counter that lives in a struct of the log writer"""
        if st[0] != "=" or len(st[1]) < 2 or not isinstance(st[1][-1], dict):
            return None
        return self.field_tags.get((st[1][-1].get("o"), st[1][-1].get("n"))) if str(self.field_tags.get((st[1][-1].get("o"), st[1][-1].get("n")))).startswith("n:") else None

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst) or any(self.bump(s) for b in inst.body.blocks if not b.get("cl") for s in b["s"])

    def settle(self, ctx):
        d, cnt, cmp, w = ctx.aut
        if d == "todo":
            ctx.report("change-skipped", "a change taken from the queue is neither written nor found to be outdated")
        if d == "written" and cnt == 0 or d == "stale" and cnt:
            if self.counter:
                ctx.report("miscounted", "the number of changes written, which ends the batch, is %s" % ("not increased for a change that was written" if d == "written" else "increased for a change that was not written"))
        if cnt and cnt > 1 and self.counter:
            ctx.report("miscounted", "the number of changes written, which ends the batch, is increased more than once for a change")

    counter = None

    def on_call(self, ctx, c, args):
        d, cnt, cmp, w = ctx.aut
        if delta_op(c) == "take":
            self.hit("take", ctx)
            self.settle(ctx)
            return [Outcome(("todo", 0, cmp, 0), V(1, G("delta"))), Outcome((d, cnt, cmp, w), V(0))]
        if self.writes(c):
            self.hit("write", ctx)
            t = set()
            for a in args[1:]:
                t |= set(ctx.eng.tags(ctx.env, a))
            ns = {x for x in t if str(x).startswith("n:")}
            if self.counter is None and len(ns) == 1 and d is not None:
                self.final.add(next(iter(ns)))
            if self.counter and self.counter in ns and cmp:
                self.hit("final", ctx)
                if cmp == "ne" and not w:
                    ctx.report("no-early-exit", "a batch with fewer changes than announced is ended without saying so")
                if cmp == "eq" and w:
                    ctx.report("false-early-exit", "a complete batch is ended as if it had fewer changes than announced")
            if d == "stale" and not cmp:
                ctx.report("stale-written", "a change that was found to be outdated is written")
            nd = "written" if d in ("todo", "written") else d
            return [Outcome((nd, cnt, cmp, 1), V(0, None)), Outcome(("bad", 0, None, 0), V(1, None))]
        return None

    def on_stmt(self, ctx, st):
        b = self.bump(st)
        if b and b == self.counter:
            d, cnt, cmp, w = ctx.aut
            v = ctx.eng.assigned(ctx, st)
            if d is None:
                return None
            self.hit("count", ctx)
            return (d, cnt + 1, cmp, w) if cnt < 3 else None
        return None

    def on_branch(self, ctx, op, a, b):
        d, cnt, cmp, w = ctx.aut
        x, y = ("rev" in a, "dver" in a), ("rev" in b, "dver" in b)
        if (x, y) in (((1, 0), (0, 1)), ((0, 1), (1, 0))):
            o = op if x == (1, 0) else FLIP[op]
            if o == "Gt" and d in ("todo", "stale"):
                return ("stale", cnt, cmp, w)
            if o == "Gt" and d == "written" or o in ("Le", "Eq", "Lt") and d == "stale":
                return PRUNE if d == "stale" else None
            return None
        na, nb = {t for t in a if str(t).startswith("n:")}, {t for t in b if str(t).startswith("n:")}
        if self.counter and (self.counter in na) != (self.counter in nb) and na and nb:
            o = op if self.counter in na else FLIP[op]      # no more are written than announced
            if o in ("Eq", "Ge"):
                return (d, cnt, "eq", 0)
            if o in ("Ne", "Lt"):
                return (d, cnt, "ne", 0)
        return None

    def on_return(self, ctx, ret):
        if not ctx.stack and not (ret is not None and ret[0] == "v" and ret[1] == 1) and ctx.aut[0] != "bad":
            self.settle(ctx)
        return None


class Replay(Spec):
    """aut = (phase: None|'ev'|'del', kind, existing: '?'|'yes'|'no'|'gone', content: '?'|'old'|'new'|'none', fact, pending: None|'stored', pfact, occ, seen, need, set)"""
    name = "replay-batch"
    tagging = True
    count_steps = True
    INIT = (None, None, "?", "?", None, None, None, None, 0, 0, 0)

    def __init__(self, prog):
        super().__init__(prog)
        self.n = {}
        self.ev, self.kty = set(), set()
        ft = {(DS, "data_current_version"): "dcv", (RD, "txn_revised_data"): "rev"}
        for a, d in prog.adts.items():
            if a.startswith("engine::storage::"):
                for v in d.get("variants", ()):
                    for f in v["f"]:
                        if f[0] == "txn_id" and prog.tys(f[1]) == DV:
                            ft[(a, "txn_id")] = "etx"
                            self.ev.add(a)
                            for g in v["f"]:
                                t = prog.tys(g[1])
                                vs = prog.adts.get(t, {}).get("variants", ())
                                if len(vs) > 1:
                                    ft[(a, g[0])] = "evk"
                                    self.kty.add(t)
                                    self.kinds = {"%%%d" % i: x["n"] for i, x in enumerate(vs)}
                                    self.kinds.update({"#%s" % x.get("d", i): x["n"] for i, x in enumerate(vs)})
        self.field_tags = ft
        self.res = set()

    def hit(self, k, ctx):
        self.n.setdefault(k, set()).add((ctx.inst.body.path, ctx.line))

    def nexts(self, c):
        d = c.declared or c.path or ""
        if not d.endswith("Iterator::next"):
            return None
        s = self_of(c)
        if any(e in s for e in self.ev):
            return "ev"
        if PKEY in s and DV in s and re.search(r"hash_map|HashMap|btree|vec", s):
            return "del"
        return None

    def pend(self, c):
        s = self_of(c)
        if PKEY in s and DV in s and re.search(r"hash_map|HashMap|Entry", (c.path or "") + s):
            return tail(c)
        return None

    def is_event_call(self, c):
        return bool(self.nexts(c) or row_index(c) or self.pend(c))

    def stop(self, inst):
        return "mtchm::" in inst.body.path or "resolve_schema_deltas" in inst.body.path

    def has_stmt_event(self, inst):
        return self.reads_tagged(inst)

    def settle(self, ctx):
        ph, kind, ex, co, fact, pd, pf, occ, seen, need, st = ctx.aut
        if need:
            ctx.report("version-not-kept", "a change newer than all others does not move the data version to be restored")
        if ph == "ev" and kind != "Delete":
            if ex == "yes" and fact is None and co != "old":
                ctx.report("unchecked-overwrite", "a row is replaced by one from the log without comparing their versions")
            elif fact == "newer" and co != "old":
                ctx.report("newer-overwritten", "a row is replaced by an older version of it from the log")
            elif ex in ("yes", "no", "gone") and fact != "newer" and co != "new":
                ctx.report("change-not-applied", "a row change read from the log is not applied although the row is not newer")
            elif ex == "gone" and co == "new":
                ctx.report("unchecked-overwrite", "a row is replaced by one from the log without comparing their versions")
            elif ex == "?" and co == "?" and kind is not None:
                ctx.report("change-not-applied", "a row change read from the log is ignored")
            if not seen and fact != "newer" and self.versions:
                ctx.report("version-not-seen", "a row change is applied without taking its version into account for the data version of the model")
        if ph == "ev" and kind == "Delete" and pd != "stored" and not (pf == "newer") and not (ex != "?" and (fact == "newer" or co == "none" or ex == "no")):
            ctx.report("delete-forgotten", "a delete read from the log is neither applied nor kept for later")
        if ph == "ev" and kind == "Delete" and pd == "stored" and occ and pf is None:
            ctx.report("delete-unordered", "a delete replaces another of the same key without comparing their versions")
        if ph == "ev" and kind == "Delete" and pd == "stored" and pf == "newer":
            ctx.report("delete-unordered", "a delete replaces a newer one of the same key")
        if ph == "del":
            if ex == "yes" and fact is None:
                ctx.report("unchecked-delete", "a row is deleted on replay without comparing its version with that of the delete")
            if fact == "newer" and co != "old":
                ctx.report("newer-deleted", "a row is deleted on replay by a delete that is older than the row")
            if ex == "gone":
                ctx.report("unchecked-delete", "a row is deleted on replay without comparing its version with that of the delete")
            if fact == "older" and co != "none":
                ctx.report("delete-not-applied", "a delete that is newer than the row is not applied on replay")
            if ex == "?":
                ctx.report("delete-not-applied", "a delete read from the log is not applied")
            if not seen and self.versions:
                ctx.report("version-not-seen", "a delete is applied without taking its version into account for the data version of the model")

    versions = True

    def on_call(self, ctx, c, args):
        ph, kind, ex, co, fact, pd, pf, occ, seen, need, st = ctx.aut
        k = self.nexts(c)
        if k:
            self.hit("next_" + k, ctx)
            if re.search(r"iter::(\w+::)*(Skip|SkipWhile|Take|TakeWhile|StepBy|Filter|FilterMap|MapWhile)<", self_of(c)):
                ctx.report("change-not-applied", "some of the changes read from the log are passed over")
            self.settle(ctx)
            v = None if k == "ev" else ("s", (G("dpk"), G("dtx")))
            return [Outcome((k, None, "?", "?", None, None, None, None, 0, 0, st), V(1, v)), Outcome((None, None, "?", "?", None, None, None, None, 0, 0, st), V(0))]
        m = row_index(c)
        if m:
            self.hit(m, ctx)
            if re.search(r"insert|upsert", m):
                old = any("row" in ctx.eng.tags(ctx.env, a) for a in args[1:2])
                if "upsert" in m or co in ("none", "?") or ex == "no":
                    nco, nex = ("old" if old else "new"), ("gone" if ex == "?" else ex)
                else:
                    nco, nex = co, ex
                return [Outcome((ph, kind, nex, nco, fact, pd, pf, occ, seen, need, st), None)]
            if "delete" in m or "remove" in m:
                nco = "none"
                if "return" in m and ex == "?":
                    return [Outcome((ph, kind, "yes", nco, fact, pd, pf, occ, seen, need, st), V(1, G("row"))), Outcome((ph, kind, "no", nco, None, pd, pf, occ, seen, need, st), V(0))]
                return [Outcome((ph, kind, "gone" if ex == "?" else ex, nco, fact, pd, pf, occ, seen, need, st), None)]
            if "get" in m or "contains" in m:
                if ex in ("yes",) and co == "old":
                    return [Outcome(ctx.aut, V(1, G("row")))]
                if ex == "no" or co == "none":
                    return [Outcome(ctx.aut, V(0))]
                return [Outcome((ph, kind, "yes", "old", fact, pd, pf, occ, seen, need, st), V(1, G("row"))), Outcome((ph, kind, "no", "none", None, pd, pf, occ, seen, need, st), V(0))]
            return None
        p = self.pend(c)
        if p and ph == "ev":
            s = self_of(c)
            if p == "entry":
                vs = self.prog.adts.get("std::collections::hash_map::Entry", {}).get("variants") or [{"n": "Occupied"}, {"n": "Vacant"}]
                return [Outcome((ph, kind, ex, co, fact, pd, pf, 1 if v["n"] == "Occupied" else 0, seen, need, st), V(i, G("ptx") if v["n"] == "Occupied" else None)) for i, v in enumerate(vs)]
            if p == "get" or p == "get_mut":
                return [Outcome(ctx.aut, G("ptx"))] if "Entry" in s or "Entry" in (c.path or "") else [Outcome((ph, kind, ex, co, fact, pd, pf, 1, seen, need, st), V(1, G("ptx"))), Outcome((ph, kind, ex, co, fact, pd, pf, 0, seen, need, st), V(0))]
            if p in ("insert", "insert_entry", "or_insert"):
                self.hit("pending", ctx)
                t = set()
                for a in args[1:]:
                    t |= set(ctx.eng.tags(ctx.env, a))
                if "etx" not in t:
                    ctx.report("delete-version", "a delete is kept for later without its own version")
                nocc = occ if occ is not None else 1
                return [Outcome((ph, kind, ex, co, fact, "stored", pf, nocc, seen, need, st), None)]
            return None
        if atom(c) and args and "dcv" in ctx.eng.tags(ctx.env, args[0]):
            a = atom(c)
            if a in ("load",):
                return None
            self.hit("set_version", ctx)
            t = set()
            for x in args[1:]:
                t |= set(ctx.eng.tags(ctx.env, x))
            self.final |= t
            if a != "fetch_max":
                ctx.report("version-moved-back", "the data version of a model is set on replay (%s): a batch can move it back" % a)
            if t & {"etx", "dtx"} and not any(str(x).startswith("+") for x in t):
                ctx.report("version-reused", "after a replay the next change would get the version of the last one in the log")
            return [Outcome((ph, kind, ex, co, fact, pd, pf, occ, seen, need, 1), None)]
        if re.search(r"cmp::(Ord::|PartialOrd::)?max$|Ord>?::max$", c.declared or c.path or ""):
            t = set()
            for a in args:
                t |= set(ctx.eng.tags(ctx.env, a))
            if ph and t & {"etx", "dtx"} and "rev" not in t and "ptx" not in t:
                return [Outcome((ph, kind, ex, co, fact, pd, pf, occ, 1, need, st), G(*t))]
        return None

    def on_stmt(self, ctx, s):
        if s[0] != "=":
            return None
        ph, kind, ex, co, fact, pd, pf, occ, seen, need, st = ctx.aut
        pl = s[1]
        if need and len(pl) == 1 and self.prog.tys(self.prog.lty(ctx.inst, pl[0])) in (DV, "u64"):
            t = ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, s))
            if t & {"etx", "dtx"} and pl[0] in self.vars(ctx.inst):
                return (ph, kind, ex, co, fact, pd, pf, occ, seen, 0, st)
        if need and len(pl) > 1:
            t = ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, s))
            if t & {"etx", "dtx"}:
                return (ph, kind, ex, co, fact, pd, pf, occ, seen, 0, st)
        if ph == "ev" and occ and len(pl) == 2 and pl[1] == "*" and DV in self.prog.tys(self.prog.lty(ctx.inst, pl[0])) and "&mut" in self.prog.tys(self.prog.lty(ctx.inst, pl[0])):
            t = ctx.eng.tags(ctx.env, ctx.eng.assigned(ctx, s))
            self.hit("pending", ctx)
            if "etx" not in t:
                ctx.report("delete-version", "a delete is kept for later without its own version")
            return (ph, kind, ex, co, fact, "stored", pf, occ, seen, need, st)
        return None

    def vars(self, inst):
        """locals assigned more than once: candidates for an accumulated version"""
        r = self.res_vars.get(inst.id) if hasattr(self, "res_vars") else None
        if r is None:
            if not hasattr(self, "res_vars"):
                self.res_vars = {}
            n = {}
            for b in inst.body.blocks:
                if b.get("cl"):
                    continue
                for s in b["s"]:
                    if s[0] == "=" and len(s[1]) == 1:
                        n[s[1][0]] = n.get(s[1][0], 0) + 1
                t = b["t"]
                if t[0] == "call" and len(t[3]) == 1:
                    n[t[3][0]] = n.get(t[3][0], 0) + 1
            r = {k for k, v in n.items() if v > 1}
            self.res_vars[inst.id] = r
        return r

    def on_branch(self, ctx, op, a, b):
        ph, kind, ex, co, fact, pd, pf, occ, seen, need, st = ctx.aut
        if "evk" in a and ctx.dty and any(t[0] == "#" for t in b):
            if not any(ctx.dty.startswith(k) or k in ctx.dty for k in self.kty):
                return None
            for t in b:
                n = self.kinds.get(t)
                if n and op == "Eq":
                    if kind and kind != n:
                        return PRUNE
                    return (ph, n, ex, co, fact, pd, pf, occ, seen, need, st)
                if n and op == "Ne" and kind == n:
                    return PRUNE
            return None
        rec = {"etx", "dtx"}
        for x, y, o in ((a, b, op), (b, a, FLIP[op])):
            cur = "dtx" if ph == "del" else "etx"
            if "rev" in x and not (x & rec) and cur in y and "rev" not in y:
                if any(str(t)[0] in "+-" for t in x | y):
                    return None
                if o in ("Gt",):
                    return PRUNE if fact == "older" else (ph, kind, ex, co, "newer", pd, pf, occ, seen, need, st)
                if o in ("Le", "Lt"):
                    return PRUNE if fact == "newer" else (ph, kind, ex, co, "older", pd, pf, occ, seen, need, st)
                if o == "Ge":
                    # an equal version is the same change
                    return PRUNE if fact == "older" else (ph, kind, ex, co, "newer", pd, pf, occ, seen, need, st)
                return None
            if "ptx" in x and cur in y and "ptx" not in y:
                if o in ("Gt", "Ge"):
                    return PRUNE if pf == "older" else (ph, kind, ex, co, fact, pd, "newer", occ, seen, need, st)
                if o in ("Le", "Lt"):
                    return PRUNE if pf == "newer" else (ph, kind, ex, co, fact, pd, "older", occ, seen, need, st)
                return None
        cur = {"dtx" if ph == "del" else "etx"}
        if ph and not ({"rev", "ptx", "evk"} & (a | b)):
            for x, y, o in ((a, b, op), (b, a, FLIP[op])):
                if x & rec == cur and o in ("Gt", "Lt", "Ge", "Le") and not any(str(t)[0] in "+-#%" for t in x):
                    if o in ("Gt", "Ge"):
                        return (ph, kind, ex, co, fact, pd, pf, occ, 1, 1, st)
                    return (ph, kind, ex, co, fact, pd, pf, occ, 1, need, st)
        return None

    def on_return(self, ctx, ret):
        if ctx.stack:
            return None
        if ret is not None and ret[0] == "v" and ret[1] == 1:
            return None
        self.settle(ctx)
        if self.versions and not ctx.aut[10]:
            ctx.report("version-not-restored", "a batch is replayed without moving the data version of the model past it")
        return None
